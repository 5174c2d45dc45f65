// C35: every single allocation of every operation fails, alone or with all after it.
#include <cstddef>
#include <cstdlib>
#include <new>
static long g_live = 0, g_armed = -1, g_count = 0; static bool g_rest = false, g_fired = false; // bytes in use; allocation to fail (-1: none); allocations since arm()
static void* galloc(std::size_t n)
{
	if (g_armed >= 0 && (g_count == g_armed || (g_rest && g_count > g_armed))) { g_count++; g_fired = true; throw std::bad_alloc(); }
	g_count++; std::size_t* p = (std::size_t*)std::malloc(n + 16);
	if (!p) throw std::bad_alloc();
	*p = n; g_live += (long)n; return (char*)p + 16;
}
static void gfree(void* q) { if (!q) return; std::size_t* p = (std::size_t*)((char*)q - 16); g_live -= (long)*p; std::free(p); }
void* operator new(std::size_t n) { return galloc(n); }
void* operator new[](std::size_t n) { return galloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return galloc(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return galloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { gfree(p); }
void operator delete[](void* p) noexcept { gfree(p); }
void operator delete(void* p, std::size_t) noexcept { gfree(p); }
void operator delete[](void* p, std::size_t) noexcept { gfree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { gfree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { gfree(p); }

#include "builders.hpp"
#include <memory>
#include "Face.h"
#include "Solid.h"
#include "StepFile.h"
#include "Renderer.h"
#include "MeshMeasurements.h"
namespace {
struct Pixels { std::vector<int> buf; Pixels() : buf(16 * 12, -7) {} };
O observe(const Pixels& p) { O o; for (int x : p.buf) o.push_back(x); return o; }
O observe(const Face& f) { O o = observe(const_cast<Face&>(f).mesh()); return o; }
O observe(const Solid& f) { O o = observe(const_cast<Solid&>(f).mesh()); return o; }
struct File { std::string name; };
O observe(const File& f) { O o; for (unsigned char ch : slurp(f.name)) o.push_back(ch); return o; }
// what is wrong with an object after an operation on it failed
template<class T> std::string invalid(const T&) { return ""; }
std::string invalid(const Mesh& m)
{
	for (int i = 0; i < m.nb_triangles(); i++) { int a, b, d; m.get_triangle_vertices(i, a, b, d); for (int k : { a,b,d }) if (k < 0 || k >= m.nb_vertices()) return S() << "triangle " << i << " refers to vertex " << k << " of " << m.nb_vertices(); (void)m.is_triangle_unlinked(i); }
	observe(m); return "";
}
std::string invalid(const Image& m) { observe(m); return ""; } // reads every pixel: the sanitizer ends the run if there are fewer than the sizes say
std::string keyof(const std::string& s) { return s.substr(0, s.find_first_of("( ")); }
// one operation on one object brought to a previous content by prep: every allocation fails once (mode 1: and all after it)
template<class T> void inject(mc::Ctx& c, const std::string& type, const Op<T>& prep, const Op<T>& op, bool builder, const std::function<void(T&)>& init)
{
	for (int mode = 0; mode < 2; mode++) c.test([&] { return type + ": " + prep.name + "; then " + op.name + (mode ? "; an allocation and all after it fail" : "; one allocation fails"); }, [&] {
		O want; { T a; init(a); prep.f(a); g_result = true; op.f(a); want = observe(a); } { T a; init(a); prep.f(a); g_result = true; op.f(a); O w = observe(a); if (!same(w, want)) { c.fail("repeat-" + keyof(op.name), where(w, want)); return; } }
		long max = c.bound(300, 5000), k = 0; std::string key = keyof(op.name);
		for (bool fired = true; fired && k < max; k++) {
			long live = g_live; bool threw = false, other = false, equal = true, again = true, res = true; std::string* why = nullptr, * bad = nullptr;
			{
				T a; init(a); prep.f(a); g_result = true; g_fired = false; g_count = 0; g_rest = mode; g_armed = k;
				try { op.f(a); } catch (std::bad_alloc&) { threw = true; } catch (...) { other = true; }
				g_armed = -1; fired = g_fired; res = g_result; c.step(); { std::string w = invalid(a); if (!w.empty()) bad = new std::string(w); }
				if (!threw && !other && res) { O w = observe(a); equal = same(w, want); if (!equal) why = new std::string(where(w, want)); }
				if (equal && builder) { g_result = true; op.f(a); O w = observe(a); again = g_result && same(w, want); if (!again) why = new std::string(where(w, want)); }
				T b; b = T(); // still assignable and destructible
			}
			if (bad) { c.fail("invalid-" + key, S() << "after the failure of allocation " << k << ": " << *bad); delete bad; return; }
			std::string e; if (why) { e = *why; delete why; }
			long leak = g_live - live - (e.capacity() > 15 ? (long)e.capacity() + 1 : 0);
			if (other) { c.fail("exception-" + key, S() << "allocation " << k << " failed: another exception than std::bad_alloc"); return; }
			if (!equal) { c.fail("unreported-" + key, S() << "allocation " << k << " failed, nothing was reported, but: " << e); return; }
			if (!again) { c.fail("unusable-" + key, S() << "after the failure of allocation " << k << " the same operation gives: " << e); return; }
			if (leak != 0) { c.fail("leak-" + key, S() << "allocation " << k << " failed: " << leak << " bytes are never released"); return; }
			c.obs(threw ? 1 : res ? 2 : 3);
		}
	});
}
template<class T> void all(mc::Ctx& c, const std::string& type, std::vector<Op<T>> prep, const std::vector<Op<T>>& builders, const std::vector<Op<T>>& edits, const std::function<void(T&)>& init = [](T&) {})
{
	c.section(type, S() << builders.size() << " builders and " << edits.size() << " edits after " << prep.size() + 1 << " previous contents: every allocation fails, alone or with all after it");
	prep.insert(prep.begin(), { "nothing",[](T&) {} });
	for (auto& p : prep) for (auto& b : builders) inject<T>(c, type, p, b, true, init);
	for (auto& p : prep) for (auto& e : edits) inject<T>(c, type, p, e, false, init);
}
template<class T> std::vector<Op<T>> some(const std::vector<Op<T>>& v, std::vector<int> k) { std::vector<Op<T>> r; for (int i : k) r.push_back(v[i]); return r; }
}
void run(mc::Ctx& c)
{
	std::string dir = c.scratch + "/c35-" + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
	Builders B(dir);
	std::vector<Op<Mesh>> me = B.md;
	me.push_back({ "copy",[](Mesh& m) { Mesh b(m); if (b.nb_triangles() != m.nb_triangles() || b.nb_vertices() != m.nb_vertices()) m.clear(); } });
	me.push_back({ "append_itself",[](Mesh& m) { m.add_mesh(m); } }); me.push_back({ "append",[](Mesh& m) { m.add_mesh(mesh(1)); } });
	me.push_back({ "split_triangle",[](Mesh& m) { if (m.nb_triangles() && !m.is_triangle_unlinked(0)) m.split_triangle_with_vertex(0, Point3(0.25, 0.25, 0.125)); } });
	me.push_back({ "split_by_triangle",[](Mesh& m) { if (m.nb_triangles()) m.split_triangle(0, Triangle3(Point3(-9, -9, -9.5), Point3(9, 8, 9), Point3(9, 9, -9))); } });
	me.push_back({ "flip",[](Mesh& m) { if (m.nb_triangles() && !m.is_triangle_unlinked(0)) m.flip_triangle(0); } });
	me.push_back({ "remove_empty",[](Mesh& m) { if (m.nb_triangles()) MeshUtil::remove_empty_triangles(m, 1e-3); } });
	me.push_back({ "measure",[](Mesh& m) { m.set_color(MeshMeasurements::is_closed(m) * 2 + (MeshMeasurements::volume(m) > 0)); } });
	me.push_back({ "append_surface",[](Mesh& m) { NurbsSurface s; NurbsFactory::create_disk(1, s); NurbsUtil::to_mesh(s, m, 2, false); } });
	me.push_back({ "append_smooth",[](Mesh& m) { SmoothMesh s; SmoothMeshFactory::create_octahedron(1, s); s.add_to_mesh(m, 2); } });
	all<Mesh>(c, "mesh", some(B.mo, { 1,7,12 }), B.mo, me);
	auto se = B.sd; se.push_back({ "copy",[](SmoothMesh& m) { SmoothMesh b(m); if (b.nb_triangles() != m.nb_triangles()) m.clear(); } }); se.push_back({ "append_itself",[](SmoothMesh& m) { m.add_mesh(m); } }); se.push_back({ "add_flat_quad",[](SmoothMesh& m) { m.add_flat_quad(Point3(0, 0, 0), Point3(1, 0, 0), Point3(1, 1, 0), Point3(0, 1, 0)); } });
	all<SmoothMesh>(c, "smooth mesh", some(B.so, { 0,2 }), B.so, se);
	auto ce = B.cd; ce.push_back({ "copy",[](NurbsCurve& m) { NurbsCurve b(m); if (b.knots() != m.knots()) m.clear(); } });
	std::vector<Op<NurbsCurve>> cp = some(B.co, { 1,2,3,7 }), cn; // edits need a curve
	all<NurbsCurve>(c, "curve", cp, B.co, cn); for (auto& p : cp) for (auto& e : ce) if (e.name != "clear") inject<NurbsCurve>(c, "curve", p, e, false, [](NurbsCurve&) {});
	auto ue = B.ud; ue.push_back({ "copy",[](NurbsSurface& m) { NurbsSurface b(m); if (b.knots_u() != m.knots_u()) m.clear(); } }); ue.push_back({ "transform",[](NurbsSurface& m) { m.apply_transform(Scale(2)); } }); ue.push_back({ "weights",[](NurbsSurface& m) { m.set_equals_weights(); } });
	std::vector<Op<NurbsSurface>> up = some(B.uo, { 1,4,12 }), un;
	all<NurbsSurface>(c, "surface", up, B.uo, un); for (auto& p : up) for (auto& e : ue) if (e.name != "clear" && e.name != "closed flags") inject<NurbsSurface>(c, "surface", p, e, false, [](NurbsSurface&) {});
	auto le = B.ld; le.push_back({ "copy",[](NurbsSolid& m) { NurbsSolid b(m); if (b.surfaces().size() != m.surfaces().size()) m.clear(); } });
	all<NurbsSolid>(c, "NURBS solid", some(B.lo, { 0,3 }), B.lo, le);
	auto ie = B.id; ie.push_back({ "copy",[](Image& m) { Image b(m); if (b.size() != m.size()) m.resize(0, 0, 1); } });
	all<Image>(c, "image", some(B.io, { 0,4 }), B.io, ie);
	all<std::vector<double>>(c, "sample vector", B.dd, B.dv, {}); all<std::vector<Point3>>(c, "polyline", B.pd, B.pv, {});
	std::vector<Op<Face>> fo = { { "from_mesh",[](Face& f) { f = Face(mesh(1)); } },{ "assign",[](Face& f) { Mesh m = mesh(0); Face k(m), q(k); f = q; } } }; all<Face>(c, "face", fo, fo, { { "edit",[](Face& f) { f.mesh().add_triangle(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); } } });
	std::vector<Op<Solid>> sl = { { "from_mesh",[](Solid& f) { f = Solid(mesh(1)); } },{ "add_face",[](Solid& f) { Solid k(mesh(0)); k.add_face(Face(mesh(1))); k.add_face(Face(mesh(2))); Solid q(k); f = q; } } }; all<Solid>(c, "solid", sl, sl, {});
	std::vector<Op<File>> wo;
	wo.push_back({ "save_stl",[](File& f) { g_result = STLFile::save(f.name, mesh(0)); } }); wo.push_back({ "save_obj",[](File& f) { g_result = OBJFile::save(f.name, mesh(1)); } });
	for (int p : { 1,3,4 }) wo.push_back({ S() << "save_bmp(" << p << ")",[=](File& f) { Image i(5, 3, p); for (int k = 0; k < i.size(); k++) i.data()[k] = (unsigned char)(k * 29 + 3); g_result = ImageIoBmp::write(f.name, &i); } });
	wo.push_back({ "obj_writer",[](File& f) { OBJWriter w; w.open(f.name); w.write(mesh(0)); w.write(std::vector<Point3>{ Point3(1, 2, 3), Point3(4, 5, 6) }); w.write(mesh(1)); g_result = w.close(); } });
	wo.push_back({ "step_writer",[](File& f) { NurbsSolid s; NurbsFactory::create_box(1, 2, 3, s); NurbsSurface t; NurbsFactory::create_torus(3, 1.1, t); StepWriter w; w.open(f.name); w.write(s); w.write(t); w.close(); } });
	all<File>(c, "savers", {}, wo, {}, [dir](File& f) { f.name = dir + "/a_file_with_a_name_of_some_length"; });
	std::vector<Op<Pixels>> ro;
	for (int n = 0; n < 4; n++) ro.push_back({ S() << "render(" << n << " lights)",[=](Pixels& p) { Renderer r(p.buf.data(), 16, 12); r.set_background(5); r.clear(); r.set_camera(0, 0, 0, 8, 20, 30, 0, 10); for (int i = 0; i < n; i++) if (i % 2) r.add_diffuse_light(0xffffff, 0.5, Point3(0, 0, -1)); else r.add_ambient_light(0x808080, 0.75); r.draw_mesh(mesh(1), n == 1); r.draw_polyline({ Point3(0, 0, 0), Point3(1, 1, 1), Point3(-1, 1, 0) }, 77); } });
	all<Pixels>(c, "renderer", {}, ro, {});
}
