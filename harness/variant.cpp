// Compiled several times, each time with all sources of the library and with other options, into one shared library each (see C37).
#define main variant_main
#include "tasks.hpp"
#include <memory>
#include "MeshKernelTIN.h"
#include "MeshKernelLinkedTriangles.h"
#include "MeshKernelHalfEdge.h"
#undef main
void run(mc::Ctx&) {}
namespace {
// one group of operations: sequences of them are run on a fresh object, which is then observed
struct Group { std::string name; std::vector<std::string> names; std::vector<int> kinds; std::function<O(const int*, int)> f; }; // kinds: 0 builder, 1 edit, 2 edit that needs a builder afterwards
std::vector<Group>& groups() { static std::vector<Group> g; return g; }
template<class T> void type(const std::string& name, const std::vector<Op<T>>& o, const std::vector<Op<T>>& d)
{
	std::vector<Op<T>> all = o; all.insert(all.end(), d.begin(), d.end()); Group g{ name,{},{},nullptr };
	for (size_t i = 0; i < all.size(); i++) { g.names.push_back(all[i].name); g.kinds.push_back(i < o.size() ? 0 : all[i].name == "clear" || all[i].name == "closed flags" ? 2 : 1); }
	g.f = [all](const int* s, int n) { T a; g_result = true; for (int i = 0; i < n; i++) all[s[i]].f(a); O r = observe(a); r.push_back(g_result); return r; }; groups().push_back(g);
}
void single(const std::string& name, int n, const std::function<O(int)>& f)
{
	Group g{ name,{},{},[f](const int* s, int) { return f(s[0]); } }; for (int i = 0; i < n; i++) { g.names.push_back(std::to_string(i)); g.kinds.push_back(0); } groups().push_back(g);
}
Point3 digits(int& k, int base) { double v[3]; for (double& x : v) { x = k % base - base / 2; k /= base; } return Point3(v[0], v[1], v[2]); }
// predicates and constructions of two triangles, a segment and a point on a small lattice
O geometry(int k)
{
	Out o; int q = k * 7919; Point3 a(0, 0, 0), b(2, 0, 0.5), d(0.5, 2, 1), e = digits(q, 4) * 0.75, f = digits(q, 5) * 0.5, g = digits(q, 3); Triangle3 t(a, b, d), u(e, f, g); Segment3 s(e, f), r(g, d); Point3 p; Plane3 x(t);
	o(t.surface()); o(u.surface()); o(u.orthogonal()); if (u.surface() > 1e-6) { o(u.normal()); Plane3 y(u); o(y.distance_to(b)); o(t.cutted_by(y)); o(u.cutted_by(x)); Line3 l; bool c = x.intersect_with(y, l); o(c); if (c) { o(l.p1()); o(l.p2()); } o(t.intersect_with(u)); o(u.contains(a)); y.project_point(d, p); o(p); }
	for (const Point3& z : { e,f,g }) { o(t.contains(z)); o(x.distance_to(z)); x.project_point(z, p); o(p); o(z.norm()); o(z.distance_square(b)); o(z.dot_product(d)); o(z.cross_product(d)); }
	bool c = t.intersect_with(s, p); o(c); if (c) o(p); c = x.intersect_with(s, p); o(c); if (c) o(p); c = s.intersect(r, p); o(c); if (c) o(p); BoundingBox3 m(t), n(u); o(m.intersect_with(n)); n.add(d); o(m.intersect_with(n)); o(s.norm()); return o.o;
}
O rotations(int k)
{
	Out o; static const double A[] = { -720,-180,-90,-1,0,1e-7,30,90,180,360,1234.5 }; double x = A[k % 11], y = A[k / 11 % 11], z = A[k / 121 % 11]; Point3 p(1, 2, 3), axis(x + 1, y + 2, z - 3); axis.normalize(); RotationEulerAngles(x, y, z).apply(p); o(p); p = Point3(1, 2, 3);
	RotationQuaternion q; q.from_angle_axis(x / 57, axis); q.apply(p); o(p); RotationMatrix m; m.from_angle_axis(y / 57, axis); m.apply(p); o(p); RotationAngleAxis w(z / 57, axis); w.apply(p); o(p); Scale(x, y, z).apply(p); o(p); GeometryUtil::compute_random_axis(p, k * 31 - 5); o(p); return o.o;
}
O render(int k)
{
	std::vector<int> px(16 * 12 + 8, -7); Renderer r(px.data(), 16, 12); r.set_background(5); r.clear(); int q = k; double y = q % 6 * 50 - 90; q /= 6; double p = q % 4 * 40 - 50; q /= 4; double z = q % 3; q /= 3; r.set_camera(z * 0.3, 0, z, 8 - 4 * z, y, p, z * 20, 10 + z * 10);
	if (q % 3) r.add_ambient_light(0x808080, 0.5); if (q % 3 == 2) r.add_diffuse_light(0xff80ff, 0.75, Point3(0.5, 0.5, -1)); r.draw_mesh(mesh(1), q % 2, 0x3366cc); r.draw_triangle_1color(Point3(-30, -30, 1), Point3(40, -3, -2), Point3(0, 30, 6), 0x777777); r.draw_polyline({ Point3(-50, 0, 0),Point3(1, 1, 1),Point3(9, 60, 0) }, 77); for (int i = 0; i < 5; i++) r.draw_pixel(Point3(0.1 * i, 0.2, 1 + i), 3 + i); return O(px.begin(), px.end());
}
O edits(int k) // splits and flips, then measures
{
	Mesh m; if (k % 2) MeshFactory::create_box(1, 2, 3, m); else MeshFactory::create_tetrahedron(2, m); int q = k / 2; Out o;
	for (int i = 0; i < 3; i++) { int t = q % 7; q /= 7; if (t >= m.nb_triangles() || m.is_triangle_unlinked(t)) continue; Triangle3 x; m.get_triangle(t, x); if (i == 0) m.split_triangle_with_vertex(t, (x.p1() + x.p2() + x.p3()) / 3.); else if (i == 1) { int a, b, d; m.get_near_triangles(t, a, b, d); o(a); o(b); o(d); m.flip_triangle(t); } else { Point3 c = (x.p1() + x.p2() * 2. + x.p3()) / 4.; m.split_triangle(t, Triangle3(c + Point3(0.1, 0.3, 0.2), c - Point3(0.3, 0.2, 0.1), c + Point3(5, -4, 7))); } }
	o(MeshMeasurements::volume(m)); o(MeshMeasurements::surface(m)); o(MeshMeasurements::is_closed(m)); o(MeshMeasurements::is_clean(m)); for (double d : observe(m)) o(d); return o.o;
}
}
// operations on a mesh kernel of its own: vertices, triangles, unlinking, moving, then everything is read back
O kernel_ops(int k)
{
	std::unique_ptr<MeshKernel> m; int w = k % 3; k /= 3; if (w == 0) m.reset(new MeshKernelTIN); else if (w == 1) m.reset(new MeshKernelLinkedTriangles); else m.reset(new MeshKernelHalfEdge); Out o;
	for (int i = 0; i < 4; i++) o(m->add_vertex(Point3(i * 1.5, i * i, 1 - i))); if (w != 2) { o(m->add_triangle(0, 1, 2)); o(m->add_triangle(2, 1, 3)); }
	for (int i = 0; i < 5; i++, k /= 6) { int q = k % 6; if (q == 0) o(m->add_vertex(Point3(i, -i, 7))); else if (q == 1 && w != 2) o(m->add_triangle(i % 3, 3, (i + 1) % 3)); else if (q == 2) m->set_vertex(i % 4, Point3(9, i, 2)); else if (q == 3 && w != 2 && m->nb_triangles()) m->unlink_triangle(m->nb_triangles() - 1); else if (q == 4 && w != 2 && m->nb_triangles()) m->unlink_triangle(0); else if (q == 5) m->clear(), m->add_vertex(Point3(1, 1, i)), m->add_vertex(Point3(0, 1, i)), m->add_vertex(Point3(1, 2, i)), m->add_vertex(Point3(5, 5, i)); }
	o(m->nb_vertices()); o(m->nb_triangles()); for (int i = 0; i < m->nb_vertices(); i++) { Point3 p; m->get_vertex(i, p); o(p); } for (int i = 0; i < m->nb_triangles(); i++) { o(m->is_triangle_unlinked(i)); int a, b, d; m->get_triangle_vertices(i, a, b, d); if (!m->is_triangle_unlinked(i)) { o(a); o(b); o(d); } if (w == 1) { m->get_near_triangles(i, a, b, d); o(a); o(b); o(d); } } return o.o;
}
#define API extern "C" __attribute__((visibility("default")))
static std::vector<std::string>* g_files; static std::string* g_dir; static std::vector<Task>* g_tasks;
// one byte of a file replaced, or the file cut: which loader, position, value
static O load(int k)
{
	int which = k % g_files->size(); k /= g_files->size(); std::string s = slurp((*g_files)[which]); static const int V[] = { -1,0,1,0x7f,0x80,0xff,' ','-','/','9' }; int v = V[k % 10]; k /= 10; if (k >= (int)s.size()) return O(); if (v < 0) s.resize(k); else s[k] = (char)v;
	std::string f = *g_dir + "/load"; spit(f, s); O r; std::string x = (*g_files)[which]; x = x.substr(x.size() - 3);
	if (x == "bmp") { Image m; r.push_back(ImageIoBmp::read(f, &m)); O q = observe(m); r.insert(r.end(), q.begin(), q.end()); } else { Mesh m; r.push_back(x == "stl" ? STLFile::load(f, m) : OBJFile::load(f, m)); O q = observe(m); r.insert(r.end(), q.begin(), q.end()); } return r;
}
API void v_init(const char* d)
{
	std::string dir = d; g_dir = new std::string(dir); Builders* B = new Builders(dir);
	type<Mesh>("mesh", B->mo, B->md); type<SmoothMesh>("smooth mesh", B->so, B->sd); type<NurbsCurve>("curve", B->co, B->cd); type<NurbsSurface>("surface", B->uo, B->ud); type<NurbsSolid>("NURBS solid", B->lo, B->ld); type<Image>("image", B->io, B->id); type<std::vector<double>>("sample vector", B->dv, B->dd); type<std::vector<Point3>>("polyline", B->pv, B->pd);
	g_tasks = new std::vector<Task>(all_tasks(dir, *B)); Group g{ "operation",{},{},[](const int* s, int n) { O o; for (int i = 0; i < n; i++) { O q = (*g_tasks)[s[i]].f(0); o.insert(o.end(), q.begin(), q.end()); } return o; } }; for (auto& t : *g_tasks) { g.names.push_back(t.name); g.kinds.push_back(0); } groups().push_back(g);
	single("geometry", 40000, geometry); single("rotations", 1331, rotations); single("rendering", 6 * 4 * 3 * 6, render); single("kernels", 3 * 6 * 6 * 6 * 6 * 6, kernel_ops); single("edits", 2 * 7 * 7 * 7, edits);
	g_files = new std::vector<std::string>{ B->stl,B->obj,B->b1,B->b3,B->b4 }; size_t n = 0; for (auto& f : *g_files) n = std::max(n, slurp(f).size()); single("damaged file", (int)(n * 10 * g_files->size()), load);
}
API int v_groups() { return (int)groups().size(); }
API const char* v_group(int g) { return groups()[g].name.c_str(); }
API int v_count(int g) { return (int)groups()[g].names.size(); }
API const char* v_name(int g, int i) { return groups()[g].names[i].c_str(); }
API int v_kind(int g, int i) { return groups()[g].kinds[i]; }
// runs operations on a fresh object; returns the number of values observed, -1 if an exception ended it
API long v_run(int g, const int* s, int n, double* out, long max) { try { O o = groups()[g].f(s, n); for (size_t i = 0; i < o.size() && (long)i < max; i++) out[i] = o[i]; return (long)o.size(); } catch (std::exception&) { return -1; } }
