// C22: STL files, byte by byte, against an independent codec.
#include "common.hpp"
#include "STLFile.h"
#include "MeshFactory.h"
#include <filesystem>

namespace {
struct Facet { float n[3] = { 0,0,0 }, p[9]; uint16_t attr = 0; };
bool decode(const std::string& s, std::vector<Facet>& r, std::string& err)
{
	r.clear(); if (s.size() < 84) { err = S() << "file of " << s.size() << " bytes has no complete header"; return false; }
	uint32_t n; memcpy(&n, s.data() + 80, 4); if (s.size() != 84 + 50ull * n) { err = S() << "file of " << s.size() << " bytes declares " << n << " facets"; return false; }
	for (uint32_t i = 0; i < n; i++) { Facet f; const char* q = s.data() + 84 + 50 * i; memcpy(f.n, q, 12); memcpy(f.p, q + 12, 36); memcpy(&f.attr, q + 48, 2); r.push_back(f); }
	return true;
}
std::string encode(const std::vector<Facet>& r, char fill)
{
	std::string s(80, fill); uint32_t n = (uint32_t)r.size(); s.append((char*)&n, 4);
	for (auto& f : r) { s.append((char*)f.n, 12); s.append((char*)f.p, 36); s.append((char*)&f.attr, 2); } return s;
}
std::vector<std::array<float, 9>> live(const TriList& l)
{
	std::vector<std::array<float, 9>> r; for (size_t i = 0; i < l.t.size(); i++) { if (l.removed[i]) continue; std::array<float, 9> a; for (int k = 0; k < 3; k++) { V q = l.v[l.t[i][k]]; a[3 * k] = (float)q.x; a[3 * k + 1] = (float)q.y; a[3 * k + 2] = (float)q.z; } r.push_back(a); } return r;
}
bool feq(float a, float b) { return a == b || (a != a && b != b); }
// same triangle up to rotation of its corners, orientation kept
bool teq(const std::array<float, 9>& a, const std::array<float, 9>& b) { for (int r = 0; r < 3; r++) { bool ok = true; for (int k = 0; k < 9; k++) ok = ok && feq(a[k], b[(k + 3 * r) % 9]); if (ok) return true; } return false; }
std::vector<std::array<float, 9>> pts(const std::vector<Facet>& f) { std::vector<std::array<float, 9>> r; for (auto& x : f) { std::array<float, 9> a; for (int k = 0; k < 9; k++) a[k] = x.p[k]; r.push_back(a); } return r; }
std::string cmp(const std::vector<std::array<float, 9>>& a, const std::vector<std::array<float, 9>>& b)
{
	if (a.size() != b.size()) return S() << a.size() << " triangles, expected " << b.size();
	for (size_t i = 0; i < a.size(); i++) if (!teq(a[i], b[i])) return S() << "triangle " << i << " differs: first corner " << a[i][0] << "," << a[i][1] << "," << a[i][2] << " expected " << b[i][0] << "," << b[i][1] << "," << b[i][2];
	return "";
}
void check_saved(mc::Ctx& c, const std::string& bytes, const TriList& l)
{
	std::vector<Facet> f; std::string e; if (!decode(bytes, f, e)) { c.fail("format", e); return; }
	std::string d = cmp(pts(f), live(l)); MC_CHECK(c, d == "", "saved-triangles", d); if (d != "") return;
	for (size_t i = 0; i < f.size(); i++) {
		V n = { f[i].n[0],f[i].n[1],f[i].n[2] }; V a = { f[i].p[0],f[i].p[1],f[i].p[2] }, b = { f[i].p[3],f[i].p[4],f[i].p[5] }, d2 = { f[i].p[6],f[i].p[7],f[i].p[8] }, g = cross(b - a, d2 - a);
		bool zero = n.x == 0 && n.y == 0 && n.z == 0; bool ok = zero || (std::fabs(len(n) - 1) < 1e-3 && len(g) > 0 && len(n - g * (1 / len(g))) < 1e-2);
		MC_CHECK(c, ok, "saved-normal", "facet " << i << " normal " << str(n) << " is neither zero nor the unit right-hand normal");
	}
}
void write_file(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
std::vector<TriList> meshes(mc::Ctx& c)
{
	std::vector<TriList> r; const V lat[] = { {0,0,0},{1.5,0,-2},{0,3,0.125},{-1,1e-3,4},{0.1,1e10,-1e-20} };
	std::vector<Tri> ts; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int d = 0; d < 5; d++) if ((a != b && b != d && a != d) || (a == b && a == 0 && d < 2)) ts.push_back({ a,b,d });
	for (int k = 0; k <= 2; k++) { if (!k) { r.push_back(TriList()); continue; } sequences((int)ts.size(), k, [&](const std::vector<int>& q) { if (k == 2 && (q[0] * 7 + q[1]) % c.bound(3, 1)) return; for (int m = 0; m < (1 << k); m++) { TriList l; for (auto& p : lat) l.v.push_back(p); for (int i = 0; i < k; i++) { l.addt(ts[q[i]][0], ts[q[i]][1], ts[q[i]][2]); l.removed[i] = (m >> i) & 1; } r.push_back(l); } }); }
	return r;
}
void use(Mesh& m, int k) { if (k == 1) { MeshFactory::create_box(1, 2, 3, m); m.unlink_triangle(4); m.set_color(0xff); } else if (k == 2) { m.add_vertex(1, 2, 3); } }
}
void run(mc::Ctx& c)
{
	auto ms = meshes(c); std::string f = c.scratch + "/m.stl", g = c.scratch + "/n.stl";
	c.section("save, load, save", "every mesh of up to 2 triangles over 5 vertices (degenerate and extreme ones included) with every removed subset, over absent, shorter and longer files, into fresh and used meshes");
	for (size_t k = 0; k < ms.size(); k++) for (int pre = 0; pre < 3; pre++) c.test([&, k, pre] { return S() << dump(ms[k]) << " previous file " << pre; }, [&, k, pre] {
		::unlink(f.c_str()); ::unlink(g.c_str()); if (pre == 1) write_file(f, "short"); if (pre == 2) write_file(f, std::string(5000, 'x'));
		Mesh m; build_into(ms[k], m); bool ok = STLFile::save(f, m); c.step(); MC_CHECK(c, ok, "save-result", "save returned false"); std::string d = diff(snapshot(m), ms[k]); MC_CHECK(c, d == "", "input-modified", d);
		std::string bytes = slurp(f); check_saved(c, bytes, ms[k]); if (c.failed_current()) return;
		Mesh t; use(t, (int)(k + pre) % 3); ok = STLFile::load(f, t); c.step(); MC_CHECK(c, ok, "load-result", "load returned false"); TriList l = snapshot(t); d = cmp(live(l), live(ms[k])); MC_CHECK(c, d == "" && (int)l.t.size() == l.live(), "loaded-triangles", d); MC_CHECK(c, (int)l.t.size() == ms[k].live(), "loaded-count", "the previous content is still there");
		ok = STLFile::save(g, t); MC_CHECK(c, ok && slurp(g) == bytes, "byte-stable", "saving the loaded mesh gives another file"); c.obs(l.hash());
	});
	c.section("foreign files", "files of 0..6 facets by an independent writer: header bytes, normals, attributes and coordinate patterns, loaded into fresh and used meshes");
	const float vals[] = { 0.f,1.f,-2.5f,1e-38f,3e38f,0.1f,-1e-45f,16777217.f,123.456f };
	for (int n = 0; n <= c.bound(6, 12); n++) for (int hdr = 0; hdr < 4; hdr++) for (int pat = 0; pat < 9; pat++) for (int u = 0; u < 3; u++) c.test([&] { return S() << n << " facets, header " << hdr << " pattern " << pat << " target " << u; }, [&] {
		std::vector<Facet> fs; for (int i = 0; i < n; i++) { Facet x; for (int k = 0; k < 9; k++) x.p[k] = vals[(i * 4 + k * (pat + 1) + pat) % 9] + (pat % 2 ? 0.f : i * 2.f); for (int k = 0; k < 3; k++) x.n[k] = pat % 3 ? k == i % 3 : vals[(k + i) % 9]; x.attr = pat * 1111 + i; fs.push_back(x); }
		std::string s = encode(fs, hdr == 0 ? 0 : hdr == 1 ? ' ' : (char)0xff); if (hdr == 3) s.replace(0, 6, "solid "); write_file(f, s);
		Mesh t; use(t, u); bool ok = STLFile::load(f, t); c.step(); MC_CHECK(c, ok, "foreign-result", "load returned false"); TriList l = snapshot(t); std::string d = cmp(live(l), pts(fs)); MC_CHECK(c, d == "" && (int)l.t.size() == n, "foreign-triangles", d << " count " << l.t.size()); MC_CHECK(c, slurp(f) == s, "file-modified", "the file was modified"); c.obs(l.hash());
		ok = STLFile::save(g, t); std::vector<Facet> back; std::string e; MC_CHECK(c, ok && decode(slurp(g), back, e) && cmp(pts(back), pts(fs)) == "", "foreign-resave", "saved again: " << e);
	});
	c.section("attributes", "files of 3 facets with every attribute of a set (all single bits, all ones, their neighbours; every value in the thorough tier) on each facet, and with every byte of the header and every kind of normal");
	for (int a = 0; a < 65536; a++) { int lo = a & (a - 1), hi = (a + 1) & a; if (c.bound(1, 0) && lo && hi && a % 257 && ((a ^ 0xffff) & ((a ^ 0xffff) - 1)) && a % 1021) continue; for (int who = 0; who < 4; who++) c.test([&] { return S() << "attribute " << a << " on facet " << who << " of 3 (3: all)"; }, [&] {
		std::vector<Facet> fs; for (int i = 0; i < 3; i++) { Facet x; for (int k = 0; k < 9; k++) x.p[k] = vals[(i * 2 + k) % 5] + k; x.n[i] = 1; x.attr = who == i || who == 3 ? (uint16_t)a : 0; fs.push_back(x); } write_file(f, encode(fs, ' ')); Mesh t; use(t, a % 3); bool ok = STLFile::load(f, t); c.step(); MC_CHECK(c, ok, "attribute-result", "load returned false"); TriList l = snapshot(t); std::string d = cmp(live(l), pts(fs)); MC_CHECK(c, d == "" && l.t.size() == 3, "attribute-triangles", d << " count " << l.t.size()); c.obs(a); c.obs(who);
	}); }
	for (int h = 0; h < 256; h++) c.test([&] { return S() << "header byte " << h; }, [&] {
		std::vector<Facet> fs; for (int i = 0; i < 2; i++) { Facet x; for (int k = 0; k < 9; k++) x.p[k] = k * k + i; static const float NN[] = { 0,1,-1,0.5f,1e30f,-1e-40f,NAN,INFINITY }; for (int k = 0; k < 3; k++) x.n[k] = NN[(h >> (k + i)) % 8]; fs.push_back(x); } std::string s = encode(fs, (char)h); if (h % 2) s.replace(0, 5, "COLOR"); write_file(f, s); Mesh t; bool ok = STLFile::load(f, t); c.step(); TriList l = snapshot(t); std::string d = cmp(live(l), pts(fs)); MC_CHECK(c, ok && d == "" && l.t.size() == 2, "header", "result " << ok << " " << d << " count " << l.t.size()); c.obs(h);
	});
	c.section("many triangles", "meshes and foreign files of every size beside a power of two up to more than 65536 triangles, some removed");
	for (int k = 2; k <= c.bound(65536, 262144); k *= 2) for (int dl = -1; dl <= 1; dl++) for (int rm = 0; rm < 3; rm++) c.test([&] { return S() << k + dl << " triangles, removed " << rm; }, [&] {
		int n = k + dl; TriList a; for (int i = 0; i < n + 2; i++) a.addv(i * 0.5, i % 7, (i % 11) * 0.25 - i); for (int i = 0; i < n; i++) { a.addt(i, i + 1 + i % 2, i + 2 - i % 2); if (rm == 1 ? i == n - 1 || i == 0 : rm == 2 && i % 5 == 1) a.removed.back() = true; }
		Mesh m, t; build_into(a, m); use(t, rm); bool ok = STLFile::save(f, m); c.step(); MC_CHECK(c, ok, "save-result", "save returned false"); check_saved(c, slurp(f), a); if (c.failed_current()) return; ok = STLFile::load(f, t); c.step(); MC_CHECK(c, ok, "load-result", "load returned false"); TriList l = snapshot(t); std::string d = cmp(live(l), live(a)); MC_CHECK(c, d == "" && (int)l.t.size() == a.live(), "loaded-triangles", d); c.obs(l.hash());
	});
	c.section("coordinates", "every power of two from 2^-149 to 2^127 and a palette of decimal values on every axis of every corner, both signs");
	std::vector<double> vs; for (int e = -149; e <= 127; e += c.bound(3, 1)) { vs.push_back(std::ldexp(1., e)); vs.push_back(-std::ldexp(1.5, std::min(e, 126))); } for (double x : { 0.1,1e-3,123456.789,-0.0,1e9,16777216.,-16777217.,2147483648.,4294967296.,1. / 3 }) vs.push_back(x);
	for (double x : vs) c.test([&] { return S() << "value " << x; }, [&] {
		TriList a; for (int k = 0; k < 9; k++) { double q[9] = { 0,0,0,1,0,0,0,1,0 }; q[k] = x; for (int j = 0; j < 3; j++) a.addv(q[3 * j], q[3 * j + 1], q[3 * j + 2]); a.addt(3 * k, 3 * k + 1, 3 * k + 2); }
		Mesh m, t; build_into(a, m); bool ok = STLFile::save(f, m) && STLFile::load(f, t); c.step(2); MC_CHECK(c, ok, "load-result", "save or load returned false"); std::vector<Facet> fs; std::string e; if (!decode(slurp(f), fs, e)) { c.fail("format", e); return; } std::string d = cmp(pts(fs), live(a)); MC_CHECK(c, d == "", "saved-triangles", d); TriList l = snapshot(t); d = cmp(live(l), live(a)); MC_CHECK(c, d == "", "loaded-triangles", d); c.obs(l.hash());
	});
	c.section("solids", "factory solids with several segment counts, partly removed, saved and loaded twice in the same objects");
	for (int k = 0; k < 6; k++) for (int n = 3; n <= c.bound(12, 40); n += 3) for (int rm = 0; rm < 3; rm++) c.test([&] { return S() << "solid " << k << " segments " << n << " removed " << rm; }, [&] {
		Mesh m; switch (k) { case 0: MeshFactory::create_icosahedron(n, m); break; case 1: MeshFactory::create_cylinder(2, n, n, m); break; case 2: MeshFactory::create_sphere_uv(n, n, m); break; case 3: MeshFactory::create_torus(n, 1, n, m); break; case 4: MeshFactory::create_box(n, 1, 2, m); break; default: MeshFactory::create_dodecahedron(n / 7., m); }
		if (rm) for (int i = 0; i < m.nb_triangles(); i += rm == 1 ? 3 : 1) m.unlink_triangle(i); TriList a = snapshot(m); Mesh t;
		for (int r = 0; r < 2; r++) { bool ok = STLFile::save(f, m) && STLFile::load(f, t); c.step(2); MC_CHECK(c, ok, "solid-result", "failed"); TriList l = snapshot(t); std::string d = cmp(live(l), live(a)); MC_CHECK(c, d == "" && (int)l.t.size() == a.live(), "solid-triangles", d); check_saved(c, slurp(f), a); c.obs(l.hash()); }
	});
}
