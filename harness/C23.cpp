// C23: OBJ files against an independent parser; writer histories; syntax variants.
#include "common.hpp"
#include <memory>
#include "OBJFile.h"
#include "MeshFactory.h"

namespace {
struct Obj { std::vector<V> v; std::vector<std::vector<double>> col; std::vector<std::vector<int>> f, l; std::string err; };
Obj parse(const std::string& s)
{
	Obj o; std::istringstream is(s); std::string line; int n = 0; size_t fwd = 0;
	while (std::getline(is, line)) {
		n++; std::istringstream ls(line); std::string k; if (!(ls >> k) || k[0] == '#') continue;
		if (k == "v") { std::vector<double> d; std::string t; while (ls >> t) { char* e; d.push_back(strtod(t.c_str(), &e)); if (*e) o.err = S() << "line " << n << ": bad number " << t; } if (d.size() != 3 && d.size() != 4 && d.size() != 6 && d.size() != 7) o.err = S() << "line " << n << ": vertex with " << d.size() << " values"; size_t nb = d.size(); d.resize(7); o.v.push_back({ d[0],d[1],d[2] }); o.col.push_back(nb >= 6 ? std::vector<double>{ d[nb - 3],d[nb - 2],d[nb - 1] } : std::vector<double>()); }
		else if (k == "f" || k == "l") { std::vector<int> r; std::string t; while (ls >> t) { char* e; long i = strtol(t.c_str(), &e, 10); if (*e && *e != '/') o.err = S() << "line " << n << ": bad reference " << t; if (i < 0) i += (long)o.v.size() + 1; if (i < 1 || i > (long)o.v.size()) o.err = S() << "line " << n << ": reference " << t << " out of 1.." << o.v.size(); r.push_back((int)i - 1); } if (r.size() < (k == "f" ? 3u : 2u)) o.err = S() << "line " << n << ": " << r.size() << " references"; (k == "f" ? o.f : o.l).push_back(r); }
		else if (k != "vn" && k != "vt" && k != "g" && k != "o" && k != "s" && k != "usemtl" && k != "mtllib") o.err = S() << "line " << n << ": unknown statement " << k;
	}
	if (!s.empty() && s.back() != '\n') o.err = "the file does not end with a newline";
	return o;
}
bool pnear(const V& a, const V& b, double tol) { auto q = [=](double x, double y) { return std::fabs(x - y) <= tol * std::fabs(y) + 1e-300; }; return q(a.x, b.x) && q(a.y, b.y) && q(a.z, b.z); } // six printed digits
std::vector<TriList> meshes(mc::Ctx& c)
{
	std::vector<TriList> r; const V lat[] = { {0,0,0},{1.5,0,-2},{0,3,0.125},{-1,1e-3,4},{0.1,1e10,-1e-20} };
	std::vector<Tri> ts; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int d = 0; d < 5; d++) if (a != b && b != d && a != d) ts.push_back({ a,b,d });
	r.push_back(TriList()); TriList lone; lone.addv(1, 2, 3); r.push_back(lone);
	for (int k = 1; k <= 2; k++) sequences((int)ts.size(), k, [&](const std::vector<int>& q) { if (k == 2 && (q[0] * 7 + q[1]) % c.bound(3, 1)) return; for (int m = 0; m < (1 << k); m++) { TriList l; for (int i = 0; i < 5; i++) l.v.push_back(lat[(i + q[0] + m) % 5]); for (int i = 0; i < k; i++) { l.addt(ts[q[i]][0], ts[q[i]][1], ts[q[i]][2]); l.removed[i] = (m >> i) & 1; } if ((q[0] + m) % 3 == 0) l.color = (q[0] * 77 + m * 0x10203) & 0xffffff; r.push_back(l); } });
	return r;
}
std::string against(const Obj& o, const std::vector<V>& v, const std::vector<std::vector<int>>& f, const std::vector<std::vector<int>>& l, double tol = 1e-5)
{
	if (!o.err.empty()) return o.err; if (o.v.size() != v.size()) return S() << o.v.size() << " vertices, expected " << v.size(); for (size_t i = 0; i < v.size(); i++) if (!pnear(o.v[i], v[i], tol)) return S() << "vertex " << i << " is " << str(o.v[i]) << ", expected " << str(v[i]);
	if (o.f.size() != f.size() || o.l.size() != l.size()) return S() << o.f.size() << " faces " << o.l.size() << " lines, expected " << f.size() << " and " << l.size();
	for (size_t i = 0; i < f.size(); i++) if (o.f[i].size() != 3 || !same_tri({ o.f[i][0],o.f[i][1],o.f[i][2] }, { f[i][0],f[i][1],f[i][2] })) return S() << "face " << i << " refers to other vertices"; for (size_t i = 0; i < l.size(); i++) if (o.l[i] != l[i]) return S() << "line " << i << " refers to other vertices";
	return "";
}
std::vector<std::vector<int>> faces(const TriList& l, int off) { std::vector<std::vector<int>> r; for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) r.push_back({ l.t[i][0] + off,l.t[i][1] + off,l.t[i][2] + off }); return r; }
void write_file(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
void use(Mesh& m, int k) { if (k == 1) { MeshFactory::create_box(1, 2, 3, m); m.unlink_triangle(4); m.set_color(0xff); } else if (k == 2) m.add_vertex(1, 2, 3); }
}
void run(mc::Ctx& c)
{
	auto ms = meshes(c); std::string f = c.scratch + "/m.obj", g = c.scratch + "/n.obj";
	c.section("save and load", "every mesh of up to 2 triangles over 5 vertices with every removed subset and colours, over absent, shorter and longer files, into fresh and used meshes");
	for (size_t k = 0; k < ms.size(); k++) for (int pre = 0; pre < 3; pre++) c.test([&, k, pre] { return S() << dump(ms[k]) << " previous file " << pre; }, [&, k, pre] {
		::unlink(f.c_str()); if (pre == 1) write_file(f, "v 9 9 9\n"); if (pre == 2) write_file(f, std::string(3000, 'v'));
		Mesh m; build_into(ms[k], m); bool ok = OBJFile::save(f, m); c.step(); MC_CHECK(c, ok, "save-result", "save returned false"); std::string d = diff(snapshot(m), ms[k]); MC_CHECK(c, d == "", "input-modified", d);
		auto fl = faces(ms[k], 0); d = against(parse(slurp(f)), ms[k].v, fl, {}); MC_CHECK(c, d == "", "saved-file", d);
		{ Obj o = parse(slurp(f)); int col = ms[k].color; for (size_t i = 0; i < o.col.size(); i++) { bool good = col < 0 ? o.col[i].empty() : o.col[i].size() == 3; for (int ch = 0; ch < 3 && good && col >= 0; ch++) good = std::fabs(o.col[i][ch] - ((col >> (16 - 8 * ch)) & 255) / 255.) < 1e-5; MC_CHECK(c, good, "saved-colour", "colour of vertex " << i << " of a mesh of colour " << col); } }
		Mesh t; use(t, (int)(k + pre) % 3); ok = OBJFile::load(f, t); c.step(); MC_CHECK(c, ok, "load-result", "load returned false"); TriList l = snapshot(t); Obj o; o.v = l.v; o.f = faces(l, 0); d = against(o, ms[k].v, fl, {}); MC_CHECK(c, d == "" && (int)l.t.size() == l.live(), "loaded-mesh", d); c.obs(l.hash());
	});
	c.section("writer histories", "every sequence of writer operations: meshes, polylines, close and reopen on the same and on another file");
	std::vector<TriList> pick; { TriList a; a.addv(0, 0, 0); a.addv(1, 0, 0); a.addv(0, 1, 0); a.addt(0, 1, 2); pick.push_back(a); TriList b = a; b.addv(0, 0, 5); b.addt(1, 3, 2); b.addt(3, 1, 0); b.removed[0] = true; b.color = 0x102030; pick.push_back(b); TriList d; d.addv(7, 0, 1); d.addv(0, 8, 1); pick.push_back(d); TriList e = b; e.removed.assign(e.removed.size(), true); pick.push_back(e); }
	sequences(11, c.bound(4, 5), [&](const std::vector<int>& h) { c.test([&, h] { S s; s << "operations (0 mesh, 1 mesh with a removed triangle, 2 polyline of 2, 3 polyline of 4, 4 close+open same file, 5 close+open other file, 6 empty mesh, 7 closed polyline of 4 with its first point repeated, 8 polyline going forth and back, 9 mesh of two vertices and no triangle, 10 mesh with all triangles removed)"; for (int x : h) s << " " << x; return s.str(); }, [&, h] {
		::unlink(f.c_str()); ::unlink(g.c_str()); OBJWriter w; bool ok = true; std::string cur = f; w.open(cur); std::vector<V> v; std::vector<std::vector<int>> fc, ln; MC_CHECK(c, w.is_open(), "writer-open", "is_open is false");
		auto verify = [&] { std::string d = against(parse(slurp(cur)), v, fc, ln); MC_CHECK(c, d == "", "writer-file", d); };
		for (int x : h) {
			c.step(); int off = (int)v.size();
			if (x < 2 || x > 8) { const TriList& k = pick[x < 2 ? x : x - 7]; Mesh m; build_into(k, m); w.write(m); for (auto& p : k.v) v.push_back(p); for (auto& q : faces(k, off)) fc.push_back(q); }
			else if (x < 4) { std::vector<Point3> pl; std::vector<int> ids; for (int i = 0; i < (x == 2 ? 2 : 4); i++) { V p = { i * 1.5,off * 1.,x * 1. }; pl.push_back(P(p)); v.push_back(p); ids.push_back(off + i); } w.write(pl); ln.push_back(ids); }
			else if (x >= 7) { static const int C[2][5] = { {0,1,2,0,-1},{0,1,2,1,0} }; std::vector<Point3> pl; std::vector<int> ids; for (int k : C[x - 7]) { if (k < 0) continue; V p = { k * 2.,k * k * 1.,7 }; ids.push_back((int)v.size()); pl.push_back(P(p)); v.push_back(p); } w.write(pl); ln.push_back(ids); }
			else if (x == 6) { Mesh m; w.write(m); }
			else { w.close(); verify(); if (c.failed_current()) return; MC_CHECK(c, !w.is_open(), "writer-open", "still open after close"); if (x == 5) cur = cur == f ? g : f; w.open(cur); MC_CHECK(c, w.is_open(), "writer-open", "cannot be reopened"); v.clear(); fc.clear(); ln.clear(); }
		}
		w.close(); verify(); c.obs((int)v.size()); c.obs((int)fc.size() * 10 + (int)ln.size()); if (c.failed_current()) return;
		Mesh t; ok = OBJFile::load(cur, t); MC_CHECK(c, ok, "writer-load", "the written file cannot be loaded"); TriList l = snapshot(t); Obj o; o.v = l.v; o.f = faces(l, 0); std::string d = against(o, v, fc, {}); MC_CHECK(c, d == "", "writer-load", d);
	}); });
	c.section("short polylines", "every sequence of writer operations with polylines of no and one point between meshes and longer polylines: whatever is written for those, every other element refers to its own points");
	sequences(5, c.bound(5, 6), [&](const std::vector<int>& h) { c.test([&] { S s; s << "operations (0 mesh, 1 polyline of no point, 2 of one point, 3 of two points, 4 coloured mesh with a removed triangle)"; for (int x : h) s << " " << x; return s.str(); }, [&, h] {
		::unlink(f.c_str()); OBJWriter w; w.open(f); std::vector<std::array<V, 3>> F; std::vector<std::array<V, 2>> L; double z = 0;
		for (int x : h) { z++; c.step(); if (x == 0 || x == 4) { TriList l; for (int i = 0; i < 4; i++) l.addv(i + 1., i * i * 2., z); l.addt(0, 1, 2); l.addt(3, 2, 1); if (x == 4) { l.removed[0] = true; l.color = 0x4080ff; } Mesh m; build_into(l, m); w.write(m); for (size_t t = 0; t < 2; t++) if (!l.removed[t]) F.push_back({ l.v[l.t[t][0]],l.v[l.t[t][1]],l.v[l.t[t][2]] }); } else { std::vector<Point3> pl; for (int i = 0; i < x - 1; i++) pl.push_back(Point3(i + 5., 7., z)); w.write(pl); if (x == 3) L.push_back({ v(pl[0]),v(pl[1]) }); } }
		w.close(); std::string s = slurp(f), t; { std::istringstream is(s); std::string ln; while (std::getline(is, ln)) { std::istringstream q(ln); std::string a, b, e; q >> a >> b; if (a == "l" && !(q >> e)) continue; t += ln + "\n"; } } Obj o = parse(t); MC_CHECK(c, o.err.empty(), "short-polyline-file", o.err); if (c.failed_current()) return;
		auto same3 = [](const V& a, const V& b) { return len(a - b) < 1e-9; }; bool ok = o.f.size() == F.size() && o.l.size() == L.size(); for (size_t i = 0; ok && i < F.size(); i++) { ok = false; for (int r = 0; r < 3; r++) if (same3(o.v[o.f[i][r]], F[i][0]) && same3(o.v[o.f[i][(r + 1) % 3]], F[i][1]) && same3(o.v[o.f[i][(r + 2) % 3]], F[i][2])) ok = true; } for (size_t i = 0; ok && i < L.size(); i++) ok = o.l[i].size() == 2 && same3(o.v[o.l[i][0]], L[i][0]) && same3(o.v[o.l[i][1]], L[i][1]);
		MC_CHECK(c, ok, "short-polyline", "a face or line refers to points of another object, or is missing: " << t); c.obs((int)t.size());
	}); });
	c.section("locales", "meshes and polylines of fractions, powers of ten and more than a thousand vertices: the writer built, opened and used, and the file loaded, under every locale of the program: the same file and the same mesh");
	for (int a = 0; a < NB_LOCALES; a++) for (int b = 0; b < NB_LOCALES; b++) for (int d = 0; d < NB_LOCALES; d++) for (int big = 0; big < 3; big++) c.test([=] { return (S() << "locales " << a << " (construction, loading) " << b << " (opening) " << d << " (writing), mesh " << big).str(); }, [&, a, b, d, big] {
		TriList l; int n = big == 2 ? 2500 : 4; for (int i = 0; i < n; i++) l.addv(big == 1 ? 1234.5 * i * i : i * 0.25 + 0.5, big == 1 ? std::pow(10., i * 2) : i % 7 - 3.125, -1e-5 * i + i / 3); for (int i = 0; i + 2 < n; i++) l.addt(i, i + 1, i + 2); l.color = big == 1 ? 0x804020 : -1;
		Mesh m; build_into(l, m); std::vector<Point3> pl = { Point3(0.5,1000,-2.25),Point3(1e6,0.001,7) }; std::vector<V> v = l.v; for (auto& p : pl) v.push_back(::v(p)); v.insert(v.end(), l.v.begin(), l.v.end()); std::vector<std::vector<int>> fl = faces(l, 0), ln = { { n,n + 1 } }; for (auto& x : faces(l, n + 2)) fl.push_back(x);
		::unlink(f.c_str()); { std::unique_ptr<OBJWriter> w; { Loc k(a); w.reset(new OBJWriter); } { Loc k(b); w->open(f); } { Loc k(d); w->write(m); w->write(pl); w->write(m); w->close(); } } c.step(3);
		std::string e = against(parse(slurp(f)), v, fl, ln); MC_CHECK(c, e == "", "locale-file", e); if (b == 0) { ::unlink(g.c_str()); bool ok; { Loc k(d); ok = OBJFile::save(g, m); } e = against(parse(slurp(g)), l.v, faces(l, 0), {}); MC_CHECK(c, ok && e == "", "locale-save", (ok ? e : "save returned false")); } if (c.failed_current()) return;
		Mesh t; bool ok; { Loc k(a); ok = OBJFile::load(f, t); } c.step(); MC_CHECK(c, ok, "locale-load", "load returned false"); TriList q = snapshot(t); Obj o; o.v = q.v; o.f = faces(q, 0); e = against(o, v, fl, {}); MC_CHECK(c, e == "", "locale-load", e); c.obs((int)q.v.size());
	});
	c.section("large", "meshes and polylines of many vertices, with and without a colour, alone and one after another");
	for (int n : { 100,127,128,255,256,257,999,1000,1001,4095,4097,c.bound(33000,140000),c.bound(65537,1000001) }) for (int way = 0; way < 4; way++) c.test([=] { return (S() << n << " vertices, " << (way == 0 ? "saved" : way == 3 ? "saved with a colour" : way == 1 ? "written twice with a polyline between" : "as a polyline, then a triangle")).str(); }, [&, n, way] {
		::unlink(f.c_str()); TriList l; for (int i = 0; i < n; i++) l.addv(i, i % 3, -i * 0.5); for (int i = 0; i + 2 < n; i++) { l.addt(i, i + 1, i + 2); l.removed[i] = i % 31 == 30; } l.addt(n - 1, 0, n / 2); if (way == 3) l.color = n % 0xffffff;
		std::vector<V> v; std::vector<std::vector<int>> fc, ln; Mesh m; build_into(l, m); auto am = [&](const TriList& q) { for (auto& x : faces(q, (int)v.size())) fc.push_back(x); for (auto& p : q.v) v.push_back(p); };
		if (way == 0 || way == 3) { MC_CHECK(c, OBJFile::save(f, m), "save-result", "save returned false"); am(l); }
		else { OBJWriter w; w.open(f); auto poly = [&](int k) { std::vector<Point3> pl; std::vector<int> ids; for (int i = 0; i < k; i++) { V p = { 1. * i,i % 4 * 1.,3 }; ids.push_back((int)v.size()); v.push_back(p); pl.push_back(P(p)); } w.write(pl); ln.push_back(ids); };
			if (way == 1) { w.write(m); am(l); poly(3); w.write(m); am(l); } else { poly(n); w.write(build_mesh(pick[0])); am(pick[0]); } w.close(); }
		c.step(n); std::string d = against(parse(slurp(f)), v, fc, ln); MC_CHECK(c, d == "", "large-file", d); if (c.failed_current()) return;
		Mesh t; bool ok = OBJFile::load(f, t); TriList q = snapshot(t); Obj o; o.v = q.v; o.f = faces(q, 0); d = against(o, v, fc, {}); MC_CHECK(c, ok && d == "", "large-mesh", "loaded " << ok << " " << d); c.obs(n); c.obs(way);
	});
	c.section("coordinates", "every coordinate of a palette of magnitudes and signs on every axis");
	for (double a : { 0.,-0.,1.,-1.,0.1,1. / 3,123456.,1234567.,12345678.,0.0001,0.00001,1e-7,-1e-30,1e30,-1e100,1e-100,1e300,99999.95,999999.5,1e5,1e6,2147483648.,-4294967296. }) for (int ax = 0; ax < 3; ax++) c.test([=] { return (S() << "coordinate " << ax << " is " << a).str(); }, [&, a, ax] {
		TriList l; V p{ 1,2,3 }; (ax == 0 ? p.x : ax == 1 ? p.y : p.z) = a; l.v = { p,{ 0,0,1 },p,{ 5,5,5 } }; l.addt(0, 1, 3); l.addt(3, 2, 1); Mesh m; build_into(l, m); bool ok = OBJFile::save(f, m); c.step(2); MC_CHECK(c, ok, "save-result", "save returned false");
		std::string d = against(parse(slurp(f)), l.v, faces(l, 0), {}); MC_CHECK(c, d == "", "saved-file", d); Mesh t; ok = OBJFile::load(f, t); TriList q = snapshot(t); Obj o; o.v = q.v; o.f = faces(q, 0); d = against(o, l.v, faces(l, 0), {}); MC_CHECK(c, ok && d == "", "loaded-mesh", "loaded " << ok << " " << d); c.obs(a); c.obs(ax);
	});
	c.section("syntax variants", "valid triangle files: every combination of separators, reference styles, comments, extra statements, line ends, number formats and vertex/face order");
	for (int ref = 0; ref < 6; ref++) for (int sep = 0; sep < 4; sep++) for (int com = 0; com < 3; com++) for (int eol = 0; eol < 3; eol++) for (int num = 0; num < 7; num++) for (int ord = 0; ord < 2; ord++) for (int tgt = 0; tgt < 2; tgt++) c.test([&] { return S() << "references " << ref << " separators " << sep << " comments " << com << " line ends " << eol << " numbers " << num << " order " << ord << " target " << tgt; }, [&] {
		std::string E = eol == 1 ? "\r\n" : "\n", W = sep == 1 ? "  " : sep == 2 ? "\t" : " ", s; if (com) s += "# made by hand" + E + E; if (com == 2) s += "mtllib a.mtl" + E + "o thing" + E + "#v 9 9 9" + E;
		static const char* N[7][3] = { {"3.14159265358979","-0.000123456789012345","123456789.987654321"},{"1234567.875","-1.23456789e-7","2.5000000000000004"},{"16777217","-100000.001","0.30000000000000004"}, {"0","1","-2"},{"0.0","+1.5","-2.25"},{"1e0","-1.5E+1","2.5e-1"},{".5","1.","-0.125"} }; std::vector<V> v; std::vector<std::vector<int>> fc;
		auto addv = [&](int i) { V p; s += sep == 3 ? "  v" : "v"; for (int k = 0; k < 3; k++) { const char* t = N[num][(i + k) % 3]; s += W + t; (k == 0 ? p.x : k == 1 ? p.y : p.z) = strtod(t, 0); } if (com == 2 && i % 2) s += W + "1.0"; if (com == 1 && i == 1) s += W + "0.5 0.25 1"; s += (sep == 3 ? " " : "") + E; v.push_back(p); if (ref == 2 || ref == 3) s += "vn 0 0 1" + E; if (ref == 1 || ref == 3) s += "vt 0 1" + E; };
		auto addf = [&](int a, int b, int d) { s += "f"; int q[3] = { a,b,d }; for (int k = 0; k < 3; k++) { std::string i = std::to_string(q[k] + 1), ng = std::to_string(q[k] - (int)v.size()); s += W; s += ref == 0 ? i : ref == 1 ? i + "/" + i : ref == 2 ? i + "//" + i : ref == 3 ? i + "/" + i + "/" + i : ref == 4 ? ng : ng + "//" + ng; } s += (sep == 3 ? "  " : "") + E; fc.push_back({ a,b,d }); if (com) s += "# face" + E; };
		if (ord == 0) { for (int i = 0; i < 5; i++) addv(i); if (com == 2) s += "usemtl red" + E + "s off" + E + "g top" + E; addf(0, 1, 2); addf(2, 1, 3); addf(4, 3, 0); }
		else { addv(0); addv(1); addv(2); addf(0, 1, 2); addv(3); s += E; addv(4); addf(2, 1, 3); addf(4, 3, 0); }
		if (eol == 2) while (s.back() == '\n') s.pop_back(); // no newline at the end
		write_file(f, s); Mesh t; use(t, tgt); bool ok = OBJFile::load(f, t); c.step(); MC_CHECK(c, ok, "variant-result", "load returned false"); TriList l = snapshot(t); Obj o; o.v = l.v; o.f = faces(l, 0); std::string d = against(o, v, fc, {}, 1e-14); MC_CHECK(c, d == "" && (int)l.t.size() == l.live(), "variant-mesh", d); c.obs(l.hash());
	});
}
