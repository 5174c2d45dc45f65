// C20: NURBS to and from meshes and polylines.
#include "nurbs.hpp"
#include <memory>
#include "NurbsFactory.h"
#include "NurbsSolid.h"
#include "NurbsUtil.h"
#include "MeshFactory.h"

namespace {
typedef std::array<int, 4> Cell;
// the appended part of l (from v0,t0) is the regular grid of surface s with n segments per control point
void check_grid(mc::Ctx& c, const TriList& l, size_t v0, size_t t0, const SurfSpec& s, bool cu, bool cv, int n, const std::string& w, double scale = 0)
{
	int NU = n * s.nu, NV = n * s.nv; if (l.v.size() < v0 + (NU + 1) * (NV + 1) || l.t.size() < t0 + 2 * NU * NV) { c.fail(w + "-count", S() << l.v.size() - v0 << " vertices " << l.t.size() - t0 << " triangles for a grid " << NU << "x" << NV); return; }
	std::vector<V> g; for (int j = 0; j <= NV; j++) for (int i = 0; i <= NU; i++) { V e = s.eval(i / (double)NU, j / (double)NV); g.push_back(e); V q = l.v[v0 + i + (NU + 1) * j]; if (scale ? !nearx(P(q), e, scale) : !near(P(q), e)) { c.fail(w + "-vertex", S() << "vertex " << i << "," << j << " is " << str(q) << ", the surface there " << str(e)); return; } }
	// cells: every triangle lies in exactly one cell, each cell has two triangles sharing a diagonal, all with the same turning direction
	std::map<std::array<int, 2>, std::vector<Tri>> cells; auto wrapU = [&](int i) { return cu ? i % NU : i; }; auto wrapV = [&](int j) { return cv ? j % NV : j; };
	std::map<std::pair<int, int>, int> edges; int turn = 0;
	std::map<Tri, int> want[2]; // per orientation: both diagonals allowed
	auto at = [&](int i, int j) { return (int)v0 + wrapU(i) + (NU + 1) * wrapV(j); };
	std::map<Tri, int> have; for (size_t t = t0; t < t0 + 2 * NU * NV; t++) { if (l.removed[t]) { c.fail(w + "-removed", "a removed triangle"); return; } have[canon(l.t[t])]++; }
	for (int j = 0; j < NV; j++) for (int i = 0; i < NU; i++) {
		int a = at(i, j), b = at(i + 1, j), d = at(i + 1, j + 1), e = at(i, j + 1); bool ok = false;
		Tri o[4][2] = { { {a,b,d},{a,d,e} },{ {a,b,e},{b,d,e} },{ {a,d,b},{a,e,d} },{ {a,e,b},{b,e,d} } };
		for (int k = 0; k < 4; k++) { auto x = have.find(canon(o[k][0])), y = have.find(canon(o[k][1])); if (x == have.end() || y == have.end()) continue; int tn = k < 2 ? 1 : -1; if (turn && tn != turn) continue; if (NU > 2 && NV > 2 && !turn) turn = tn; ok = true; if (--x->second == 0) have.erase(x); y = have.find(canon(o[k][1])); if (y == have.end()) { ok = false; break; } if (--y->second == 0) have.erase(y); break; }
		if (!ok) { c.fail(w + "-cell", S() << "cell " << i << "," << j << " of " << NU << "x" << NV << " is not covered once with the common orientation" << (cu || cv ? " (seam joined)" : "")); return; }
	}
	MC_CHECK(c, have.empty(), w + "-extra", "triangles outside the grid");
}
struct Surf { SurfSpec s; bool cu = false, cv = false; };
std::vector<Surf> surfaces(mc::Ctx& c)
{
	std::vector<Surf> r; int P = c.bound(3, 3), M = c.bound(1, 2);
	for (int a = 1; a <= P; a++) for (int b = 1; b <= P; b++) for (int m = 0; m <= M; m++) for (int k = 0; k <= M; k++) for (int w : { 0,1,4 }) for (int cl = 0; cl < 4; cl++) {
		Surf x; x.s = make_surf(a, b, std::vector<int>(m, 1), std::vector<int>(k, 1), w % 2, w); auto& s = x.s;
		if (cl & 1) { x.cu = true; for (int j = 0; j < s.nv; j++) { s.pt[s.nu - 1 + s.nu * j] = s.pt[s.nu * j]; s.w[s.nu - 1 + s.nu * j] = s.w[s.nu * j]; } }
		if (cl & 2) { x.cv = true; for (int i = 0; i < s.nu; i++) { s.pt[i + s.nu * (s.nv - 1)] = s.pt[i]; s.w[i + s.nu * (s.nv - 1)] = s.w[i]; } }
		r.push_back(x);
	}
	return r;
}
void make(const Surf& x, NurbsSurface& n) { x.s.build(n); n.set_closed_u(x.cu); n.set_closed_v(x.cv); }
}
void run(mc::Ctx& c)
{
	auto sf = surfaces(c); int MS = c.bound(5, 9);
	c.section("surface to mesh", S() << "surfaces of every degree pair, net, weight pattern, open or closed per direction, 1.." << MS << " segments, cleared or appended");
	for (size_t k = 0; k < sf.size(); k++) for (int n = 1; n <= MS; n++) for (int mode = 0; mode < 3; mode++) { if (n > 3 && (k + n + mode) % 3 && !c.thorough()) continue; c.test([&, k, n, mode] { return S() << sf[k].s.text() << " closed " << sf[k].cu << sf[k].cv << " segments " << n << " mode " << mode; }, [&, k, n, mode] {
		NurbsSurface ns; make(sf[k], ns); Mesh m; TriList pre; if (mode) { MeshFactory::create_box(1, 2, 3, m); m.unlink_triangle(2); m.set_color(0x123456); pre = snapshot(m); }
		NurbsUtil::to_mesh(ns, m, n, mode != 2); c.step(); TriList l = snapshot(m); size_t v0 = mode == 2 ? pre.v.size() : 0, t0 = mode == 2 ? pre.t.size() : 0;
		if (mode == 2) { TriList h = l; h.v.resize(v0); h.t.resize(t0); h.removed.resize(t0); std::string d = diff(h, pre); MC_CHECK(c, d == "", "append", "appending changed the previous content: " << d); }
		check_grid(c, l, v0, t0, sf[k].s, sf[k].cu, sf[k].cv, n, "mesh"); int NU = n * sf[k].s.nu, NV = n * sf[k].s.nv; MC_CHECK(c, l.t.size() == t0 + 2 * NU * NV && l.v.size() == v0 + (NU + 1) * (NV + 1), "mesh-count", l.v.size() << " vertices " << l.t.size() << " triangles"); c.obs(l.hash());
		NurbsSurface chk; make(sf[k], chk); MC_CHECK(c, ns.points().size() == chk.points().size() && ns.weights() == chk.weights() && ns.knots_u() == chk.knots_u() && ns.is_closed_u() == chk.is_closed_u(), "input-modified", "the surface was modified");
	}); }
	c.section("solid to mesh", "every sequence of up to 3 surfaces of a set, 1 to 3 segments, on fresh and used meshes");
	std::vector<size_t> pick; for (size_t i = 0; i < sf.size(); i += sf.size() / 7 + 1) pick.push_back(i);
	for (int d = 0; d <= 3; d++) sequences((int)pick.size(), d, [&](const std::vector<int>& q) { for (int n = 1; n <= 3; n++) { c.test([&, q, n] { S s; s << "surfaces"; for (int i : q) s << " " << i; s << " segments " << n; return s.str(); }, [&, q, n] {
		NurbsSolid sol; for (int i : q) { NurbsSurface s; make(sf[pick[i]], s); sol.add_surface(s); } Mesh m; if (n == 2) MeshFactory::create_box(1, 2, 3, m); NurbsUtil::to_mesh(sol, m, n); c.step(); TriList l = snapshot(m); size_t v0 = 0, t0 = 0;
		for (int i : q) { const Surf& x = sf[pick[i]]; check_grid(c, l, v0, t0, x.s, x.cu, x.cv, n, "solid"); v0 += (n * x.s.nu + 1) * (n * x.s.nv + 1); t0 += 2 * n * x.s.nu * n * x.s.nv; if (c.failed_current()) return; }
		MC_CHECK(c, l.v.size() == v0 && l.t.size() == t0, "solid-count", l.v.size() << " vertices " << l.t.size() << " triangles, expected " << v0 << " " << t0); c.obs(l.hash());
	}); } });
	c.section("control mesh", "every surface of the set: one quad per net cell, corners from the net, consistent orientation");
	for (size_t k = 0; k < sf.size(); k++) c.test([&, k] { return sf[k].s.text(); }, [&, k] {
		NurbsSurface ns; make(sf[k], ns); Mesh m; if (k % 2) MeshFactory::create_box(1, 2, 3, m); NurbsUtil::to_controlpoints_mesh(ns, m); c.step(); TriList l = snapshot(m); auto& s = sf[k].s; MC_CHECK(c, (int)l.t.size() == 2 * (s.nu - 1) * (s.nv - 1), "control-count", l.t.size() << " triangles"); if (c.failed_current()) return;
		// each cell: two triangles covering its four corners, all cells turning alike
		typedef std::array<V, 3> T3; auto eq = [](const V& a, const V& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }; std::vector<bool> use(l.t.size(), false);
		auto find = [&](V a, V b, V d) { for (size_t t = 0; t < l.t.size(); t++) { if (use[t]) continue; V q[3] = { l.v[l.t[t][0]],l.v[l.t[t][1]],l.v[l.t[t][2]] }; for (int r = 0; r < 3; r++) if (eq(q[r], a) && eq(q[(r + 1) % 3], b) && eq(q[(r + 2) % 3], d)) return (int)t; } return -1; };
		int dir = 0;
		for (int j = 0; j + 1 < s.nv; j++) for (int i = 0; i + 1 < s.nu; i++) { V a = s.pt[i + s.nu * j], b = s.pt[i + 1 + s.nu * j], d = s.pt[i + 1 + s.nu * (j + 1)], e = s.pt[i + s.nu * (j + 1)]; V o[4][6] = { {a,b,d,a,d,e},{a,b,e,b,d,e},{a,d,b,a,e,d},{a,e,b,b,e,d} }; bool ok = false;
			for (int q = 0; q < 4 && !ok; q++) { if (dir && (q < 2 ? 1 : -1) != dir) continue; int x = find(o[q][0], o[q][1], o[q][2]); if (x < 0) continue; use[x] = true; int y = find(o[q][3], o[q][4], o[q][5]); if (y < 0) { use[x] = false; continue; } use[y] = true; ok = true; if (!sf[k].cu && !sf[k].cv) dir = q < 2 ? 1 : -1; }
			if (!ok) { c.fail("control-cell", S() << "net cell " << i << "," << j << " is not in the control mesh"); return; } }
		c.obs(l.hash());
	});
	c.section("polyline", S() << "curves of degree 1.." << 5 << ", 2.." << c.bound(40, 120) << " points: ends reached, points on the curve in order");
	for (int n = 2; n <= c.bound(40, 120); n++) for (int p = 1; p <= 5 && p < n; p++) for (int w : { 0,1,4 }) c.test([&] { return S() << n << " points degree " << p << " weights " << w; }, [&] {
		CurveSpec s; s.p = p; s.U = make_knots(p, std::vector<int>(n - p - 1, 1), 0); for (int i = 0; i < n; i++) { s.pt.push_back(some_point(i) + V{ i * 3.,0,0 }); s.w.push_back(some_weight(w, i % 8, 8)); } NurbsCurve nc; s.build(nc);
		std::vector<Point3> l(3, Point3(9, 9, 9)); nc.to_polyline(l); c.step(); MC_CHECK(c, l.size() >= 2 && near(l.front(), s.pt[0]), "polyline-start", "starts at " << (l.size() ? str(l[0]) : "nothing")); if (l.empty()) return;
		MC_CHECK(c, near(l.back(), s.pt.back()), "polyline-end", "ends at " << str(l.back()) << " and not at " << str(s.pt.back()) << " with " << l.size() << " points");
		// in order and on the curve: each point equals the curve at its regular parameter
		int N = (int)l.size() - 1; int stepk = std::max(1, N / 40); for (int i = 0; i <= N; i += stepk) { V e = s.eval(i / (double)N); if (!near(l[i], e, 1e-7)) { c.fail("polyline-point", S() << "point " << i << " of " << N << " is " << str(l[i]) << ", the curve there is " << str(e)); return; } c.obsp(l[i]); }
	});
	c.section("nothing to convert", "control nets of one row or column or none, empty solids, empty and all-removed meshes: into fresh and used outputs, then a real one, then nothing again");
	for (int u = 0; u < 4; u++) for (int k = 0; k < 5; k++) c.test([&] { return (S() << "output " << u << " input " << k).str(); }, [&] {
		Mesh m; if (u == 1) MeshFactory::create_box(1, 2, 3, m); if (u == 2) { MeshFactory::create_tetrahedron(1, m); m.unlink_triangle(1); m.set_color(5); } if (u == 3) m.add_vertex(1, 2, 3); Mesh m0 = m; NurbsSurface net, real; if (k) { int nu = k == 1 ? 1 : k == 2 ? 5 : 1, nv = k == 1 ? 5 : 1; std::vector<Point3> p; for (int i = 0; i < nu * nv; i++) p.push_back(P(some_point(i))); net.set_points(p, nu, nv); if (k == 4) net.clear(); } make_surf(1, 2, { 1 }, {}, 0, 0).build(real);
		auto none = [&](const char* w) { c.step(); c.obs(m.nb_vertices()); MC_CHECK(c, m.nb_triangles() == 0 && m.nb_vertices() == 0, "nothing", w << " leaves " << m.nb_vertices() << " vertices and " << m.nb_triangles() << " triangles"); };
		NurbsUtil::to_controlpoints_mesh(net, m); none("the control net"); NurbsUtil::to_controlpoints_mesh(real, m); MC_CHECK(c, m.nb_triangles() == 2 * (real.nb_points_u() - 1) * (real.nb_points_v() - 1), "nothing", "a net after nothing has " << m.nb_triangles() << " triangles"); NurbsUtil::to_controlpoints_mesh(net, m); none("the control net again");
		m = m0; NurbsSolid so; if (k == 2) { so.add_surface(real); so.clear(); } NurbsUtil::to_mesh(so, m, k + 1); none("an empty solid"); m = m0; NurbsSurface es; if (k == 2) { real.evaluate(0.5, 0.5, *std::make_unique<Point3>()); es = real; es.clear(); } NurbsUtil::to_mesh(es, m, k + 1); none("an empty surface");
		NurbsSolid n; if (u == 1) NurbsFactory::create_box(1, 2, 3, n); if (u == 2) n.add_surface(real); if (u == 3) NurbsFactory::create_cylinder(1, 2, n); Mesh e; if (k > 0) e.add_vertex(1, 2, 3); if (k > 1) { MeshFactory::create_tetrahedron(1, e); for (int i = 0; i < 4; i++) e.unlink_triangle(i); } NurbsUtil::create_from_mesh(e, n); c.step(); MC_CHECK(c, n.surfaces().empty(), "nothing-solid", n.surfaces().size() << " surfaces of a mesh without triangles");
		Mesh t; MeshFactory::create_tetrahedron(1, t); NurbsUtil::create_from_mesh(t, n); MC_CHECK(c, n.surfaces().size() == 4, "nothing-solid", "then " << n.surfaces().size() << " surfaces of a tetrahedron"); NurbsUtil::create_from_mesh(e, n); MC_CHECK(c, n.surfaces().empty(), "nothing-solid", "then again " << n.surfaces().size()); });
	c.section("mesh to solid", "every mesh of up to 3 triangles over 4 vertices, every removed subset, and factory meshes, into fresh and used solids");
	std::vector<TriList> ms; const V lat[4] = { {0,0,0},{2,0,1},{0,3,0},{1,1,4} }; std::vector<Tri> ts; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int d = 0; d < 4; d++) if (a != b && b != d && a != d) ts.push_back({ a,b,d });
	for (int k = 0; k <= 2; k++) sequences((int)ts.size(), k, [&](const std::vector<int>& q) { for (int r = 0; r < (1 << k); r++) { TriList l; for (auto& p : lat) l.v.push_back(p); for (int i = 0; i < k; i++) { l.addt(ts[q[i]][0], ts[q[i]][1], ts[q[i]][2]); l.removed[i] = (r >> i) & 1; } ms.push_back(l); } });
	for (int f = 0; f < 4; f++) { Mesh m; if (f == 0) MeshFactory::create_box(1, 2, 3, m); else if (f == 1) MeshFactory::create_icosahedron(2, m); else if (f == 2) MeshFactory::create_cylinder(2, 1, 12, m); else { MeshFactory::create_sphere_uv(1, 8, m); m.unlink_triangle(0); m.unlink_triangle(11); } ms.push_back(snapshot(m)); }
	for (size_t k = 0; k < ms.size(); k++) c.test([&, k] { return dump(ms[k]).substr(0, 600); }, [&, k] {
		Mesh m; build_into(ms[k], m); NurbsSolid n; if (k % 2) NurbsFactory::create_box(1, 2, 3, n); NurbsUtil::create_from_mesh(m, n); c.step(); const TriList& l = ms[k]; MC_CHECK(c, (int)n.surfaces().size() == l.live(), "from-mesh-count", n.surfaces().size() << " surfaces for " << l.live() << " live triangles"); if (c.failed_current()) return;
		size_t s = 0; for (size_t t = 0; t < l.t.size(); t++) { if (l.removed[t]) continue; const NurbsSurface& f = n.surfaces()[s++]; V a = l.v[l.t[t][0]], b = l.v[l.t[t][1]], d = l.v[l.t[t][2]]; V nn = cross(b - a, d - a); Mesh fm; NurbsUtil::to_mesh(f, fm, 2); TriList fl = snapshot(fm); V sum; for (size_t i = 0; i < fl.t.size(); i++) { V x = cross(fl.v[fl.t[i][1]] - fl.v[fl.t[i][0]], fl.v[fl.t[i][2]] - fl.v[fl.t[i][0]]); sum = sum + x; }
			MC_CHECK(c, near(P(sum), nn), "from-mesh-patch", "the patch of triangle " << t << " spans the vector area " << str(sum) << ", the triangle " << str(nn));
			double lo[3] = { 1,1,1 }; for (auto& q : fl.v) { V x = q - a, e1 = b - a, e2 = d - a; double d00 = dot(e1, e1), d01 = dot(e1, e2), d11 = dot(e2, e2), D = d00 * d11 - d01 * d01, uu = (d11 * dot(x, e1) - d01 * dot(x, e2)) / D, vv = (d00 * dot(x, e2) - d01 * dot(x, e1)) / D; MC_CHECK(c, uu > -1e-9 && vv > -1e-9 && uu + vv < 1 + 1e-9 && len(e1 * uu + e2 * vv - x) < 1e-9 * (1 + len(x)), "from-mesh-patch", "point " << str(q) << " is outside of triangle " << t); c.obsp(P(q)); } }
	});
	c.section("flat triangles", "every triangle over 5 vertices with repeated and collinear corners allowed, in pairs, every removed subset: one patch each, with the triangle's corners");
	{ const V fl[5] = { {0,0,0},{2,0,1},{4,0,2},{0,3,0},{2,0,1} }; std::vector<Tri> all; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int d = 0; d < 5; d++) all.push_back({ a,b,d });
	sequences((int)all.size(), 2, [&](const std::vector<int>& q) { if (!c.thorough() && (q[0] * 3 + q[1]) % 5) return; for (int r = 0; r < 4; r++) c.test([&] { return S() << "triangles " << all[q[0]][0] << all[q[0]][1] << all[q[0]][2] << " " << all[q[1]][0] << all[q[1]][1] << all[q[1]][2] << " removed " << r; }, [&] {
		TriList l; for (auto& p : fl) l.v.push_back(p); for (int i = 0; i < 2; i++) { l.addt(all[q[i]][0], all[q[i]][1], all[q[i]][2]); l.removed[i] = (r >> i) & 1; } Mesh m; build_into(l, m); NurbsSolid n; NurbsUtil::create_from_mesh(m, n); c.step(); MC_CHECK(c, (int)n.surfaces().size() == l.live(), "flat-count", n.surfaces().size() << " surfaces for " << l.live() << " live triangles"); if (c.failed_current()) return;
		size_t s = 0; for (size_t t = 0; t < 2; t++) { if (l.removed[t]) continue; const NurbsSurface& f = n.surfaces()[s++]; std::vector<V> got; for (int k = 0; k < 4; k++) { Point3 p; f.evaluate(k & 1, k >> 1, p); got.push_back(v(p)); c.obsp(p); } V x[3] = { l.v[l.t[t][0]],l.v[l.t[t][1]],l.v[l.t[t][2]] }; for (auto& y : x) { bool in = false; for (auto& z : got) in |= len(z - y) < 1e-9; MC_CHECK(c, in, "flat-corner", "corner " << str(y) << " of triangle " << t << " is not a corner of its patch"); } for (auto& z : got) { bool in = false; for (auto& y : x) in |= len(z - y) < 1e-9; MC_CHECK(c, in, "flat-corner", str(z) << " is no corner of triangle " << t); } }
	}); }); }
	// a big net of degree 1 or 2, long in one direction
	auto net = [&](int nu, int nv, int p, bool cu, bool cv) { Surf x; x.cu = cu; x.cv = cv; auto& s = x.s; s.pu = std::min(p, nu - 1); s.pv = std::min(p, nv - 1); s.nu = nu; s.nv = nv; s.U = make_knots(s.pu, std::vector<int>(nu - s.pu - 1, 1), 0); s.W_ = make_knots(s.pv, std::vector<int>(nv - s.pv - 1, 1), 0); for (int j = 0; j < nv; j++) for (int i = 0; i < nu; i++) { s.pt.push_back({ i * 2.,j * 3.,(double)((i * 7 + j * 5) % 11) }); s.w.push_back(1 + (i + j) % 3); }
		if (cu) for (int j = 0; j < nv; j++) { s.pt[nu - 1 + nu * j] = s.pt[nu * j]; s.w[nu - 1 + nu * j] = s.w[nu * j]; } if (cv) for (int i = 0; i < nu; i++) { s.pt[i + nu * (nv - 1)] = s.pt[i]; s.w[i + nu * (nv - 1)] = s.w[i]; } s.U = std::vector<double>(s.U); double e = s.U.back(); for (auto& q : s.U) q /= e; e = s.W_.back(); for (auto& q : s.W_) q /= e; return x; };
	c.section("large nets", "nets of 2 or 3 by every size of a ladder in both orders, degree 1 and 2, open or closed, one and two segments, appended to a small mesh");
	for (int N : ladder(2, c.bound(256, 2048))) for (int o : { 2,3 }) for (int tr = 0; tr < 2; tr++) for (int p = 1; p <= 2; p++) for (int cl = 0; cl < 4; cl++) c.test([&] { return (S() << "net " << (tr ? o : N) << "x" << (tr ? N : o) << " degree " << p << " closed " << cl).str(); }, [&] {
		Surf x = net(tr ? o : N, tr ? N : o, p, cl & 1, cl & 2); NurbsSurface ns; make(x, ns); int n = N <= 64 && p == 1 ? 2 : 1; Mesh m; m.add_vertex(1, 2, 3); m.add_vertex(2, 2, 3); m.add_vertex(2, 3, 3); m.add_triangle(0, 1, 2); TriList pre = snapshot(m); NurbsUtil::to_mesh(ns, m, n, false); c.step(); TriList l = snapshot(m);
		check_grid(c, l, 3, 1, x.s, x.cu, x.cv, n, "large", 10. * N); TriList h = l; h.v.resize(3); h.t.resize(1); h.removed.resize(1); MC_CHECK(c, diff(h, pre) == "", "append", "the previous content changed"); MC_CHECK(c, (int)l.t.size() == 1 + 2 * n * n * x.s.nu * x.s.nv && (int)l.v.size() == 3 + (n * x.s.nu + 1) * (n * x.s.nv + 1), "large-count", l.v.size() << " vertices " << l.t.size() << " triangles"); c.obs(l.hash());
		if (p == 1 && cl == 0) { Mesh q; NurbsUtil::to_controlpoints_mesh(ns, q); c.step(); TriList g = snapshot(q); MC_CHECK(c, (int)g.t.size() == 2 * (x.s.nu - 1) * (x.s.nv - 1), "control-large", g.t.size() << " triangles"); std::map<std::array<double, 3>, int> id; for (size_t i = 0; i < x.s.pt.size(); i++) id[{ x.s.pt[i].x, x.s.pt[i].y, x.s.pt[i].z }] = (int)i; std::map<std::pair<int, int>, double> cell; int sg = 0;
			for (auto& t : g.t) { int v[3]; for (int k = 0; k < 3; k++) { auto it = id.find({ g.v[t[k]].x, g.v[t[k]].y, g.v[t[k]].z }); if (it == id.end()) { c.fail("control-large", "a corner is not in the net"); return; } v[k] = it->second; } int a = x.s.nu, i0 = std::min({ v[0] % a,v[1] % a,v[2] % a }), j0 = std::min({ v[0] / a,v[1] / a,v[2] / a }); double ar = ((v[1] % a - v[0] % a) * (v[2] / a - v[0] / a) - (v[2] % a - v[0] % a) * (v[1] / a - v[0] / a)) / 2.; if (std::fabs(ar) != 0.5 || (sg && (ar > 0 ? 1 : -1) != sg)) { c.fail("control-large", S() << "a triangle does not halve a cell, or is turned over, near cell " << i0 << "," << j0); return; } sg = ar > 0 ? 1 : -1; cell[{ i0,j0 }] += std::fabs(ar); }
			for (auto& e : cell) MC_CHECK(c, e.second == 1, "control-large", "cell " << e.first.first << "," << e.first.second << " covered " << e.second << " times"); }
	});
	c.section("many segments", "small nets with every number of segments of a ladder");
	for (int n : ladder(1, c.bound(64, 256))) for (int cl = 0; cl < 4; cl++) for (int p = 1; p <= 2; p++) c.test([&] { return (S() << n << " segments closed " << cl << " degree " << p).str(); }, [&] {
		Surf x = net(3, 4, p, cl & 1, cl & 2); NurbsSurface ns; make(x, ns); Mesh m; NurbsUtil::to_mesh(ns, m, n); c.step(); TriList l = snapshot(m); check_grid(c, l, 0, 0, x.s, x.cu, x.cv, n, "segments", 100); MC_CHECK(c, (int)l.t.size() == 24 * n * n && (int)l.v.size() == (3 * n + 1) * (4 * n + 1), "segments-count", l.v.size() << " vertices " << l.t.size() << " triangles"); c.obs(l.hash());
	});
	c.section("magnitudes", "surfaces, curves and meshes of every power of two of size");
	for (int k = -100; k <= 100; k += c.bound(4, 1)) c.test([&] { return (S() << "size 2^" << k).str(); }, [&] {
		double f = std::ldexp(1., k); for (size_t i = 0; i < sf.size(); i += 41) { Surf x = sf[i]; for (auto& q : x.s.pt) q = q * f; NurbsSurface ns; make(x, ns); Mesh m; NurbsUtil::to_mesh(ns, m, 2); c.step(); TriList l = snapshot(m); check_grid(c, l, 0, 0, x.s, x.cu, x.cv, 2, "magnitude", 4 * maxc(x.s.pt)); MC_CHECK(c, (int)l.t.size() == 8 * x.s.nu * x.s.nv, "magnitude-count", l.t.size() << " triangles"); c.obs(l.hash());
			Mesh q; NurbsUtil::to_controlpoints_mesh(ns, q); TriList g = snapshot(q); MC_CHECK(c, (int)g.t.size() == 2 * (x.s.nu - 1) * (x.s.nv - 1), "control-count", g.t.size() << " triangles"); double a = 0, b = 0; for (auto& t : g.t) a += len(cross(g.v[t[1]] - g.v[t[0]], g.v[t[2]] - g.v[t[0]])) / 2 / f / f; auto& s = sf[i].s; double b2 = 0; for (int j = 0; j + 1 < s.nv; j++) for (int u = 0; u + 1 < s.nu; u++) { V p = s.pt[u + s.nu * j], r = s.pt[u + 1 + s.nu * j], d = s.pt[u + 1 + s.nu * (j + 1)], e = s.pt[u + s.nu * (j + 1)]; double A = len(cross(r - p, d - p)) / 2 + len(cross(d - p, e - p)) / 2, B = len(cross(r - p, e - p)) / 2 + len(cross(d - r, e - r)) / 2; b += std::min(A, B); b2 += std::max(A, B); } MC_CHECK(c, a >= b * (1 - 1e-9) && a <= b2 * (1 + 1e-9), "control-area", "area " << a << " of the net in units of the size, cells between " << b << " and " << b2); }
		for (int n : { 2,3,5,9,30 }) for (int p = 1; p <= 3 && p < n; p++) { CurveSpec s; s.p = p; s.U = make_knots(p, std::vector<int>(n - p - 1, 1), 0); for (int i = 0; i < n; i++) { s.pt.push_back((some_point(i) + V{ i * 3.,0,0 }) * f); s.w.push_back(some_weight(4, i % 8, 8)); } NurbsCurve nc; s.build(nc); std::vector<Point3> l; nc.to_polyline(l); c.step(); MC_CHECK(c, l.size() >= 2, "polyline-magnitude", "has " << l.size() << " points"); if (l.size() < 2) return; int N = (int)l.size() - 1; for (int i = 0; i <= N; i++) { V e = s.eval(i / (double)N); if (!nearx(l[i], e, 3 * maxc(s.pt), 1e-8)) { c.fail("polyline-magnitude", S() << "point " << i << " of " << N << " is " << str(l[i]) << ", the curve there is " << str(e)); return; } } }
		for (size_t i = 0; i < ms.size(); i += ms.size() / 40) { TriList l = ms[i]; for (auto& p : l.v) p = p * f; Mesh m; build_into(l, m); NurbsSolid n; NurbsUtil::create_from_mesh(m, n); c.step(); MC_CHECK(c, (int)n.surfaces().size() == l.live(), "from-mesh-count", n.surfaces().size() << " surfaces for " << l.live() << " live triangles"); if (c.failed_current()) return; size_t s = 0; for (size_t t = 0; t < l.t.size(); t++) { if (l.removed[t]) continue; const NurbsSurface& q = n.surfaces()[s++]; V x[3] = { l.v[l.t[t][0]],l.v[l.t[t][1]],l.v[l.t[t][2]] }; Point3 p; V ex[4] = { x[0],x[1],x[2],x[2] }; double uv[4][2] = { {0,0},{1,0},{1,1},{0,1} }; std::vector<V> got; for (int k = 0; k < 4; k++) { q.evaluate(uv[k][0], uv[k][1], p); got.push_back(v(p)); } for (int k = 0; k < 3; k++) { bool in = false; for (auto& z : got) in |= len(z - x[k]) < 1e-9 * 10 * f; MC_CHECK(c, in, "from-mesh-corner", "corner " << str(x[k]) << " of triangle " << t << " is not a corner of its patch"); } for (auto& z : got) { bool in = false; for (auto& y : x) in |= len(z - y) < 1e-8 * f; MC_CHECK(c, in, "from-mesh-corner", str(z) << " is no corner of triangle " << t); } } }
	});
	c.section("many objects", "solids of many surfaces, polylines of curves with many points, solids from meshes of many triangles, sizes of a ladder");
	for (int n : ladder(0, c.bound(256, 2048))) c.test([&] { return (S() << "solid of " << n << " surfaces").str(); }, [&] {
		NurbsSolid so; std::vector<const Surf*> q; for (int i = 0; i < n; i++) { const Surf& x = sf[i * 5 % 97]; q.push_back(&x); NurbsSurface s; make(x, s); so.add_surface(s); } Mesh m; NurbsUtil::to_mesh(so, m, 1); c.step(); TriList l = snapshot(m); size_t v0 = 0, t0 = 0; for (auto x : q) { check_grid(c, l, v0, t0, x->s, x->cu, x->cv, 1, "solid"); v0 += (x->s.nu + 1) * (x->s.nv + 1); t0 += 2 * x->s.nu * x->s.nv; if (c.failed_current()) return; } MC_CHECK(c, l.v.size() == v0 && l.t.size() == t0, "solid-count", l.v.size() << " vertices " << l.t.size() << " triangles, expected " << v0 << " " << t0); c.obs(l.hash());
	});
	for (int n : ladder(3, c.bound(1024, 8192))) for (int p = 1; p <= 3 && p < n; p++) c.test([&] { return (S() << "polyline of " << n << " points degree " << p).str(); }, [&] {
		CurveSpec s; s.p = p; s.U = make_knots(p, std::vector<int>(n - p - 1, 1), 0); for (int i = 0; i < n; i++) { s.pt.push_back(some_point(i) + V{ i * 3.,0,0 }); s.w.push_back(1 + i % 3); } NurbsCurve nc; s.build(nc); std::vector<Point3> l; nc.to_polyline(l); c.step(); if (l.size() < 2) { c.fail("polyline-large", "too short"); return; } int N = (int)l.size() - 1; MC_CHECK(c, nearx(l[0], s.pt[0], 4. * n) && nearx(l[N], s.pt.back(), 4. * n), "polyline-large", "from " << str(l[0]) << " to " << str(l[N])); int st = std::max(1, N / 60); for (int i = 0; i <= N; i += st) { V e = s.eval(i / (double)N); if (!nearx(l[i], e, 10. * n, 1e-8)) { c.fail("polyline-large", S() << "point " << i << " of " << N << " is " << str(l[i]) << ", the curve there is " << str(e)); return; } c.obsp(l[i]); }
	});
	for (int n : ladder(1, c.bound(4096, 65536))) c.test([&] { return (S() << "mesh of " << n << " triangles").str(); }, [&] {
		Mesh m; for (int i = 0; i < n + 2; i++) m.add_vertex(i, i % 2 * 2, i % 5); for (int i = 0; i < n; i++) { m.add_triangle(i, i + 1, i + 2); if (i % 4 == 2) m.unlink_triangle(i); } NurbsSolid s; NurbsUtil::create_from_mesh(m, s); c.step(); TriList l = snapshot(m); MC_CHECK(c, (int)s.surfaces().size() == l.live(), "from-mesh-count", s.surfaces().size() << " surfaces for " << l.live() << " live triangles"); if (c.failed_current()) return; size_t k = 0; for (int t = 0; t < n; t++) { if (l.removed[t]) continue; Point3 p; s.surfaces()[k++].evaluate(0.25, 0.5, p); V a = l.v[l.t[t][0]]; if (!(p.x() >= a.x - 1e-6 && p.x() <= a.x + 2 + 1e-6)) { c.fail("from-mesh-order", S() << "the patch of triangle " << t << " is elsewhere: " << str(p)); return; } } c.obs((int)k);
	});
}
