// C21: Bezier triangles and smooth meshes against the Bernstein definition and the regular barycentric grid.
#include "common.hpp"
#include "QuadBezierTriangle.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include "MeshFactory.h"
#include "MeshTessellate.h"
#include "BezierUtil.h"
#include <functional>

namespace {
const V SP[] = { {0,0,0},{4,0,1},{1,3,-1},{2,-1,2},{0.5,1.5,3},{3,2,-2},{-1,0.5,1},{0,2,2} };
struct Spec { V p[3], k[3]; double w[6] = { 1,1,1,1,1,1 }; bool flat = true, weighted = false;
	V eval(double s, double u) const { double v = 1 - s - u, b[6] = { s * s * w[0],u * u * w[1],v * v * w[2],2 * s * u * w[3],2 * s * v * w[4],2 * u * v * w[5] }, t = 0; V r; for (int i = 0; i < 6; i++) { t += b[i]; r = r + (i < 3 ? p[i] : k[i - 3]) * b[i]; } return r * (1 / t); }
	void build(QuadBezierTriangle& q) const { q.set_points(P(p[0]), P(p[1]), P(p[2])); if (!flat) q.set_control_points(P(k[0]), P(k[1]), P(k[2])); if (weighted) q.set_weights(w[0], w[1], w[2], w[3], w[4], w[5]); }
};
Spec make(int a, int b, int d, int ctrl, int wp)
{
	Spec s; s.p[0] = SP[a]; s.p[1] = SP[b]; s.p[2] = SP[d]; s.k[0] = (s.p[0] + s.p[1]) * 0.5; s.k[1] = (s.p[0] + s.p[2]) * 0.5; s.k[2] = (s.p[1] + s.p[2]) * 0.5;
	if (ctrl) { s.flat = false; for (int i = 0; i < 3; i++) s.k[i] = ctrl == 4 ? SP[3 + i] : i == ctrl - 1 ? s.k[i] + V{ 0.25,-0.5,1.5 } : s.k[i]; }
	if (wp) { s.weighted = true; static const double W[5][6] = { {1,1,1,0.7,0.7,0.7},{2,1,1,1,1,1},{1,3,0.5,1,1,1},{1,1,1,0.2,1,5},{0.5,2,4,0.25,3,1.5} }; for (int i = 0; i < 6; i++) s.w[i] = W[wp - 1][i]; }
	return s;
}
typedef std::array<int, 2> G; typedef std::array<G, 3> GT;
GT gcanon(GT t) { GT r = t; for (int i = 0; i < 2; i++) { t = { t[1],t[2],t[0] }; if (t < r) r = t; } return r; }
// the live triangles of m from index t0 on are the grid triangles of f (f injective on the grid)
void check_grid(mc::Ctx& c, const TriList& l, size_t t0, size_t t1, int n, const std::function<V(double, double)>& f, const std::string& w, double scale = 0)
{
	MC_CHECK(c, (int)(t1 - t0) == n * n, w + "-count", t1 - t0 << " triangles for n=" << n);
	std::vector<V> g; std::vector<G> id; double size = 0; for (int i = 0; i <= n; i++) for (int j = 0; i + j <= n; j++) { id.push_back({ i,j }); g.push_back(f(i / (double)n, j / (double)n)); size = std::max(size, len(g.back() - g[0])); }
	std::map<GT, int> have;
	for (size_t t = t0; t < t1 && t < l.t.size(); t++) {
		if (l.removed[t]) { c.fail(w + "-removed", "a produced triangle is marked removed"); return; }
		GT k; for (int q = 0; q < 3; q++) { V p = l.v[l.t[t][q]]; int best = -1; for (size_t i = 0; i < g.size(); i++) if (len(g[i] - p) <= 1e-9 * (scale ? scale : 1 + size)) { best = (int)i; break; } if (best < 0) { c.fail(w + "-grid", S() << "corner " << str(p) << " is not on the evaluated grid"); return; } k[q] = id[best]; }
		have[gcanon(k)]++;
	}
	// corners P1 (s=1), P2 (u=1), P3: oriented like P1,P2,P3
	for (int i = 0; i < n; i++) for (int j = 0; i + j < n; j++) { have[gcanon({ G{i + 1,j},G{i,j + 1},G{i,j} })]--; if (i + j + 1 < n) have[gcanon({ G{i + 1,j + 1},G{i,j + 1},G{i + 1,j} })]--; }
	for (auto& e : have) if (e.second) { GT k = e.first; c.fail(w + "-cover", S() << "n=" << n << " grid triangle (" << k[0][0] << "," << k[0][1] << ")(" << k[1][0] << "," << k[1][1] << ")(" << k[2][0] << "," << k[2][1] << ") is " << (e.second > 0 ? "unexpected or repeated or reversed" : "missing")); return; }
}
}
void run(mc::Ctx& c)
{
	c.section("bernstein", "every Bernstein polynomial of degree 1 to 3 on a parameter grid, partition of unity included");
	for (int i = -20; i <= 60; i++) c.test([&] { return (S() << "u=" << i / 40.).str(); }, [&] {
		double u = i / 40., v = 1 - u; using namespace BezierUtil; c.step(11);
		double e[9] = { v,u,v * v,2 * u * v,u * u,v * v * v,3 * u * v * v,3 * u * u * v,u * u * u }, g[9] = { Bernstein01(u),Bernstein11(u),Bernstein02(u),Bernstein12(u),Bernstein22(u),Bernstein03(u),Bernstein13(u),Bernstein23(u),Bernstein33(u) };
		for (int k = 0; k < 9; k++) { MC_CHECK(c, near(g[k], e[k], 1e-14), "bernstein", "polynomial " << k << " is " << g[k] << ", expected " << e[k]); c.obs(g[k]); }
		MC_CHECK(c, near(square(u), u * u, 1e-15) && near(cubic(u), u * u * u, 1e-15), "powers", "square or cube");
	});
	c.section("outside", "parameters outside the triangle, up to eight times its size, the third one given or not, control and weight patterns: the same combination");
	for (int a = 0; a < 3; a++) for (int ctrl = 0; ctrl < 5; ctrl++) for (int wp = 0; wp < 6; wp++) c.test([&] { return (S() << "corners " << a << " controls " << ctrl << " weights " << wp).str(); }, [&] {
		Spec s = make(a, (a + 1) % 3, (a + 2) % 3 + 3, ctrl, wp); QuadBezierTriangle q; s.build(q);
		for (int i = -64; i <= 64; i++) for (int j = -64; j <= 64; j++) { double x = i / 8., y = j / 8., z = 1 - x - y, t = x * x * s.w[0] + y * y * s.w[1] + z * z * s.w[2] + 2 * x * y * s.w[3] + 2 * x * z * s.w[4] + 2 * y * z * s.w[5]; if (std::fabs(t) < 0.25) continue;
			Point3 r = q.eval(x, y), r2 = q.eval(x, y, z); c.step(2); V e = s.eval(x, y); double tol = 1e-9 * (1 + len(e)) * (1 + x * x + y * y); if (!(len(v(r) - e) <= tol && len(v(r2) - e) <= tol)) { c.fail("eval", S() << "at " << x << "," << y << ": " << str(r) << " or " << str(r2) << ", expected " << str(e)); return; } c.obsp(r); }
	});
	c.section("collapsed", "patches with equal corners in every pattern (all control and weight patterns), every segment count: still every triangle of the grid, each once, turned the same way");
	for (int eqp = 0; eqp < 5; eqp++) for (int ctrl = 0; ctrl < 5; ctrl++) for (int wp = 0; wp < 6; wp++) c.test([&] { return (S() << "equality pattern " << eqp << " controls " << ctrl << " weights " << wp).str(); }, [&] {
		static const int EQ[5][3] = { {0,0,1},{0,1,0},{1,0,0},{2,2,2},{0,1,2} }; Spec s = make(EQ[eqp][0], EQ[eqp][1], EQ[eqp][2], ctrl, wp); QuadBezierTriangle q; s.build(q);
		for (int n = 1; n <= c.bound(7, 12); n++) {
			Mesh m; q.add_to_mesh(m, n); TriList l = snapshot(m); c.step(); if ((int)l.t.size() != n * n) { c.fail("collapsed-count", S() << l.t.size() << " triangles for n=" << n); return; }
			std::vector<std::array<V, 3>> want; auto g = [&](int i, int j) { return s.eval(i / (double)n, j / (double)n); };
			for (int i = 0; i < n; i++) for (int j = 0; i + j < n; j++) { want.push_back({ g(i + 1, j),g(i, j + 1),g(i, j) }); if (i + j + 1 < n) want.push_back({ g(i + 1, j + 1),g(i, j + 1),g(i + 1, j) }); }
			for (size_t t = 0; t < l.t.size(); t++) { V p[3]; for (int k = 0; k < 3; k++) p[k] = l.v[l.t[t][k]]; bool ok = !l.removed[t]; size_t w = 0; if (ok) { ok = false; for (; w < want.size() && !ok; w++) for (int r = 0; r < 3 && !ok; r++) ok = len(p[r] - want[w][0]) < 1e-9 && len(p[(r + 1) % 3] - want[w][1]) < 1e-9 && len(p[(r + 2) % 3] - want[w][2]) < 1e-9; }
				if (!ok) { c.fail("collapsed-cover", S() << "n=" << n << " triangle " << (int)t << " " << str(p[0]) << str(p[1]) << str(p[2]) << " is not one of the grid, or the second of its kind, or removed"); return; } want.erase(want.begin() + (w - 1)); }
			c.obs(n);
		}
	});
	c.section("patches", "control and weight patterns, every barycentric parameter of a grid, every segment count");
	int N = c.bound(9, 20);
	for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int d = 0; d < 8; d++) for (int ctrl = 0; ctrl < 5; ctrl++) for (int wp = 0; wp < 6; wp++) {
		if (a == b || d == a || d == b || (d > 2 && (a > b))) continue;
		c.test([&] { return (S() << "corners " << a << "," << b << "," << d << " controls " << ctrl << " weights " << wp).str(); }, [&] {
			Spec s = make(a, b, d, ctrl, wp); QuadBezierTriangle q; s.build(q);
			for (int i = 0; i <= 12; i++) for (int j = 0; i + j <= 12; j++) {
				double x = i / 12., y = j / 12.; Point3 r = q.eval(x, y), r2 = q.eval(x, y, (12 - i - j) / 12.); c.step(2); V e = s.eval(x, y);
				if (!near(r, e) || !near(r2, e)) { c.fail("eval", S() << "at " << x << "," << y << ": " << str(r) << " or " << str(r2) << ", expected " << str(e)); return; } c.obsp(r);
			}
			MC_CHECK(c, near(q.eval(1, 0), s.p[0]) && near(q.eval(0, 1), s.p[1]) && near(q.eval(0, 0), s.p[2]), "corners", "the corners are not interpolated");
			if (ctrl == 0 && wp == 0) for (int i = 0; i <= 4; i++) for (int j = 0; i + j <= 4; j++) MC_CHECK(c, near(q.eval(i / 4., j / 4.), s.p[0] * (i / 4.) + s.p[1] * (j / 4.) + s.p[2] * (1 - (i + j) / 4.)), "flat", "default controls are not flat");
			for (int n = 1; n <= N; n++) {
				Mesh m; int pre = n % 3; for (int k = 0; k < pre; k++) m.add_vertex(50 + k, 0, 0); if (pre == 2) m.add_triangle(0, 1, 0); TriList before = snapshot(m); q.add_to_mesh(m, n); c.step(); TriList l = snapshot(m);
				for (size_t k = 0; k < before.v.size(); k++) MC_CHECK(c, same(P(l.v[k]), P(before.v[k])), "append", "previous vertices changed"); if (before.t.size()) MC_CHECK(c, l.t.size() > 1 && l.t[0] == before.t[0], "append", "previous triangles changed");
				check_grid(c, l, before.t.size(), l.t.size(), n, [&](double x, double y) { return s.eval(x, y); }, "tessellation"); if (c.failed_current()) return;
			}
		});
	}
	c.section("weight tuples", "every assignment of three weights (four when thorough) to the six control points, flat and curved, evaluated over a grid");
	sequences(c.bound(3, 4), 6, [&](const std::vector<int>& q) { for (int ctrl : { 0,4 }) c.test([&] { static const double WV[4] = { 1,0.5,2,1.5 }; S s; s << (ctrl ? "curved" : "flat") << " weights"; for (int k : q) s << " " << WV[k]; return s.str(); }, [&] {
		static const double WV[4] = { 1,0.5,2,1.5 }; Spec s = make(0, 1, 2, ctrl, 0); s.weighted = true; for (int i = 0; i < 6; i++) s.w[i] = WV[q[i]]; QuadBezierTriangle t; s.build(t);
		for (int i = 0; i <= 6; i++) for (int j = 0; i + j <= 6; j++) { Point3 r = t.eval(i / 6., j / 6.), r2 = t.eval(i / 6., j / 6., (6 - i - j) / 6.); c.step(2); V e = s.eval(i / 6., j / 6.); c.obsp(r); if (!near(r, e) || !near(r2, e)) { c.fail("weight-tuple", S() << "at " << i / 6. << "," << j / 6. << ": " << str(r) << " or " << str(r2) << ", expected " << str(e)); return; } }
		Mesh m; t.add_to_mesh(m, 3); c.step(); TriList l = snapshot(m); check_grid(c, l, 0, l.t.size(), 3, [&](double x, double y) { return s.eval(x, y); }, "weight-tuple"); });
	});
	c.section("default patches", "patches built without arguments over memory filled with each of five patterns: every weight is one; given corners only, they are flat");
	for (int f : MEMORY) c.test([&] { return (S() << "memory filled with " << f).str(); }, [&] {
		Over<QuadBezierTriangle> a(f); a->set_points(Point3(1, 0, 0), Point3(0, 2, 0), Point3(0, 0, 4)); for (int i = 0; i <= 8; i++) for (int j = 0; i + j <= 8; j++) { Point3 p = a->eval(i / 8., j / 8.); double u = i / 8., v = j / 8.; c.step(); bool ok = false; double s = 1 - u - v; const double q[3] = { u,v,s }; ok = near(p.x(), q[0]) && near(p.y(), 2 * q[1]) && near(p.z(), 4 * q[2]); MC_CHECK(c, ok, "default-weights", "at " << u << "," << v << " it is " << str(p)); c.obsp(p); }
	});
	c.section("reconfiguring", "every sequence of setters on one patch equals a fresh patch");
	sequences(6, c.bound(4, 5), [&](const std::vector<int>& h) {
		c.test([&] { S s; s << "setters (0-1 points, 2-3 controls, 4-5 weights)"; for (int x : h) s << " " << x; return s.str(); }, [&] {
			QuadBezierTriangle q; Spec s = make(0, 1, 2, 0, 0); q.set_points(P(s.p[0]), P(s.p[1]), P(s.p[2]));
			for (int x : h) {
				if (x < 2) { for (int k = 0; k < 3; k++) s.p[k] = SP[x * 3 + (k + x) % 3]; s.k[0] = (s.p[0] + s.p[1]) * 0.5; s.k[1] = (s.p[0] + s.p[2]) * 0.5; s.k[2] = (s.p[1] + s.p[2]) * 0.5; q.set_points(P(s.p[0]), P(s.p[1]), P(s.p[2])); }
				else if (x < 4) { for (int k = 0; k < 3; k++) s.k[k] = SP[(k + x * 2) % 8]; q.set_control_points(P(s.k[0]), P(s.k[1]), P(s.k[2])); }
				else { for (int k = 0; k < 6; k++) s.w[k] = x == 4 ? 1 : 0.5 + (k * 5 % 7) * 0.5; q.set_weights(s.w[0], s.w[1], s.w[2], s.w[3], s.w[4], s.w[5]); }
				QuadBezierTriangle cp = q; c.step();
				for (int i = 0; i <= 4; i++) for (int j = 0; i + j <= 4; j++) { MC_CHECK(c, near(cp.eval(i / 4., j / 4.), s.eval(i / 4., j / 4.)), "history", "after the sequence, at " << i / 4. << "," << j / 4.); c.obsp(cp.eval(i / 4., j / 4.)); }
			}
		});
	});
	c.section("smooth mesh histories", "every sequence of add, append, copy, assign, clear: triangles kept in order");
	sequences(8, c.bound(4, 5), [&](const std::vector<int>& h) {
		c.test([&] { S s; s << "operations (0 add flat, 1 add quad, 2 add pentagon, 3 append other, 4 append itself, 5 copy, 6 clear, 7 swap roles)"; for (int x : h) s << " " << x; return s.str(); }, [&] {
			SmoothMesh m[2]; std::vector<std::array<V, 3>> l[2]; int cur = 0, seq = 0;
			for (int x : h) {
				SmoothMesh& a = m[cur], & b = m[1 - cur]; auto& la = l[cur]; auto& lb = l[1 - cur]; V o = { seq * 1.,seq * 2.,0 }; seq++; V p[5]; for (int k = 0; k < 5; k++) p[k] = SP[k] + o;
				if (x == 0) { a.add_flat_triangle(P(p[0]), P(p[1]), P(p[2])); la.push_back({ p[0],p[1],p[2] }); }
				else if (x == 1) { a.add_flat_quad(P(p[0]), P(p[1]), P(p[2]), P(p[3])); la.push_back({ p[0],p[1],p[2] }); la.push_back({ p[0],p[2],p[3] }); }
				else if (x == 2) { a.add_flat_pentagon(P(p[0]), P(p[1]), P(p[2]), P(p[3]), P(p[4])); la.push_back({ p[0],p[1],p[2] }); la.push_back({ p[2],p[3],p[4] }); la.push_back({ p[0],p[2],p[4] }); }
				else if (x == 3) { a.add_mesh(b); auto t = lb; la.insert(la.end(), t.begin(), t.end()); }
				else if (x == 4) { a.add_mesh(a); auto t = la; la.insert(la.end(), t.begin(), t.end()); }
				else if (x == 5) { SmoothMesh t(a); b = t; lb = la; }
				else if (x == 6) { a.clear(); la.clear(); }
				else cur = 1 - cur;
				c.step();
				for (int k = 0; k < 2; k++) {
					MC_CHECK(c, m[k].nb_triangles() == (int)l[k].size(), "smooth-count", "mesh " << k << " has " << m[k].nb_triangles() << " triangles, expected " << l[k].size()); if (c.failed_current()) return;
					for (size_t t = 0; t < l[k].size(); t++) { auto& q = m[k].triangle((int)t); MC_CHECK(c, near(q.eval(1, 0), l[k][t][0]) && near(q.eval(0, 1), l[k][t][1]) && near(q.eval(0, 0), l[k][t][2]) && near(q.eval(0.5, 0.25), l[k][t][0] * 0.5 + l[k][t][1] * 0.25 + l[k][t][2] * 0.25), "smooth-order", "triangle " << t << " of mesh " << k << " is not the one added"); c.obsp(q.eval(1, 0)); }
				}
			}
			Mesh out; m[cur].add_to_mesh(out, 2); MC_CHECK(c, out.nb_triangles() == 4 * (int)l[cur].size(), "smooth-mesh", out.nb_triangles() << " triangles");
		});
	});
	c.section("primitives", "every smooth primitive, size and segment count: flat ones equal the tessellated ideal solid, all are closed and outward");
	for (int k = 0; k < 6; k++) for (double s : { 1.,0.5,25.,1e-3 }) for (int n = 1; n <= c.bound(12, 24); n++) c.test([&] { return (S() << "primitive " << k << " size " << s << " n=" << n).str(); }, [&] {
		SmoothMesh sm; sm.add_flat_triangle(Point3(1, 2, 3), Point3(4, 5, 6), Point3(9, 8, 7)); Mesh f;
		switch (k) { case 0: SmoothMeshFactory::create_tetrahedron(s, sm); MeshFactory::create_tetrahedron(s, f); break; case 1: SmoothMeshFactory::create_box(s, 2 * s, 3 * s, sm); MeshFactory::create_box(s, 2 * s, 3 * s, f); break; case 2: SmoothMeshFactory::create_octahedron(s, sm); MeshFactory::create_octahedron(s, f); break;
		case 3: SmoothMeshFactory::create_dodecahedron(s, sm); MeshFactory::create_dodecahedron(s, f); break; case 4: SmoothMeshFactory::create_icosahedron(s, sm); MeshFactory::create_icosahedron(s, f); break; default: SmoothMeshFactory::create_sphere(s, sm); }
		Mesh m; sm.add_to_mesh(m, n); c.step(); TriList l = snapshot(m); Topo t = topo(l, s * 1e-6);
		MC_CHECK(c, m.nb_triangles() == sm.nb_triangles() * n * n, "primitive-count", m.nb_triangles() << " triangles for " << sm.nb_triangles() << " patches");
		MC_CHECK(c, t.closed() && t.degenerate == 0 && t.euler() == 2, "primitive-closed", t.why() << " Euler " << t.euler()); MC_CHECK(c, l.volume() > 0, "primitive-outward", "volume " << l.volume());
		if (k < 5) { TriList g = snapshot(f); double vol = g.volume(); MC_CHECK(c, near(l.volume() / vol, 1) && near(l.area() / g.area(), 1), "primitive-ideal", "volume " << l.volume() << " area " << l.area() << ", ideal " << vol << " " << g.area());
			double R = 0; for (auto& p : g.v) R = std::max(R, len(p)); double rm = 0; for (auto& p : l.v) rm = std::max(rm, len(p)); MC_CHECK(c, near(R / s, rm / s), "primitive-ideal", "corners at " << rm << ", ideal " << R); }
		else { // all eight octants symmetric and every triangle facing out
			for (auto& q : l.t) { V a = l.v[q[0]], b = l.v[q[1]], d = l.v[q[2]]; if (!(dot(cross(b - a, d - a), a + b + d) > 0)) { c.fail("sphere-outward", S() << "triangle " << str(a) << str(b) << str(d) << " faces inside"); break; } }
			for (auto& p : l.v) if (!(len(p) <= s * 1.1 && len(p) >= s * 0.9)) { c.fail("sphere-shape", S() << "vertex " << str(p)); break; }
			int oct[8] = { 0 }; for (auto& q : l.t) { V g = l.v[q[0]] + l.v[q[1]] + l.v[q[2]]; oct[(g.x < 0) * 4 + (g.y < 0) * 2 + (g.z < 0)]++; } for (int o : oct) MC_CHECK(c, o == n * n, "sphere-octants", o << " triangles in an octant");
		}
		c.obs((int)l.hash());
	});
	auto scaled = [&](Spec s, double f) { for (auto& q : s.p) q = q * f; for (auto& q : s.k) q = q * f; return s; };
	c.section("patch magnitudes", "patches of every power of two of size, of all weights and of one weight, control and weight patterns");
	for (int k = -120; k <= 120; k += c.bound(4, 1)) for (int v = 0; v < 3; v++) for (int ctrl = 0; ctrl < 5; ctrl++) for (int wp = 0; wp < 6; wp++) {
		if (v == 2 && std::abs(k) > 60) continue;
		c.test([&] { return (S() << (v == 0 ? "size" : v == 1 ? "all weights" : "one weight") << " times 2^" << k << " controls " << ctrl << " weights " << wp).str(); }, [&] {
			double f = std::ldexp(1., k), sc = v == 0 ? 10 * f : 10; Spec s = scaled(make(0, 1, 2, ctrl, wp), v == 0 ? f : 1); if (v) { s.weighted = true; for (int i = 0; i < 6; i++) if (v == 1 || i == std::abs(k) % 6) s.w[i] *= v == 1 ? f : std::ldexp(1., k / 3); } QuadBezierTriangle q; s.build(q);
			for (int i = 0; i <= 8; i++) for (int j = 0; i + j <= 8; j++) { V e = s.eval(i / 8., j / 8.); Point3 r = q.eval(i / 8., j / 8.); c.step(); if (!nearx(r, e, sc)) { c.fail("eval-magnitude", S() << "at " << i / 8. << "," << j / 8. << ": " << str(r) << ", expected " << str(e)); return; } c.obsp(r); }
			if (v == 2) return; Mesh m; q.add_to_mesh(m, 3); c.step(); check_grid(c, snapshot(m), 0, m.nb_triangles(), 3, [&](double x, double y) { return s.eval(x, y); }, "tessellation-magnitude", sc);
		});
	}
	c.section("many segments", "every number of segments of a ladder, curved and flat patches");
	for (int n : ladder(1, c.bound(64, 128))) for (int ctrl : { 0,4 }) for (int wp : { 0,5 }) c.test([&] { return (S() << n << " segments controls " << ctrl << " weights " << wp).str(); }, [&] {
		Spec s = make(0, 1, 2, ctrl, wp); QuadBezierTriangle q; s.build(q); Mesh m; q.add_to_mesh(m, n); c.step(); TriList l = snapshot(m); check_grid(c, l, 0, l.t.size(), n, [&](double x, double y) { return s.eval(x, y); }, "tessellation-many"); c.obs(l.hash());
	});
	c.section("primitive magnitudes", "every smooth primitive at every power of two of size, 1, 2 and 5 segments, and at numbers of segments up to a ladder's end");
	for (int k = 0; k < 6; k++) for (int e = -30; e <= 60; e += c.bound(3, 1)) for (int n : { 1,2,5 }) c.test([&] { return (S() << "primitive " << k << " size 2^" << e << " n=" << n).str(); }, [&] {
		double s = std::ldexp(1.25, e); SmoothMesh sm; Mesh f, m;
		switch (k) { case 0: SmoothMeshFactory::create_tetrahedron(s, sm); MeshFactory::create_tetrahedron(s, f); break; case 1: SmoothMeshFactory::create_box(s, 2 * s, 3 * s, sm); MeshFactory::create_box(s, 2 * s, 3 * s, f); break; case 2: SmoothMeshFactory::create_octahedron(s, sm); MeshFactory::create_octahedron(s, f); break; case 3: SmoothMeshFactory::create_dodecahedron(s, sm); MeshFactory::create_dodecahedron(s, f); break; case 4: SmoothMeshFactory::create_icosahedron(s, sm); MeshFactory::create_icosahedron(s, f); break; default: SmoothMeshFactory::create_sphere(s, sm); }
		sm.add_to_mesh(m, n); c.step(); TriList l = snapshot(m); Topo t = topo(l, s * 1e-6); MC_CHECK(c, t.closed() && t.degenerate == 0 && t.euler() == 2 && l.volume() > 0, "primitive-closed", t.why() << " Euler " << t.euler() << " volume " << l.volume());
		if (k < 5) { TriList g = snapshot(f); MC_CHECK(c, near(l.volume() / g.volume(), 1) && near(l.area() / g.area(), 1), "primitive-ideal", "volume " << l.volume() << " area " << l.area() << ", ideal " << g.volume() << " " << g.area()); } else for (auto& p : l.v) if (!(len(p) <= s * 1.1 && len(p) >= s * 0.9)) { c.fail("sphere-shape", S() << "vertex " << str(p)); break; }
		c.obs((int)l.hash());
	});
	for (int k = 0; k < 6; k++) for (int n : ladder(13, c.bound(32, 128))) c.test([&] { return (S() << "primitive " << k << " n=" << n).str(); }, [&] {
		SmoothMesh sm; switch (k) { case 0: SmoothMeshFactory::create_tetrahedron(1, sm); break; case 1: SmoothMeshFactory::create_box(1, 2, 3, sm); break; case 2: SmoothMeshFactory::create_octahedron(1, sm); break; case 3: SmoothMeshFactory::create_dodecahedron(1, sm); break; case 4: SmoothMeshFactory::create_icosahedron(1, sm); break; default: SmoothMeshFactory::create_sphere(1, sm); }
		Mesh m; sm.add_to_mesh(m, n); c.step(); TriList l = snapshot(m); Topo t = topo(l, 1e-6); MC_CHECK(c, t.closed() && t.degenerate == 0 && t.euler() == 2 && l.volume() > 0 && (int)l.t.size() == sm.nb_triangles() * n * n, "primitive-closed", t.why() << " Euler " << t.euler() << " volume " << l.volume()); c.obs((int)l.hash());
	});
	c.section("many patches", "smooth meshes of every number of patches of a ladder: order kept by adding, appending, copying and assigning");
	for (int n : ladder(0, c.bound(4096, 65536))) c.test([&] { return (S() << n << " patches").str(); }, [&] {
		SmoothMesh a; auto id = [](int i) { return V{ (double)i,i % 3 + 0.5,1. }; }; for (int i = 0; i < n; i++) { QuadBezierTriangle q; q.set_points(P(id(i)), Point3(i, 5, 5), Point3(i + 1, 0, -5)); a.add_triangle(q); } SmoothMesh b(a), d; d.add_flat_triangle(Point3(-1, 0, 0), Point3(0, 9, 0), Point3(0, 0, 9)); SmoothMesh e = d; d.add_mesh(a); e = a; c.step(3); if (n <= 5000) { SmoothMesh s(a); s.add_mesh(s); c.step(); MC_CHECK(c, s.nb_triangles() == 2 * n, "smooth-self", s.nb_triangles() << " triangles after adding a mesh of " << n << " to itself"); if (c.failed_current()) return; for (int i = 0; i < 2 * n; i++) if (!near(s.triangle(i).eval(1, 0), id(i % n))) { c.fail("smooth-self", S() << "triangle " << i << " is not the one added"); return; } }
		MC_CHECK(c, a.nb_triangles() == n && b.nb_triangles() == n && e.nb_triangles() == n && d.nb_triangles() == n + 1, "smooth-many", "counts " << a.nb_triangles() << " " << b.nb_triangles() << " " << d.nb_triangles() << " " << e.nb_triangles()); if (c.failed_current()) return;
		for (int i = 0; i < n; i++) if (!near(a.triangle(i).eval(1, 0), id(i)) || !near(b.triangle(i).eval(1, 0), id(i)) || !near(e.triangle(i).eval(1, 0), id(i)) || !near(d.triangle(i + 1).eval(1, 0), id(i))) { c.fail("smooth-many", S() << "triangle " << i << " is not the one added"); return; } c.obs(n);
		if (n > 1100) return; Mesh t; a.add_to_mesh(t, 2); d.add_to_mesh(t, 1); c.step(2); TriList l = snapshot(t); MC_CHECK(c, (int)l.t.size() == 5 * n + 1, "smooth-many-mesh", l.t.size() << " triangles of " << n << " patches of 4 and " << n + 1 << " of 1"); if (c.failed_current()) return;
		for (int i = 0; i < n; i++) { check_grid(c, l, 4 * i, 4 * i + 4, 2, [&](double s, double u) { return id(i) * s + V{ (double)i,5,5 } * u + V{ i + 1.,0,-5 } * (1 - s - u); }, "smooth-many", 1.); if (c.failed_current()) return; }
	});
	c.section("parameters", "Bernstein polynomials at every power of two and beside one, patches beside their corners and sides");
	for (int k = -60; k <= 20; k++) c.test([&] { return (S() << "2^" << k).str(); }, [&] {
		using namespace BezierUtil; for (double u : { std::ldexp(1., k), 1 - std::ldexp(1., k), -std::ldexp(1., k) }) { double v = 1 - u, e[9] = { v,u,v * v,2 * u * v,u * u,v * v * v,3 * u * v * v,3 * u * u * v,u * u * u }, g[9] = { Bernstein01(u),Bernstein11(u),Bernstein02(u),Bernstein12(u),Bernstein22(u),Bernstein03(u),Bernstein13(u),Bernstein23(u),Bernstein33(u) }; c.step(9); for (int i = 0; i < 9; i++) { MC_CHECK(c, std::fabs(g[i] - e[i]) <= 1e-13 * std::pow(1 + std::fabs(u), i < 2 ? 1 : i < 5 ? 2 : 3) && (std::fabs(u) > 0.5 || std::fabs(g[i] - e[i]) <= 1e-13 * std::fabs(e[i])), "bernstein", "polynomial " << i << " at " << u << " is " << g[i] << ", expected " << e[i]); c.obs(g[i]); } }
		if (k > 0) return; double d = std::ldexp(1., k); for (int ctrl : { 0,4 }) for (int wp : { 0,5 }) { Spec s = make(0, 1, 2, ctrl, wp); QuadBezierTriangle q; s.build(q); for (auto st : std::vector<std::array<double,2>>{ {d,0},{0,d},{1 - d,0},{0,1 - d},{d,1 - d},{1 - d,d},{d,d / 2},{0.5,d / 2},{d / 2,0.5} }) { if (st[0] + st[1] > 1) continue; V e = s.eval(st[0], st[1]); Point3 r = q.eval(st[0], st[1]); c.step(); MC_CHECK(c, nearx(r, e, 10, 1e-13), "eval-beside", "at " << st[0] << "," << st[1] << ": " << str(r) << ", expected " << str(e)); c.obsp(r); } }
	});
}
