// C08: height fields, grids and images for every size: sample (x,y) at the right place.
#include "common.hpp"
#include "nurbs.hpp"
#include "MeshUtil.h"
#include "NurbsUtil.h"
#include "Image.h"

namespace {
double height(int x, int y) { return 0.5 + x * 3 - y * 1.75 + ((x * 7 + y * 5) % 4) * 0.25; }
bool alike(const V& a, const V& b) { auto q = [](double x, double y) { return std::fabs(x - y) <= 1e-12 * std::max(std::fabs(x), std::fabs(y)); }; return q(a.x, b.x) && q(a.y, b.y) && q(a.z, b.z); }
std::vector<int> ladder(int top) { return ::ladder(9, top); }
void check_grid(mc::Ctx& c, const Mesh& m, const std::vector<V>& p, int w, int h, const char* what)
{
	TriList l = snapshot(m);
	MC_CHECK(c, l.v.size() == p.size(), std::string(what) + "-count", l.v.size() << " vertices for " << p.size() << " samples");
	for (size_t i = 0; i < p.size() && i < l.v.size(); i++) if (!alike(l.v[i], p[i])) { c.fail(std::string(what) + "-place", S() << "vertex " << i << " is " << str(l.v[i]) << ", expected " << str(p[i])); break; }
	int cells = w > 1 && h > 1 ? (w - 1) * (h - 1) : 0;
	MC_CHECK(c, l.live() == 2 * cells && (int)l.t.size() == l.live(), std::string(what) + "-triangles", l.live() << " triangles for " << cells << " cells");
	std::map<std::pair<int, int>, std::vector<Tri>> cell;
	for (auto& t : l.t) {
		int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1; for (int k : t) { int x = k % w, y = k / w; x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); }
		if (x1 - x0 != 1 || y1 - y0 != 1) { c.fail(std::string(what) + "-cell", S() << "triangle " << t[0] << "," << t[1] << "," << t[2] << " is not in one grid cell"); return; }
		auto px = [&](int k) { return (double)(t[k] % w); }; auto py = [&](int k) { return (double)(t[k] / w); };
		double cr = (px(1) - px(0)) * (py(2) - py(0)) - (px(2) - px(0)) * (py(1) - py(0));
		if (!(cr > 0)) c.fail(std::string(what) + "-orientation", S() << "triangle " << t[0] << "," << t[1] << "," << t[2] << " does not face up");
		cell[{ x0, y0 }].push_back(t);
	}
	MC_CHECK(c, (int)cell.size() == cells, std::string(what) + "-cover", cell.size() << " cells covered of " << cells);
	for (auto& e : cell) {
		if (e.second.size() != 2) { c.fail(std::string(what) + "-cover", S() << "cell " << e.first.first << "," << e.first.second << " has " << e.second.size() << " triangles"); break; }
		std::map<int, int> n; for (auto& t : e.second) for (int k : t) n[k]++; // two triangles sharing a diagonal and covering four corners
		if (n.size() != 4) { c.fail(std::string(what) + "-cover", S() << "cell " << e.first.first << "," << e.first.second << " is not covered once"); break; }
		std::vector<int> sh; for (auto& q : n) if (q.second == 2) sh.push_back(q.first);
		if (sh.size() != 2 || sh[0] % w == sh[1] % w || sh[0] / w == sh[1] / w) { c.fail(std::string(what) + "-cover", S() << "cell " << e.first.first << "," << e.first.second << ": the triangles overlap"); break; }
	}
	c.obs((int)l.hash());
}
}
void run(mc::Ctx& c)
{
	int N = c.bound(14, 30);
	c.section("mesh from z", "every width and height up to a bound, into fresh and used meshes");
	for (int w = 1; w <= N; w++) for (int h = 1; h <= N; h++) for (int used = 0; used < 2; used++)
		c.test([&] { return (S() << w << "x" << h << " used " << used).str(); }, [&] {
			std::vector<double> z; std::vector<V> e; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { z.push_back(height(x, y)); e.push_back({ (double)x,(double)y,height(x,y) }); }
			Mesh m; if (used) { m.add_triangle(Point3(1, 2, 3), Point3(3, 2, 1), Point3(5, 5, 5)); m.add_vertex(0, 0, 9); }
			MeshUtil::create_from_z(z, w, h, m); c.step(); check_grid(c, m, e, w, h, "z");
		});
	c.section("mesh from grid", "every width and height up to a bound");
	for (int w = 1; w <= N; w++) for (int h = 1; h <= N; h++) for (int used = 0; used < 2; used++)
		c.test([&] { return (S() << w << "x" << h << " used " << used).str(); }, [&] {
			std::vector<Point3> g; std::vector<V> e; for (int i = 0; i < w * h; i++) { V p = { i % w + 0.25 * height(i / w,i % w),i / w * 2. - 0.125 * i,height(i % w,i / w) }; e.push_back(p); g.push_back(P(p)); }
			Mesh m; if (used) m.add_triangle(Point3(1, 2, 3), Point3(3, 2, 1), Point3(5, 5, 5));
			MeshUtil::create_from_grid(g, w, h, m); c.step(); check_grid(c, m, e, w, h, "grid");
		});
	c.section("nurbs from z", "every width, height and degree up to a bound: control net, boundary and inside evaluation against the definition");
	int M = c.bound(7, 10);
	for (int w = 2; w <= M; w++) for (int h = 2; h <= M; h++) for (int d = 1; d < std::min(w, h) && d <= 4; d++) for (int used = 0; used < 2; used++)
		c.test([&] { return (S() << w << "x" << h << " degree " << d << " used " << used).str(); }, [&] {
			std::vector<double> z; SurfSpec s; s.pu = s.pv = d; s.nu = w; s.nv = h;
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { z.push_back(height(x, y)); s.pt.push_back({ (double)x,(double)y,height(x,y) }); s.w.push_back(1); }
			s.U = make_knots(d, std::vector<int>(w - d - 1, 1), 0); s.W_ = make_knots(d, std::vector<int>(h - d - 1, 1), 0);
			NurbsSurface n; if (used) { make_surf(2, 1, { 1 }, { 1 }, 1, 3).build(n); n.set_closed_u(true); }
			NurbsUtil::create_from_z(z, w, h, d, n); c.step();
			MC_CHECK(c, n.nb_points_u() == w && n.nb_points_v() == h && n.degree_u() == d && n.degree_v() == d, "nurbs-size", n.nb_points_u() << "x" << n.nb_points_v() << " control points");
			if (n.nb_points_u() != w || n.nb_points_v() != h || n.points().size() != s.pt.size()) return;
			for (size_t i = 0; i < s.pt.size(); i++) if (!near(n.points()[i], s.pt[i])) { c.fail("nurbs-place", S() << "control point " << i << " is " << str(n.points()[i]) << ", expected " << str(s.pt[i])); return; }
			for (int i = 0; i <= 6; i++) for (int j = 0; j <= 6; j++) {
				Point3 q; n.evaluate(i / 6., j / 6., q); c.step(); V e = s.eval(i / 6., j / 6.); c.obsp(q);
				if (!near(q, e)) { c.fail("nurbs-eval", S() << "at " << i / 6. << "," << j / 6. << " evaluates to " << str(q) << ", the height field gives " << str(e)); return; }
			}
		});
	c.section("images", "every image size up to a bound, 1 to 4 planes: to_double, and on into a mesh");
	for (int w = 0; w <= N; w++) for (int h = 0; h <= N; h++) for (int p = 1; p <= 4; p++)
		c.test([&] { return (S() << w << "x" << h << " planes " << p).str(); }, [&] {
			Image im(w, h, p); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) im(x, y, k) = (unsigned char)(k * 50 + (x + y * w) % 49 + (x == y ? 3 : 0));
			std::vector<double> d(3, -5.); im.to_double(d); c.step();
			MC_CHECK(c, d.size() == (size_t)(w * h), "image-size", d.size() << " samples for " << w << "x" << h);
			if (d.size() < (size_t)(w * h)) return;
			for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (d[x + y * w] != im(x, y, 0)) { c.fail("image-place", S() << "sample " << x << "," << y << " is " << d[x + y * w] << ", the pixel is " << (int)im(x, y, 0)); return; }
			for (double q : d) c.obs(q);
			if (w > 0 && h > 0 && d.size() == (size_t)(w * h)) { Mesh m; MeshUtil::create_from_z(d, w, h, m); std::vector<V> e; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) e.push_back({ (double)x,(double)y,(double)im(x,y) }); check_grid(c, m, e, w, h, "image"); }
		});
	// one dimension at a time: sizes beside every power of two, more samples than 65536, heights of every magnitude
	std::vector<std::array<int, 2>> big; for (int k : ladder(c.bound(4096, 65536))) for (int s : { 1,2,3 }) { big.push_back({ k,s }); big.push_back({ s,k }); } for (auto z : std::initializer_list<std::array<int, 2>>{ {256,256},{257,256},{256,257},{300,220},{65537,1},{1,65537},{32769,2},{2,32769} }) big.push_back(z);
	c.section("large", "long and large height fields, grids and images: one side beside every power of two, more than 65536 samples");
	for (auto& z : big) for (int kind = 0; kind < 3; kind++) c.test([&] { return (S() << z[0] << "x" << z[1] << (kind == 0 ? " heights" : kind == 1 ? " grid" : " image")).str(); }, [&] {
		int w = z[0], h = z[1]; std::vector<double> d; std::vector<V> e; std::vector<Point3> g; Mesh m; if (kind) m.add_triangle(Point3(1, 2, 3), Point3(3, 2, 1), Point3(5, 5, 5));
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double q = kind == 2 ? (x * 7 + y * 13 + x / 256 + y / 256 * 3) % 256 : height(x, y); d.push_back(q); e.push_back({ x + (kind == 1 ? 0.25 : 0.),(double)y,q }); if (kind == 1) g.push_back(P(e.back())); }
		if (kind == 0) MeshUtil::create_from_z(d, w, h, m); else if (kind == 1) MeshUtil::create_from_grid(g, w, h, m);
		else { Image im(w, h, 1 + (w + h) % 4); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { for (int p = 0; p < im.planes(); p++) im(x, y, p) = 77; im(x, y, 0) = (unsigned char)d[x + (size_t)y * w]; } std::vector<double> r; im.to_double(r); c.step(); MC_CHECK(c, r == d, "image-place", "the converted samples differ from the pixels"); if (r.size() != d.size()) return; MeshUtil::create_from_z(r, w, h, m); }
		c.step(); check_grid(c, m, e, w, h, kind == 0 ? "z" : kind == 1 ? "grid" : "image");
	});
	c.section("magnitudes", "heights and grid points of every power of two from 2^-100 to 2^100, both signs, zero among them");
	for (int k = -100; k <= 100; k += 2) for (int s = 0; s < 4; s++) for (int kind = 0; kind < 3; kind++) c.test([&] { return (S() << "scale 2^" << k << " pattern " << s << " kind " << kind).str(); }, [&] {
		int w = 4, h = 3; double f = std::ldexp(s % 2 ? -1. : 1., k); std::vector<double> d; std::vector<V> e; std::vector<Point3> g; for (int i = 0; i < w * h; i++) { double q = s < 2 ? height(i % w, i / w) * f : (i * 5 % 7 == s ? f : i % 3 ? 0. : 1.); d.push_back(q); e.push_back(kind == 1 ? V{ f * (i % w),q,f * (i / w) } : V{ (double)(i % w),(double)(i / w),q }); g.push_back(P(e.back())); }
		if (kind < 2) { Mesh m; if (kind) MeshUtil::create_from_grid(g, w, h, m); else MeshUtil::create_from_z(d, w, h, m); c.step(); check_grid(c, m, e, w, h, kind ? "grid" : "z"); return; }
		NurbsSurface n; NurbsUtil::create_from_z(d, w, h, 2, n); c.step(); MC_CHECK(c, n.points().size() == e.size(), "nurbs-size", "control points"); for (size_t i = 0; i < e.size() && i < n.points().size(); i++) if (!alike(v(n.points()[i]), e[i])) { c.fail("nurbs-place", S() << "control point " << i << " is " << str(n.points()[i]) << ", expected " << str(e[i])); return; }
	});
	c.section("values", "small height fields, grids and images over every assignment of a few values to their samples: flat cells, holes, steps and coinciding points are cells like any other");
	for (auto z : std::vector<std::array<int, 3>>{ {{2,2,4}},{{3,2,3}},{{2,3,3}},{{3,3,2}},{{4,2,2}},{{2,4,2}} }) sequences(c.thorough() && z[0] * z[1] < 9 ? 4 : z[2], z[0] * z[1], [&](const std::vector<int>& q) { for (int kind = 0; kind < 4; kind++) c.test([&] { S s; s << z[0] << "x" << z[1] << (kind == 0 ? " heights" : kind == 1 ? " grid points" : kind == 2 ? " image" : " nurbs from heights") << " pattern"; for (int k : q) s << " " << k; return s.str(); }, [&] {
		static const double H[4] = { 0,1,-1,1e9 }, PX[4] = { 0,255,1,128 }; int w = z[0], h = z[1]; std::vector<double> d; std::vector<V> e; std::vector<Point3> g; for (int i = 0; i < w * h; i++) { double a = kind == 2 ? PX[q[i]] : H[q[i]]; d.push_back(a); e.push_back(kind == 1 ? V{ a,-a,a * 0.5 } : V{ (double)(i % w),(double)(i / w),a }); g.push_back(P(e.back())); }
		if (kind == 2) { Image im(w, h, 1); for (int i = 0; i < w * h; i++) im(i % w, i / w) = (unsigned char)d[i]; std::vector<double> r; im.to_double(r); MC_CHECK(c, r == d, "image-place", "the converted samples differ from the pixels"); d = r; if ((int)r.size() != w * h) return; }
		if (kind < 3) { Mesh m; if (kind == 1) MeshUtil::create_from_grid(g, w, h, m); else MeshUtil::create_from_z(d, w, h, m); c.step(); check_grid(c, m, e, w, h, kind == 0 ? "z" : kind == 1 ? "grid" : "image"); return; }
		NurbsSurface n; NurbsUtil::create_from_z(d, w, h, 1, n); c.step(); MC_CHECK(c, n.nb_points_u() == w && n.nb_points_v() == h && n.points().size() == e.size(), "nurbs-size", "control points"); for (size_t i = 0; i < e.size() && i < n.points().size(); i++) if (!alike(v(n.points()[i]), e[i])) { c.fail("nurbs-place", S() << "control point " << i << " is " << str(n.points()[i]) << ", expected " << str(e[i])); return; }
	}); });
	c.section("large nurbs from z", "long height fields and degrees to 7: control net and evaluation");
	for (int k : ladder(c.bound(400, 2100))) for (int o : { 2,3,5,8 }) for (int t = 0; t < 2; t++) for (int d = 1; d < o && d <= 7; d++) c.test([&] { return (S() << (t ? o : k) << "x" << (t ? k : o) << " degree " << d).str(); }, [&] {
		int w = t ? o : k, h = t ? k : o; std::vector<double> z; SurfSpec s; s.pu = s.pv = d; s.nu = w; s.nv = h;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { z.push_back(height(x, y)); s.pt.push_back({ (double)x,(double)y,height(x,y) }); s.w.push_back(1); }
		s.U = make_knots(d, std::vector<int>(w - d - 1, 1), 0); s.W_ = make_knots(d, std::vector<int>(h - d - 1, 1), 0); NurbsSurface n; NurbsUtil::create_from_z(z, w, h, d, n); c.step();
		MC_CHECK(c, n.nb_points_u() == w && n.nb_points_v() == h && n.points().size() == s.pt.size(), "nurbs-size", n.nb_points_u() << "x" << n.nb_points_v() << " control points"); if (c.failed_current()) return;
		for (size_t i = 0; i < s.pt.size(); i++) if (!alike(v(n.points()[i]), s.pt[i])) { c.fail("nurbs-place", S() << "control point " << i << " is " << str(n.points()[i]) << ", expected " << str(s.pt[i])); return; }
		for (int i = 0; i <= 9; i++) for (int j = 0; j <= 3; j++) { double a = (t ? j / 3. : i / 9.), b = (t ? i / 9. : j / 3.); Point3 q; n.evaluate(a, b, q); c.step(); V e = s.eval(a, b); c.obsp(q); if (!near(q, e)) { c.fail("nurbs-eval", S() << "at " << a << "," << b << " evaluates to " << str(q) << ", the height field gives " << str(e)); return; } }
	});
}
