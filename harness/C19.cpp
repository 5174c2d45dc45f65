// C19: NURBS primitives against the ideal shapes.
#include "nurbs.hpp"
#include "NurbsFactory.h"
#include "NurbsSolid.h"
#include "NurbsUtil.h"

namespace {
const double SIZES[] = { 1,2.5,0.125,40,1e-3,7.75,1000 };
// no parameter line of the surface may leave a gap: the longest of 40 steps against the extent of the line
void jumps(mc::Ctx& c, const NurbsSurface& s, const char* w, double size)
{
	for (int d = 0; d < 2; d++) for (int i = 0; i <= 8; i++) {
		V lo, hi, last; double step = 0; for (int j = 0; j <= 40; j++) { Point3 p; if (d) s.evaluate(i / 8., j / 40., p); else s.evaluate(j / 40., i / 8., p); c.step(); V q = v(p); if (j == 0) lo = hi = q; else step = std::max(step, len(q - last)); last = q; lo = { std::min(lo.x,q.x),std::min(lo.y,q.y),std::min(lo.z,q.z) }; hi = { std::max(hi.x,q.x),std::max(hi.y,q.y),std::max(hi.z,q.z) }; }
		if (len(hi - lo) > 1e-7 * size && step > 0.3 * len(hi - lo)) { c.fail(S() << w << "-gap", S() << "the line at " << (d ? "u" : "v") << "=" << i / 8. << " of extent " << len(hi - lo) << " has a step of " << step); return; }
	}
}
// solids: flags, closedness, volume, outwardness
struct Ideal { double volume; std::function<double(const V&)> dist; std::function<V(const V&)> normal; double convex; };
void solid(mc::Ctx& c, const NurbsSolid& ns, double size, const Ideal& id, const char* w, int maxSeg)
{
	for (size_t k = 0; k < ns.surfaces().size(); k++) { const NurbsSurface& s = ns.surfaces()[k]; std::string e = malformed(s); if (!e.empty()) { c.fail(S() << w << "-consistent", e); return; } jumps(c, s, w, size); }
	for (size_t k = 0; k < ns.surfaces().size(); k++) { const NurbsSurface& s = ns.surfaces()[k]; for (int i = 0; i <= 40; i++) for (int j = 0; j <= 40; j++) { Point3 p; s.evaluate(i / 40., j / 40., p); c.step(); if (!(std::fabs(id.dist(v(p))) <= 1e-9 * size)) { c.fail(S() << w << "-shape", S() << "surface " << k << " at " << i / 40. << "," << j / 40. << ": " << str(p) << " is " << id.dist(v(p)) << " away from the ideal shape"); return; } c.obsp(p); }
		Point3 a, b; for (int j = 0; j <= 8; j++) { if (s.is_closed_u()) { s.evaluate(0, j / 8., a); s.evaluate(1, j / 8., b); MC_CHECK(c, len(v(a) - v(b)) < 1e-9 * size, S() << w << "-seam", "u direction flagged closed does not return"); } if (s.is_closed_v()) { s.evaluate(j / 8., 0, a); s.evaluate(j / 8., 1, b); MC_CHECK(c, len(v(a) - v(b)) < 1e-9 * size, S() << w << "-seam", "v direction flagged closed does not return"); } } }
	double last = 0;
	for (int n = 1; n <= maxSeg; n++) {
		Mesh m; NurbsUtil::to_mesh(ns, m, n); c.step(); TriList l = snapshot(m); double vol = l.volume();
		MC_CHECK(c, vol > 0, S() << w << "-volume", "volume " << vol << " with " << n << " segments"); if (id.convex) MC_CHECK(c, vol <= id.volume * (1 + 1e-9), S() << w << "-volume", "volume " << vol << " exceeds the ideal " << id.volume);
		MC_CHECK(c, std::fabs(vol / id.volume - 1) <= (id.convex == 2 ? 1e-9 : 0.6 / (n * n)), S() << w << "-volume", "volume " << vol << " with " << n << " segments, ideal " << id.volume);
		Topo t = topo(l, size * 1e-7); MC_CHECK(c, t.closed(), S() << w << "-closed", "n=" << n << ": " << t.why());
		for (auto& q : t.t) { V a = t.v[q[0]], b = t.v[q[1]], d = t.v[q[2]], nn = cross(b - a, d - a); if (len(nn) < 1e-13 * size * size) continue; if (!(dot(nn, id.normal((a + b + d) * (1 / 3.))) > 0)) { c.fail(S() << w << "-outward", S() << "n=" << n << " triangle " << str(a) << str(b) << str(d) << " faces inside"); break; } }
	}
}
}
void run(mc::Ctx& c)
{
	int MS = c.bound(6, 16), G = c.bound(200, 1000); auto hyp = [](double a, double b) { return std::hypot(a, b); };
	c.section("circle", "every size, dense parameter grid");
	for (double r : SIZES) c.test([&] { return S() << "radius " << r; }, [&] {
		NurbsCurve n; NurbsFactory::create_circle(r, n); MC_CHECK(c, n.is_closed(), "circle-closed", "not closed"); double last = 0, total = 0; Point3 p;
		for (int i = 0; i <= G; i++) { n.evaluate(i / (double)G, p); c.step(); MC_CHECK(c, std::fabs(hyp(p.x(), p.y()) - r) <= 1e-9 * r && p.z() == 0, "circle-shape", str(p) << " is not on the circle"); double a = std::atan2(p.y(), p.x()), s = a - last; while (s > M_PI) s -= 2 * M_PI; while (s < -M_PI) s += 2 * M_PI; if (i) { MC_CHECK(c, s > 0, "circle-turn", "does not turn counter-clockwise at " << i); total += s; } last = a; c.obsp(p); }
		MC_CHECK(c, near(total, 2 * M_PI), "circle-turn", "turns by " << total); n.evaluate(0, p); MC_CHECK(c, len(v(p) - V{ r,0,0 }) < 1e-9 * r, "circle-start", "starts at " << str(p));
	});
	c.section("surfaces", "disk, sphere and torus surfaces, every size (torus: every pair), dense grid, flags");
	for (double r : SIZES) c.test([&] { return S() << "disk radius " << r; }, [&] {
		NurbsSurface n; NurbsFactory::create_disk(r, n); { std::string e = malformed(n); MC_CHECK(c, e.empty(), "disk-consistent", e); if (c.failed_current()) return; jumps(c, n, "disk", r); } MC_CHECK(c, n.is_closed_u() && !n.is_closed_v(), "disk-flags", "flags " << n.is_closed_u() << n.is_closed_v()); Point3 p, q; int g = G / 4;
		for (int i = 0; i <= g; i++) { double lr = -1; for (int j = 0; j <= 16; j++) { n.evaluate(i / (double)g, j / 16., p); c.step(); double d = hyp(p.x(), p.y()); MC_CHECK(c, p.z() == 0 && d <= r * (1 + 1e-9) && d > lr, "disk-shape", str(p)); lr = d; if (j == 0) MC_CHECK(c, d < 1e-12 * r, "disk-centre", str(p)); if (j == 16) MC_CHECK(c, std::fabs(d - r) < 1e-9 * r, "disk-border", str(p)); c.obsp(p); } }
		n.evaluate(0, 1, p); n.evaluate(1, 1, q); MC_CHECK(c, near(p, q), "disk-seam", str(p) << str(q));
		Mesh m; NurbsUtil::to_mesh(n, m, 4); double a = snapshot(m).area(); MC_CHECK(c, a <= M_PI * r * r * (1 + 1e-9) && a > 0.98 * M_PI * r * r, "disk-area", "area " << a);
	});
	for (double r : SIZES) c.test([&] { return S() << "sphere radius " << r; }, [&] {
		NurbsSurface n; NurbsFactory::create_sphere(r, n); { std::string e = malformed(n); MC_CHECK(c, e.empty(), "sphere-consistent", e); if (c.failed_current()) return; jumps(c, n, "sphere", r); } MC_CHECK(c, n.is_closed_u() && !n.is_closed_v(), "sphere-flags", "flags " << n.is_closed_u() << n.is_closed_v()); Point3 p; int g = G / 4; double zmin = r, zmax = -r;
		for (int i = 0; i <= g; i++) for (int j = 0; j <= g; j++) { n.evaluate(i / (double)g, j / (double)g, p); c.step(); MC_CHECK(c, std::fabs(len(v(p)) - r) < 1e-9 * r, "sphere-shape", str(p)); zmin = std::min(zmin, p.z()); zmax = std::max(zmax, p.z()); if (i % 5 == 0) c.obsp(p); }
		MC_CHECK(c, near(zmin / r, -1) && near(zmax / r, 1), "sphere-poles", zmin << " " << zmax);
	});
	for (double R : SIZES) for (double f : { 0.01,0.125,0.5,0.9,1.,1.5,2.,5.,20. }) c.test([&] { return S() << "torus " << R << "," << R * f; }, [&] {
		double r = R * f; NurbsSurface n; NurbsFactory::create_torus(R, r, n); { std::string e = malformed(n); MC_CHECK(c, e.empty(), "torus-consistent", e); if (c.failed_current()) return; jumps(c, n, "torus", R); } MC_CHECK(c, n.is_closed_u() && n.is_closed_v(), "torus-flags", "flags " << n.is_closed_u() << n.is_closed_v()); Point3 p; int g = G / 4 / 4 * 4; double hm = 0, zm = 0;
		for (int i = 0; i <= g; i++) for (int j = 0; j <= g; j++) { n.evaluate(i / (double)g, j / (double)g, p); c.step(); double h = hyp(p.x(), p.y()), d = hyp(h - R, p.z()), d2 = hyp(-h - R, p.z()); MC_CHECK(c, std::min(std::fabs(d - r), std::fabs(d2 - r)) < 1e-9 * (R + r), "torus-shape", str(p)); hm = std::max(hm, h); zm = std::max(zm, p.z()); if (i % 5 == 0) c.obsp(p); }
		MC_CHECK(c, near(hm / (R + r), 1) && near(zm / r, 1), "torus-extent", "reaches out to " << hm << " and up to " << zm);
	});
	c.section("solids", S() << "sphere, torus, cylinder, box of every size (pairs and triples), tessellated with 1.." << MS << " segments");
	for (double r : SIZES) c.test([&] { return S() << "sphere solid " << r; }, [&] { NurbsSolid n; NurbsFactory::create_sphere(r, n); MC_CHECK(c, n.surfaces().size() == 1, "sphere-count", n.surfaces().size()); solid(c, n, r, { 4 / 3. * M_PI * r * r * r,[=](const V& p) { return len(p) - r; },[](const V& p) { return p; },1 }, "sphere", MS); });
	for (double R : SIZES) for (double f : { 0.125,0.5,0.9 }) c.test([&] { return S() << "torus solid " << R << "," << R * f; }, [&] { double r = R * f; NurbsSolid n; NurbsFactory::create_torus(R, r, n); solid(c, n, R, { 2 * M_PI * M_PI * R * r * r,[=](const V& p) { return std::hypot(std::hypot(p.x, p.y) - R, p.z) - r; },[=](const V& p) { double d = std::hypot(p.x, p.y); return p - V{ p.x * R / d,p.y * R / d,0 }; },0 }, "torus", MS); });
	for (double r : SIZES) for (double h : SIZES) { if (r / h > 1e3 || h / r > 1e3) continue; c.test([&] { return S() << "cylinder solid " << r << "," << h; }, [&] { NurbsSolid n; NurbsFactory::create_cylinder(r, h, n); double S0 = std::max(r, h);
		auto nrm = [=](const V& p) { if (std::fabs(std::fabs(p.z) - h / 2) < 1e-9 * S0) return V{ 0,0,p.z }; return V{ p.x,p.y,0 }; };
		auto dist = [=](const V& p) { double d = std::hypot(p.x, p.y), dz = std::fabs(p.z) - h / 2; if (d > r) return d - r; if (dz > 0) return dz; return std::min(std::fabs(d - r), std::fabs(dz)); };
		solid(c, n, S0, { M_PI * r * r * h,dist,nrm,1 }, "cylinder", MS); }); }
	for (double x : { 1.,2.5,0.125,40. }) for (double y : { 1.,2.5,0.125,40. }) for (double z : { 1.,2.5,0.125,40. }) c.test([&] { return S() << "box solid " << x << "," << y << "," << z; }, [&] { NurbsSolid n; NurbsFactory::create_box(x, y, z, n); MC_CHECK(c, n.surfaces().size() == 6, "box-count", n.surfaces().size());
		auto dist = [=](const V& p) { double a = std::fabs(p.x) - x / 2, b = std::fabs(p.y) - y / 2, d = std::fabs(p.z) - z / 2; return std::max(a, std::max(b, d)); };
		auto nrm = [=](const V& p) { double a = std::fabs(std::fabs(p.x) - x / 2), b = std::fabs(std::fabs(p.y) - y / 2), d = std::fabs(std::fabs(p.z) - z / 2); if (a <= b && a <= d) return V{ p.x,0,0 }; if (b <= d) return V{ 0,p.y,0 }; return V{ 0,0,p.z }; };
		solid(c, n, std::max(x, std::max(y, z)), { x * y * z,dist,nrm,2 }, "box", std::min(MS, 8)); });
	c.section("triangles and quads", "every corner tuple over a point set, on used outputs");
	for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int d = 0; d < 8; d++) for (int e = 0; e < 9; e++) { if (a == b || a == d || b == d || e == a || e == b || e == d) continue; c.test([&] { return S() << "corners " << a << "," << b << "," << d << (e < 8 ? S() << "," << e : S() << " triangle"); }, [&] {
		V p1 = some_point(a), p2 = some_point(b), p3 = some_point(d), p4 = e < 8 ? some_point(e) : p3; NurbsSurface n; if ((a + b) % 2) NurbsFactory::create_torus(2, 1, n);
		if (e < 8) NurbsFactory::create_quad(P(p1), P(p2), P(p3), P(p4), n); else NurbsFactory::create_triangle(P(p1), P(p2), P(p3), n); c.step();
		MC_CHECK(c, !n.is_closed_u() && !n.is_closed_v(), "quad-flags", "flagged closed"); Point3 q[4]; n.evaluate(0, 0, q[0]); n.evaluate(1, 0, q[1]); n.evaluate(1, 1, q[2]); n.evaluate(0, 1, q[3]);
		MC_CHECK(c, near(q[0], p1) && near(q[1], p2) && near(q[2], p3) && near(q[3], p4), "quad-corners", "corners " << str(q[0]) << str(q[1]) << str(q[2]) << str(q[3]));
		for (int i = 0; i <= 6; i++) for (int j = 0; j <= 6; j++) { double u = i / 6., w = j / 6.; Point3 p; n.evaluate(u, w, p); V x = p1 * ((1 - u) * (1 - w)) + p2 * (u * (1 - w)) + p3 * (u * w) + p4 * ((1 - u) * w); MC_CHECK(c, near(p, x), "quad-shape", "at " << u << "," << w << " " << str(p) << " expected " << str(x)); c.obsp(p); }
	}); }
	c.section("curves through points", "every count 2..10 and degree 1..count-1, on fresh and used curves");
	for (int n = 2; n <= c.bound(10, 20); n++) for (int p = 1; p < n; p++) for (int u = 0; u < 2; u++) c.test([&] { return S() << n << " points degree " << p << (u ? " used" : ""); }, [&] {
		std::vector<Point3> q; for (int i = 0; i < n; i++) q.push_back(P(some_point(i))); NurbsCurve nc; if (u) NurbsFactory::create_circle(3, nc); NurbsFactory::create_curve_from_points(q, p, nc); c.step();
		MC_CHECK(c, nc.degree() == p && nc.nb_points() == n && (int)nc.knots().size() == n + p + 1 && (int)nc.weights().size() == n, "points-data", "degree " << nc.degree() << " points " << nc.nb_points() << " knots " << nc.knots().size()); if (c.failed_current()) return;
		for (int i = 0; i < n; i++) MC_CHECK(c, same(nc.points()[i], q[i]) && nc.weights()[i] == 1, "points-data", "point " << i);
		CurveSpec s; s.p = p; for (auto& x : q) s.pt.push_back(v(x)); s.w.assign(n, 1.); s.U = make_knots(p, std::vector<int>(n - p - 1, 1), 0);
		for (double t : probes(s.U, 2)) { Point3 x; nc.evaluate(t, x); MC_CHECK(c, near(x, s.eval(t)), "points-curve", "at " << t << " " << str(x) << " expected " << str(s.eval(t))); c.obsp(x); }
		Point3 x; nc.evaluate(0, x); MC_CHECK(c, near(x, q[0]), "points-ends", "start " << str(x)); nc.evaluate(1, x); MC_CHECK(c, near(x, q[n - 1]), "points-ends", "end " << str(x));
	});
	c.section("magnitudes", "every primitive at every power of two of size (solids with ratios of sizes of every power of two to 2^10)");
	for (int e = -17; e <= c.bound(60, 100); e += c.bound(2, 1)) c.test([&] { return (S() << "size 2^" << e).str(); }, [&] {
		double r = std::ldexp(1.375, e); Point3 p; int g = 24;
		NurbsCurve ci; NurbsFactory::create_circle(r, ci); NurbsSurface di, sp, to; NurbsFactory::create_disk(r, di); NurbsFactory::create_sphere(r, sp); NurbsFactory::create_torus(r, r * 0.25, to);
		MC_CHECK(c, ci.is_closed(), "circle-closed", "not closed"); MC_CHECK(c, di.is_closed_u() && !di.is_closed_v(), "disk-flags", "flags " << di.is_closed_u() << di.is_closed_v()); MC_CHECK(c, sp.is_closed_u() && !sp.is_closed_v(), "sphere-flags", "flags " << sp.is_closed_u() << sp.is_closed_v()); MC_CHECK(c, to.is_closed_u() && to.is_closed_v(), "torus-flags", "flags " << to.is_closed_u() << to.is_closed_v());
		for (int i = 0; i <= g; i++) {
			ci.evaluate(i / (double)g, p); c.step(); MC_CHECK(c, std::fabs(hyp(p.x(), p.y()) - r) <= 1e-9 * r && p.z() == 0, "circle-shape", str(p) << " is not on the circle");
			for (int j = 0; j <= g; j++) { double a = i / (double)g, b = j / (double)g; c.step(3); di.evaluate(a, b, p); MC_CHECK(c, std::fabs(hyp(p.x(), p.y()) - r * b) <= 1e-9 * r && p.z() == 0, "disk-shape", str(p)); sp.evaluate(a, b, p); MC_CHECK(c, std::fabs(len(v(p)) - r) < 1e-9 * r, "sphere-shape", str(p)); to.evaluate(a, b, p); MC_CHECK(c, std::fabs(hyp(hyp(p.x(), p.y()) - r, p.z()) - r * 0.25) < 1e-9 * r, "torus-shape", str(p)); c.obsp(p); }
		}
		NurbsSolid so; NurbsFactory::create_sphere(r, so); solid(c, so, r, { 4 / 3. * M_PI * r * r * r,[=](const V& p) { return len(p) - r; },[](const V& p) { return p; },1 }, "sphere", 3);
		for (int q = -10; q <= 10; q += 5) {
			double h = std::ldexp(1.25, e + q), S0 = std::max(r, h); if (h < 4e-6) continue; NurbsSolid cy, bo; NurbsFactory::create_cylinder(r, h, cy);
			auto nrm = [=](const V& p) { if (std::fabs(std::fabs(p.z) - h / 2) < 1e-9 * S0) return V{ 0,0,p.z }; return V{ p.x,p.y,0 }; };
			auto dist = [=](const V& p) { double d = std::hypot(p.x, p.y), dz = std::fabs(p.z) - h / 2; if (d > r) return d - r; if (dz > 0) return dz; return std::min(std::fabs(d - r), std::fabs(dz)); };
			solid(c, cy, S0, { M_PI * r * r * h,dist,nrm,1 }, "cylinder", 2);
			double x = r, y = h, z = r * 1.5; NurbsFactory::create_box(x, y, z, bo); auto bd = [=](const V& p) { return std::max(std::fabs(p.x) - x / 2, std::max(std::fabs(p.y) - y / 2, std::fabs(p.z) - z / 2)); };
			auto bn = [=](const V& p) { double a = std::fabs(std::fabs(p.x) - x / 2), b = std::fabs(std::fabs(p.y) - y / 2), d = std::fabs(std::fabs(p.z) - z / 2); if (a <= b && a <= d) return V{ p.x,0,0 }; if (b <= d) return V{ 0,p.y,0 }; return V{ 0,0,p.z }; };
			solid(c, bo, std::max(x, std::max(y, z)), { x * y * z,bd,bn,2 }, "box", 2);
		}
		V P1 = some_point(1) * r, P2 = some_point(2) * r, P3_ = some_point(3) * r, P4 = some_point(4) * r; NurbsSurface qd, tr; NurbsFactory::create_quad(P(P1), P(P2), P(P3_), P(P4), qd); NurbsFactory::create_triangle(P(P1), P(P2), P(P3_), tr);
		for (int i = 0; i <= 4; i++) for (int j = 0; j <= 4; j++) { double u = i / 4., w = j / 4.; V a = P1 * ((1 - u) * (1 - w)) + P2 * (u * (1 - w)); qd.evaluate(u, w, p); MC_CHECK(c, nearx(p, a + P3_ * (u * w) + P4 * ((1 - u) * w), 10 * r), "quad-shape", "at " << u << "," << w << " " << str(p)); tr.evaluate(u, w, p); MC_CHECK(c, nearx(p, a + P3_ * w, 10 * r), "triangle-shape", "at " << u << "," << w << " " << str(p)); c.step(2); }
	});
	c.section("many points", "curves through numbers of points up to a ladder's end, degrees to 8");
	for (int p = 1; p <= 8; p++) for (int n : ladder(p + 1, c.bound(1024, 8192))) c.test([&] { return (S() << n << " points degree " << p).str(); }, [&] {
		std::vector<Point3> q; for (int i = 0; i < n; i++) q.push_back(P(some_point(i))); NurbsCurve nc; NurbsFactory::create_curve_from_points(q, p, nc); c.step();
		MC_CHECK(c, nc.degree() == p && nc.nb_points() == n && (int)nc.knots().size() == n + p + 1 && (int)nc.weights().size() == n, "points-data", "degree " << nc.degree() << " points " << nc.nb_points() << " knots " << nc.knots().size()); if (c.failed_current()) return;
		CurveSpec s; s.p = p; for (int i = 0; i < n; i++) { s.pt.push_back(v(q[i])); MC_CHECK(c, same(nc.points()[i], q[i]) && nc.weights()[i] == 1, "points-data", "point " << i); } s.w.assign(n, 1.); s.U = make_knots(p, std::vector<int>(n - p - 1, 1), 0);
		for (int i = 0; i <= 30; i++) { Point3 x; nc.evaluate(i / 30., x); c.step(); MC_CHECK(c, nearx(x, s.eval(i / 30.), n, 1e-8), "points-curve", "at " << i / 30. << " " << str(x) << " expected " << str(s.eval(i / 30.))); c.obsp(x); }
	});
}
