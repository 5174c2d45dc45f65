// C18: extruded, ruled and revolved surfaces against the swept point sets, on fresh and used outputs.
#include "nurbs.hpp"
#include "NurbsExtrude.h"
#include "NurbsRuled.h"
#include "NurbsRevolve.h"
#include "NurbsFactory.h"

namespace {
// closing: 0 open curve, 1 last control point equals the first
CurveSpec curve(int p, const std::vector<int>& mult, int sp, int w, int shift, int closing, int plane)
{
	CurveSpec s = make_curve(p, mult, sp, w, shift);
	if (closing) s.pt.back() = s.pt[0];
	if (plane == 1) for (auto& q : s.pt) q.y = 0; // profile in the xz plane
	if (plane == 2) { s.pt[0].x = s.pt[0].y = 0; if (s.pt.size() > 2) s.pt[1].x = s.pt[1].y = 0; } // touches the axis
	return s;
}
void used(NurbsSurface& ns, int kind)
{
	Point3 p;
	switch (kind) {
	case 0: break;
	case 1: make_surf(3, 2, { 1,2 }, { 1 }, 1, 5).build(ns); ns.set_closed_u(true); ns.set_closed_v(true); ns.evaluate(0.3, 0.6, p); break;
	case 2: NurbsFactory::create_torus(3, 1, ns); ns.evaluate(0.9, 0.1, p); break;
	default: make_surf(1, 1, {}, {}, 0, 2).build(ns); ns.set_closed_v(true); break;
	}
}
void data_ok(mc::Ctx& c, const NurbsSurface& n)
{
	std::string e = malformed(n); MC_CHECK(c, e.empty(), "consistent", e);
}
std::vector<double> few(std::vector<double> a, size_t n) { if (a.size() <= n) return a; std::vector<double> r; for (size_t i = 0; i < n; i++) r.push_back(a[i * (a.size() - 1) / (n - 1)]); return r; }
}
void run(mc::Ctx& c)
{
	int MP = c.bound(4, 5), MM = c.bound(3, 4);
	std::vector<CurveSpec> cs;
	for (int p = 1; p <= MP; p++) for (int m = 0; m <= MM; m++) for (auto& mult : compositions(m, p)) for (int w = 0; w < NB_WEIGHT_PATTERNS; w++) for (int cl = 0; cl < 2; cl++) for (int pl = 0; pl < 3; pl++) {
		if (cl && p + m < 2) continue;
		cs.push_back(curve(p, mult, (w + pl) % 2, w, p + m, cl, pl));
	}
	const V dirs[] = { {0,0,2},{1,0,0},{-3,0.5,4},{1e-3,2,-1},{0,0,0} };
	c.section("extrude", S() << "degree 1.." << MP << ", up to " << MM << " interior knots in every composition, 6 weight patterns, open/closed, planar/axis variants, 5 directions, 4 output histories");
	for (size_t k = 0; k < cs.size(); k++) for (int d = 0; d < 5; d++) for (int u = 0; u < 4; u++) {
		if ((k + d + u) % 2 && !c.thorough()) continue;
		c.test([&, k, d, u] { return S() << cs[k].text() << " along " << str(dirs[d]) << " output history " << u; }, [&, k, d, u] {
			const CurveSpec& s = cs[k]; NurbsCurve nc; s.build(nc, d % 2); NurbsSurface ns; used(ns, u);
			bool ok = NurbsExtrude().extrude(nc, P(dirs[d]), ns); c.step(); MC_CHECK(c, ok, "extrude-result", "returned false"); data_ok(c, ns); if (c.failed_current()) return;
			bool closed = len(s.pt[0] - s.pt.back()) < 1e-6;
			MC_CHECK(c, ns.is_closed_u() == closed && !ns.is_closed_v(), "extrude-closed", "closed flags " << ns.is_closed_u() << ns.is_closed_v() << " for a curve closed=" << closed);
			for (double t : probes(s.U, 1)) { V e = s.eval(t); for (double w : { 0.,0.25,0.5,0.875,1. }) { Point3 p; ns.evaluate(t, w, p); c.step(); V x = e + dirs[d] * w; if (!near(p, x)) { c.fail("extrude-point", S() << "at " << t << "," << w << ": " << str(p) << " expected " << str(x)); return; } c.obsp(p); } }
			NurbsCurve chk; s.build(chk); MC_CHECK(c, nc.degree() == chk.degree() && nc.knots() == chk.knots() && nc.weights() == chk.weights() && nc.nb_points() == chk.nb_points(), "input-modified", "the curve was modified");
		});
	}
	c.section("extrude directions", "every direction of the lattice {-1,0,1}^3 and of its halves along one axis, every degree and weight pattern, open and closed curves");
	for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) for (int p = 1; p <= 3; p++) for (int w = 0; w < NB_WEIGHT_PATTERNS; w++) for (int cl = 0; cl < 2; cl++) for (int ax = -1; ax < 3; ax++) c.test([=] { return (S() << "direction (" << x << "," << y << "," << z << ") halved axis " << ax << " degree " << p << " weights " << w << " closed " << cl).str(); }, [&, x, y, z, p, w, cl, ax] {
		V d{ ax == 0 ? x * 0.5 : x,ax == 1 ? y * 0.5 : y,ax == 2 ? z * 0.5 : z }; CurveSpec s = curve(p, { 1,1 }, 1, w, p + w, cl, 0); NurbsCurve nc; s.build(nc); NurbsSurface ns; used(ns, (x + y + z + 3) % 4); bool ok = NurbsExtrude().extrude(nc, P(d), ns); c.step(); MC_CHECK(c, ok && ns.is_closed_u() == (cl == 1) && !ns.is_closed_v(), "extrude-closed", "result or flags"); data_ok(c, ns); if (c.failed_current()) return;
		for (double t : few(probes(s.U, 1), 9)) { V e = s.eval(t); for (double r : { 0.,0.375,1. }) { Point3 q; ns.evaluate(t, r, q); c.step(); V o = e + d * r; if (!near(q, o)) { c.fail("extrude-point", S() << "at " << t << "," << r << ": " << str(q) << " expected " << str(o)); return; } c.obsp(q); } } });
	c.section("ruled", "the same curves paired with a compatible one (same degree, knots, point count; same or different weights, closed or open), 4 output histories");
	for (size_t k = 0; k < cs.size(); k++) for (int v2 = 0; v2 < 4; v2++) for (int u = 0; u < 4; u++) {
		if ((k + v2 + u) % 2 && !c.thorough()) continue;
		c.test([&, k, v2, u] { return S() << cs[k].text() << " second curve variant " << v2 << " output history " << u; }, [&, k, v2, u] {
			const CurveSpec& s = cs[k]; CurveSpec r = s; int n = (int)s.pt.size(); for (int i = 0; i < n; i++) { r.pt[i] = some_point(i + 5) + V{ 0,1,4 }; if (v2 == 1 || v2 == 3) r.w[i] = some_weight((v2 + 1) % NB_WEIGHT_PATTERNS, i, n); } if (v2 >= 2) r.pt.back() = r.pt[0];
			NurbsCurve a, b; s.build(a); r.build(b, 1); NurbsSurface ns; used(ns, u); bool ok = NurbsRuled().create_ruled(a, b, ns); c.step(); MC_CHECK(c, ok, "ruled-result", "returned false"); data_ok(c, ns); if (c.failed_current()) return;
			bool closed = len(s.pt[0] - s.pt.back()) < 1e-6 && len(r.pt[0] - r.pt.back()) < 1e-6;
			MC_CHECK(c, ns.is_closed_u() == closed && !ns.is_closed_v(), "ruled-closed", "closed flags " << ns.is_closed_u() << ns.is_closed_v() << ", both curves closed=" << closed);
			bool sw = s.w == r.w;
			for (double t : probes(s.U, 1)) { V e = s.eval(t), f = r.eval(t); double last = -1; for (double w : { 0.,0.25,0.5,0.875,1. }) { Point3 p; ns.evaluate(t, w, p); c.step();
				if (sw || w == 0 || w == 1) { V x = e * (1 - w) + f * w; if (!near(p, x)) { c.fail("ruled-point", S() << "at " << t << "," << w << ": " << str(p) << " expected " << str(x)); return; } }
				else { V d = f - e, g = v(p) - e; double l = dot(d, d), a = l ? dot(g, d) / l : 0; if (!near(P(g), d * a, 1e-8) || !(a > last - 1e-9) || a < -1e-9 || a > 1 + 1e-9) { c.fail("ruled-point", S() << "at " << t << "," << w << ": " << str(p) << " is not between " << str(e) << " and " << str(f)); return; } last = a; }
				c.obsp(p); } }
		});
	}
	c.section("ruled weights", "every ordered pair of weight patterns (all one, constant, periodic, one end, growing, extreme) of the two curves, every degree and knot pattern of a list, open or closed, 4 output histories");
	for (int p = 1; p <= MP; p++) for (auto& mult : std::vector<std::vector<int>>{ {},{1},{1,1},{p} }) for (int w1 = 0; w1 <= NB_WEIGHT_PATTERNS; w1++) for (int w2 = 0; w2 <= NB_WEIGHT_PATTERNS; w2++) for (int cl = 0; cl < 2; cl++) c.test([&] { return (S() << "degree " << p << " with " << (int)mult.size() << " interior knots, weight patterns " << w1 << " and " << w2 << (cl ? " closed" : "")).str(); }, [&] {
		auto ww = [&](int pat, int i, int n) { return pat == NB_WEIGHT_PATTERNS ? 2.5 : some_weight(pat, i, n); }; CurveSpec s = make_curve(p, mult, 1, 0, 1), r = make_curve(p, mult, 1, 0, 5); int n = (int)s.pt.size(); if (cl && n > 2) { s.pt.back() = s.pt[0]; r.pt.back() = r.pt[0]; } for (int i = 0; i < n; i++) { s.w[i] = ww(w1, i, n); r.w[i] = ww(w2, i, n); }
		NurbsCurve a, b; s.build(a); r.build(b); NurbsSurface ns; used(ns, (w1 + w2 + cl) % 4); bool ok = NurbsRuled().create_ruled(a, b, ns); c.step(); MC_CHECK(c, ok, "ruled-result", "returned false"); data_ok(c, ns); if (c.failed_current()) return;
		for (double t : probes(s.U, 2)) { V e = s.eval(t), f = r.eval(t); double last = -1; for (double w : { 0.,0.25,0.5,0.875,1. }) { Point3 q; ns.evaluate(t, w, q); c.step(); V d = f - e, g = v(q) - e; double l = dot(d, d), al = l ? dot(g, d) / l : 0; if ((w == 0 && len(g) > 1e-9 * 20) || (w == 1 && len(v(q) - f) > 1e-9 * 20) || len(g - d * al) > 1e-8 * 20 || !(al > last - 1e-9) || al < -1e-9 || al > 1 + 1e-9) { c.fail("ruled-weights", S() << "at " << t << "," << w << ": " << str(q) << " between " << str(e) << " and " << str(f)); return; } last = al; c.obsp(q); } } });
	c.section("revolve", "the same curves revolved about z: every section is the profile rotated, 4 output histories");
	for (size_t k = 0; k < cs.size(); k++) for (int u = 0; u < 4; u++) {
		c.test([&, k, u] { return S() << cs[k].text() << " output history " << u; }, [&, k, u] {
			const CurveSpec& s = cs[k]; NurbsCurve nc; s.build(nc); NurbsSurface ns; used(ns, u); bool ok = NurbsRevolve().revolve(nc, ns); c.step(); MC_CHECK(c, ok, "revolve-result", "returned false"); data_ok(c, ns); if (c.failed_current()) return;
			bool closed = len(s.pt[0] - s.pt.back()) < 1e-6; MC_CHECK(c, ns.is_closed_u() && ns.is_closed_v() == closed, "revolve-closed", "closed flags " << ns.is_closed_u() << ns.is_closed_v() << ", profile closed=" << closed);
			auto T = few(probes(s.U, 1), c.bound(9, 40)); std::vector<V> prof; for (double t : T) prof.push_back(s.eval(t));
			// the rotation of each section is read from the profile point farthest from the axis
			size_t far = 0; auto rad = [](const V& q) { return std::hypot(q.x, q.y); }; for (size_t i = 0; i < T.size(); i++) if (rad(prof[i]) > rad(prof[far])) far = i;
			if (rad(prof[far]) < 1e-3) return;
			double last = 0, total = 0; int NU = 48; double scale = 0; for (auto& q : prof) scale = std::max(scale, len(q));
			for (int i = 0; i <= NU; i++) {
				double uu = i / (double)NU; Point3 q; ns.evaluate(uu, T[far], q); double a = std::atan2(q.y(), q.x()) - std::atan2(prof[far].y, prof[far].x), st = a - last; while (st > M_PI) st -= 2 * M_PI; while (st < -M_PI) st += 2 * M_PI; last = a;
				if (i) { if (!(total == 0 || (st > 0) == (total > 0)) || std::fabs(st) < 1e-3) { c.fail("revolve-monotone", S() << "section " << uu << " turns by " << st << " after " << total); return; } total += st; }
				else if (std::fabs(st) > 1e-9) { c.fail("revolve-start", S() << "the first section is rotated by " << st); return; }
				double ca = std::cos(a), sa = std::sin(a);
				for (size_t j = 0; j < T.size(); j++) { Point3 p; ns.evaluate(uu, T[j], p); c.step(); V e = { prof[j].x * ca - prof[j].y * sa,prof[j].x * sa + prof[j].y * ca,prof[j].z }; if (len(v(p) - e) > 1e-9 * (1 + scale)) { c.fail("revolve-point", S() << "at " << uu << "," << T[j] << ": " << str(p) << " expected the profile point rotated " << str(e)); return; } if (i % 8 == 0) c.obsp(p); }
			}
			MC_CHECK(c, near(std::fabs(total), 2 * M_PI), "revolve-full", "the sections turn by " << total << " in all");
		});
	}
	c.section("chains", "sweeps of curves after histories of setters, insertions and elevations, into one reused surface");
	sequences(5, c.bound(4, 5), [&](const std::vector<int>& h) {
		c.test([&] { S s; s << "operations (0 insert knot 0.3, 1 elevate, 2 extrude, 3 revolve, 4 rule with itself lifted)"; for (int x : h) s << " " << x; return s.str(); }, [&] {
			CurveSpec s = make_curve(2, { 1,1 }, 1, 4, 2); NurbsCurve nc; s.build(nc); NurbsSurface ns; Point3 p;
			for (int x : h) {
				if (x == 0) { int m = 0; for (double k : nc.knots()) m += std::fabs(k - 0.3) < 1e-12; if (m < nc.degree()) nc.insert_knot(0.3); } else if (x == 1) nc.degree_elevation();
				else if (x == 2) NurbsExtrude().extrude(nc, Point3(1, 2, 3), ns); else if (x == 3) NurbsRevolve().revolve(nc, ns); else { NurbsCurve b = nc; for (auto& q : b.points()) q = q + Point3(0, 0, 2); NurbsRuled().create_ruled(nc, b, ns); }
				c.step(); if (x < 2) continue; data_ok(c, ns); if (c.failed_current()) return;
				for (int i = 0; i <= 10; i++) { V e = s.eval(i / 10.); if (x == 3) { ns.evaluate(0.125, i / 10., p); if (!near(std::hypot(p.x(), p.y()), std::hypot(e.x, e.y), 1e-8) || !near(p.z(), e.z, 1e-8)) { c.fail("chain", S() << "revolved point " << str(p) << " profile " << str(e)); return; } } else { ns.evaluate(i / 10., 0.5, p); V f = e + (x == 2 ? V{ 0.5,1,1.5 } : V{ 0,0,1 }); if (!near(p, f, 1e-8)) { c.fail("chain", S() << str(p) << " expected " << str(f)); return; } } c.obsp(p); }
			}
		});
	});
	// every sweep of one curve, compared relatively to the size of what is swept; sections: how many to look at
	auto sweeps = [&](const CurveSpec& s, const V& dir, int u, int sections, bool flags, const std::vector<double>& T) {
		NurbsCurve nc; s.build(nc, u % 2); double sc = maxc(s.pt) * 3; bool closed = s.pt[0].x == s.pt.back().x && s.pt[0].y == s.pt.back().y && s.pt[0].z == s.pt.back().z; Point3 p;
		std::vector<V> prof; for (double t : T) prof.push_back(s.eval(t)); size_t far = 0; auto rad = [](const V& q) { return std::hypot(q.x, q.y); }; for (size_t i = 0; i < T.size(); i++) if (rad(prof[i]) > rad(prof[far])) far = i;
		{ NurbsSurface ns; used(ns, u); bool ok = NurbsExtrude().extrude(nc, P(dir), ns); c.step(); MC_CHECK(c, ok, "extrude-result", "returned false"); data_ok(c, ns); if (c.failed_current()) return; if (flags) MC_CHECK(c, ns.is_closed_u() == closed && !ns.is_closed_v(), "extrude-closed", "closed flags " << ns.is_closed_u() << ns.is_closed_v() << " for a curve closed=" << closed);
			for (size_t i = 0; i < T.size(); i++) for (double w : { 0.,0.375,1. }) { ns.evaluate(T[i], w, p); c.step(); V x = prof[i] + dir * w; if (!nearx(p, x, sc + len(dir))) { c.fail("extrude-point", S() << "at " << T[i] << "," << w << ": " << str(p) << " expected " << str(x)); return; } c.obsp(p); } }
		for (int up = 0; up < 2; up++) { CurveSpec r = s; for (auto& q : r.pt) q = up ? q + dir : V{ q.y * 2,q.z,q.x * 0.5 }; NurbsCurve b; r.build(b); NurbsSurface ns; used(ns, u); bool ok = NurbsRuled().create_ruled(nc, b, ns); c.step(); MC_CHECK(c, ok, "ruled-result", "returned false"); data_ok(c, ns); if (c.failed_current()) return; if (flags) MC_CHECK(c, ns.is_closed_u() == closed && !ns.is_closed_v(), "ruled-closed", "closed flags " << ns.is_closed_u() << ns.is_closed_v() << ", curves closed=" << closed);
			for (size_t i = 0; i < T.size(); i++) for (double w : { 0.,0.375,1. }) { ns.evaluate(T[i], w, p); c.step(); V x = prof[i] * (1 - w) + r.eval(T[i]) * w; if (!nearx(p, x, 2 * sc + len(dir))) { c.fail("ruled-point", S() << "at " << T[i] << "," << w << ": " << str(p) << " expected " << str(x)); return; } } }
		{ NurbsSurface ns; used(ns, u); bool ok = NurbsRevolve().revolve(nc, ns); c.step(); MC_CHECK(c, ok, "revolve-result", "returned false"); data_ok(c, ns); if (c.failed_current()) return; if (flags) MC_CHECK(c, ns.is_closed_u() && ns.is_closed_v() == closed, "revolve-closed", "closed flags " << ns.is_closed_u() << ns.is_closed_v() << ", profile closed=" << closed);
			if (rad(prof[far]) < 1e-3 * sc) return; double last = 0, total = 0;
			for (int i = 0; i <= sections; i++) {
				double uu = i / (double)sections; Point3 q; ns.evaluate(uu, T[far], q); double a = std::atan2(q.y(), q.x()) - std::atan2(prof[far].y, prof[far].x), st = a - last; while (st > M_PI) st -= 2 * M_PI; while (st < -M_PI) st += 2 * M_PI; last = a;
				if (i) { if (!(total == 0 || (st > 0) == (total > 0)) || std::fabs(st) < 1e-3) { c.fail("revolve-monotone", S() << "section " << uu << " turns by " << st << " after " << total); return; } total += st; } else if (std::fabs(st) > 1e-6) { c.fail("revolve-start", S() << "the first section is rotated by " << st); return; }
				double ca = std::cos(a), sa = std::sin(a); for (size_t j = 0; j < T.size(); j++) { ns.evaluate(uu, T[j], p); c.step(); V e = { prof[j].x * ca - prof[j].y * sa,prof[j].x * sa + prof[j].y * ca,prof[j].z }; if (!nearx(p, e, 2 * sc)) { c.fail("revolve-point", S() << "at " << uu << "," << T[j] << ": " << str(p) << " expected the profile point rotated " << str(e)); return; } c.obsp(p); }
			}
			MC_CHECK(c, near(std::fabs(total), 2 * M_PI, 1e-7), "revolve-full", "the sections turn by " << total << " in all"); }
	};
	c.section("nearly closed", "curves whose ends differ in one coordinate only, by every power of ten from 10 to 10^-4, both signs, or not at all; degree 1 to 3");
	for (int p = 1; p <= 3; p++) for (int ax = 0; ax < 3; ax++) for (int e = -6; e <= 6; e++) c.test([&] { return (S() << "degree " << p << " axis " << ax << " gap " << e).str(); }, [&] {
		CurveSpec s = make_curve(p, { 1,1 }, 1, e & 1 ? 4 : 0, 2); double d = e ? (e < 0 ? -1 : 1) * std::pow(10., 2 - std::abs(e)) : 0; s.pt.back() = s.pt[0]; (ax == 0 ? s.pt.back().x : ax == 1 ? s.pt.back().y : s.pt.back().z) += d; sweeps(s, { 0.5,1,-2 }, std::abs(e) % 4, 12, true, { 0,0.5,1 });
	});
	c.section("near unit weights", "all weights, or one of them, beside one by every power of two to 2^-50, both signs: extrusion, ruled and revolved surfaces to nearly full precision");
	for (int e = -50; e <= -1; e++) for (int sg = -1; sg <= 1; sg += 2) for (int kind = 0; kind < 4; kind++) for (int p = 1; p <= 2; p++) c.test([=] { return S() << "degree " << p << " weights beside one by " << sg << " times 2^" << e << " kind " << kind; }, [&, e, sg, kind, p] {
		double d = 1 + sg * std::ldexp(1., e); CurveSpec s = make_curve(p, { 1,1 }, 1, 0, p); for (size_t i = 0; i < s.w.size(); i++) s.w[i] = kind == 0 || (kind == 1 && i == 1) || (kind == 2 && i % 2) || (kind == 3 && i + 1 == s.w.size()) ? d : 1; CurveSpec r = s; for (auto& q : r.pt) q = q + V{ 1,2,3 }; double sc = 3 * maxc(s.pt) + 3; NurbsCurve a, b; s.build(a); r.build(b); NurbsSurface x, y, z; NurbsExtrude().extrude(a, Point3(1, 2, 3), x); NurbsRuled().create_ruled(a, b, y); NurbsRevolve().revolve(a, z); c.step(3); Point3 q;
		for (double t : probes(s.U, 2)) { V g = s.eval(t); for (double w : { 0.,0.375,1. }) { x.evaluate(t, w, q); V o = g + V{ 1,2,3 } *w; bool ok = nearx(q, o, sc, 2e-14); y.evaluate(t, w, q); ok = ok && nearx(q, o, sc, 2e-14); c.obsp(q); if (!ok) { c.fail("near-unit", S() << "extruded or ruled point at " << t << "," << w << " is off by more than " << 2e-14 * sc); return; } } for (int k = 0; k <= 16; k++) { z.evaluate(k / 16., t, q); c.step(); if (!(std::fabs(std::hypot(q.x(), q.y()) - std::hypot(g.x, g.y)) <= 2e-14 * sc && std::fabs(q.z() - g.z) <= 2e-14 * sc)) { c.fail("near-unit", S() << "revolved point at " << k / 16. << "," << t << " is " << str(q) << ", the profile point " << str(g)); return; } } } });
	c.section("large", "every degree to 8 with numbers of points up to a ladder's end");
	for (int p = 1; p <= 8; p++) for (int n : ladder(p + 1, c.bound(p < 4 ? 512 : 64, p < 4 ? 4096 : 512))) for (int w = 0; w < 2; w++) c.test([&] { return (S() << "degree " << p << " with " << n << " points, weight pattern " << w).str(); }, [&] {
		CurveSpec s = make_curve(p, std::vector<int>(n - p - 1, 1), 1, w, 1); s.normalise(); std::vector<double> T; for (int i = 0; i <= 12; i++) T.push_back(i / 12.); sweeps(s, { 0.5,1,-2 }, n % 4, 12, true, T);
	});
	c.section("magnitudes", "curves and directions of every power of two, all weights and one weight of every power of two");
	for (int k = -100; k <= 100; k += c.bound(5, 1)) for (int v = 0; v < 5; v++) for (int cl = 0; cl < 2; cl++) c.test([&] { return (S() << "variant " << v << " 2^" << k << (cl ? " closed" : "")).str(); }, [&] {
		double f = std::ldexp(1., k); CurveSpec s = make_curve(2, { 1,1 }, 1, 4, 2); if (cl) s.pt.back() = s.pt[0]; V dir = { 0.5,1,-2 };
		if (v == 0 || v == 1) for (auto& q : s.pt) q = q * f; if (v == 0 || v == 2) dir = dir * f; if (v == 3) for (auto& w : s.w) w *= f; if (v == 4) s.w[2] *= std::ldexp(1., k / 10);
		sweeps(s, dir, std::abs(k) % 4, 8, k >= 0 || v > 1, { 0,0.1,0.25,0.5,0.6,0.9,1 });
	});
}
