// C17: degree elevation, alone and interleaved with knot insertion, leaves the curve / surface unchanged.
#include "nurbs.hpp"

namespace {
int multiplicity(const std::vector<double>& U, double u) { int n = 0; for (double x : U) if (std::fabs(x - u) < 1e-12) n++; return n; }
std::string consistent(const NurbsCurve& n, int p)
{
	if (n.degree() != p) return S() << "degree is " << n.degree() << ", expected " << p;
	if (n.weights().size() != n.points().size()) return S() << n.points().size() << " points but " << n.weights().size() << " weights";
	if (n.knots().size() != n.points().size() + p + 1) return S() << n.knots().size() << " knots for " << n.points().size() << " points of degree " << p;
	for (size_t i = 0; i + 1 < n.knots().size(); i++) if (n.knots()[i] > n.knots()[i + 1]) return "knots decrease";
	for (double w : n.weights()) if (!(w > 0)) return S() << "weight " << w;
	return "";
}
}
void run(mc::Ctx& c)
{
	int M = c.bound(4, 5);
	c.section("curves", S() << "degree 1..4, up to " << M << " interior knots in every composition, 2 spacings, 6 weight patterns: elevated repeatedly until refused");
	for (int p = 1; p <= 4; p++) for (int m = 0; m <= M; m++) for (auto& mult : compositions(m, p)) for (int sp = 0; sp < 2; sp++) for (int w = 0; w < NB_WEIGHT_PATTERNS; w++) {
		CurveSpec s = make_curve(p, mult, sp, w, m); s.normalise();
		c.test([=] { return s.text() + "; elevate until refused"; }, [&, s] {
			NurbsCurve n; s.build(n); int p = s.p;
			for (int k = 0; k < 4; k++) {
				NurbsCurve before = n; bool ok = n.degree_elevation(); c.step(); c.obs(ok);
				if (!ok) {
					MC_CHECK(c, n.degree() == before.degree() && n.knots() == before.knots() && n.weights() == before.weights() && n.points().size() == before.points().size(), "refused-but-changed", "elevation of degree " << p << " refused, data changed");
					for (size_t i = 0; i < n.points().size(); i++) MC_CHECK(c, same(n.points()[i], before.points()[i]), "refused-but-changed", "point " << i);
					break;
				}
				p++; std::string e = consistent(n, p);
				if (!e.empty()) { c.fail("curve-consistent", S() << "after elevation to " << p << ": " << e); return; }
				for (double t : probes(n.knots(), 2)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); c.step(); c.obsp(a); if (!near(a, b, 1e-8)) { c.fail("curve-shape", S() << "after elevation to degree " << p << " point at " << t << " is " << str(a) << ", was " << str(b)); return; } }
			}
			MC_CHECK(c, s.p > 2 || p > s.p, "supported-degree", "degree " << s.p << " was refused");
			});
	}
	c.section("near unit weights", "all weights, or one of them, beside one by every power of two to 2^-50, both signs: elevation, alone and between insertions, keeps the shape to nearly full precision");
	for (int e = -50; e <= -1; e++) for (int sg = -1; sg <= 1; sg += 2) for (int kind = 0; kind < 4; kind++) for (int p = 1; p <= 2; p++) for (int ins = 0; ins < 3; ins++) c.test([=] { return S() << "degree " << p << " weights beside one by " << sg << " times 2^" << e << " kind " << kind << " insertions " << ins; }, [&, e, sg, kind, p, ins] {
		double d = 1 + sg * std::ldexp(1., e); auto ww = [&](std::vector<double>& w) { for (size_t i = 0; i < w.size(); i++) w[i] = kind == 0 || (kind == 1 && i == 1) || (kind == 2 && i % 2) || (kind == 3 && i + 1 == w.size()) ? d : 1; };
		CurveSpec s = make_curve(p, { 1,1 }, 1, 0, p); s.normalise(); ww(s.w); SurfSpec f = make_surf(p, 2, { 1 }, { 1 }, 1, 0); { double b = f.U.back(); for (auto& x : f.U) x /= b; b = f.W_.back(); for (auto& x : f.W_) x /= b; } ww(f.w); NurbsCurve n; s.build(n); NurbsSurface m; f.build(m); double sc = maxc(s.pt), sf = maxc(f.pt);
		if (ins == 1) { n.insert_knot(0.3); m.insert_knot_u(0.3); m.insert_knot_v(0.7); } n.degree_elevation(); m.degree_elevation_u(); m.degree_elevation_v(); if (ins == 2) { n.insert_knot(0.3); m.insert_knot_u(0.3); m.insert_knot_v(0.7); } c.step(3);
		for (double t : probes(s.U, 3)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); c.obsp(a); if (!nearx(a, b, sc, 3e-13)) { c.fail("near-unit", S() << "point at " << t << " is " << str(a) << ", off by " << len(v(a) - b)); return; } }
		for (double t : probes(f.U, 1)) for (double r : probes(f.W_, 1)) { Point3 a; m.evaluate(t, r, a); V b = f.eval(t, r); if (!nearx(a, b, sf, 3e-13)) { c.fail("near-unit", S() << "surface point at (" << t << "," << r << ") is " << str(a) << ", off by " << len(v(a) - b)); return; } } });
	c.section("near knots", "two or three interior knots apart by every power of two to 2^-44, beside the middle, the start or the end, degree 1 and 2 (also after an insertion between), 3 weight patterns, curves and surfaces: distinct knots stay distinct");
	for (int k = 2; k <= 44; k++) for (int place = 0; place < 4; place++) for (int p = 1; p <= 2; p++) for (int w : { 0,4,5 }) c.test([=] { return S() << "degree " << p << " knots apart by 2^-" << k << " place " << place << " weights " << w; }, [&, k, place, p, w] {
		double d = std::ldexp(1., -k); std::vector<double> in = place == 0 ? std::vector<double>{ 0.5,0.5 + d } : place == 1 ? std::vector<double>{ d } : place == 2 ? std::vector<double>{ 1 - d } : std::vector<double>{ 0.25,0.25 + d / 2,0.25 + d };
		CurveSpec s = make_curve(p, std::vector<int>(in.size(), 1), 0, w, 1); std::copy(in.begin(), in.end(), s.U.begin() + p + 1); for (int i = 0; i <= p; i++) s.U[s.U.size() - 1 - i] = 1; NurbsCurve n; s.build(n);
		bool ok = n.degree_elevation(); c.step(); MC_CHECK(c, ok, "supported-degree", "refused"); std::string e = consistent(n, p + 1); if (!e.empty()) { c.fail("near-knots", e); return; }
		int distinct = 0; for (size_t i = 0; i + 1 < n.knots().size(); i++) distinct += n.knots()[i] != n.knots()[i + 1]; MC_CHECK(c, distinct == (int)in.size() + 1, "near-knots", distinct << " spans, expected " << in.size() + 1);
		for (double t : probes(s.U, 3)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); c.obsp(a); if (!near(a, b, 1e-8)) { c.fail("near-knots", S() << "point at " << t << " is " << str(a) << ", was " << str(b)); return; } }
		SurfSpec f = make_surf(p, 2, std::vector<int>(in.size(), 1), { 1 }, 0, w); f.U = s.U; { double b = f.W_.back(); for (auto& x : f.W_) x /= b; } NurbsSurface m; f.build(m); m.degree_elevation_u(); m.degree_elevation_v(); c.step(2);
		MC_CHECK(c, m.degree_u() == p + 1 && m.degree_v() == 3 && (int)m.knots_u().size() == m.nb_points_u() + p + 2 && (int)m.points().size() == m.nb_points_u() * m.nb_points_v(), "near-knots", "surface data after elevation"); if (c.failed_current()) return;
		for (double t : probes(f.U, 1)) for (double r : probes(f.W_, 1)) { Point3 a; m.evaluate(t, r, a); V b = f.eval(t, r); if (!near(a, b, 1e-8)) { c.fail("near-knots", S() << "surface point at (" << t << "," << r << ") is " << str(a) << ", was " << str(b)); return; } } });
	int D = c.bound(5, 6);
	c.section("curve-histories", S() << "degree 1..3, 0..2 interior knots, 3 weight patterns: every sequence of " << D << " operations over {elevate, insert 0.25, insert 0.5, insert 0.7}");
	for (int p = 1; p <= 3; p++) for (int m = 0; m <= 2; m++) for (int w : { 0, 1, 5 })
		sequences(4, D, [&](const std::vector<int>& q) {
			static const double us[] = { 0,0.25,0.5,0.7 };
			CurveSpec s = make_curve(p, std::vector<int>(m, 1), m % 2, w, m); s.normalise();
			c.test([=] { S d; d << s.text() << ";"; for (int i : q) if (i) d << " insert " << us[i] << ";"; else d << " elevate;"; return d.str(); }, [&, s, q] {
				NurbsCurve n; s.build(n); int p = s.p; uint64_t h = 1;
				for (int i : q) {
					if (i == 0) { if (n.degree_elevation()) p++; }
					else if (multiplicity(n.knots(), us[i]) < p) n.insert_knot(us[i]);
					c.step(); std::string e = consistent(n, p);
					if (!e.empty()) { c.fail("curve-consistent", e); return; }
				}
				for (double t : probes(n.knots(), 1)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); if (!near(a, b, 1e-8)) { c.fail("curve-shape", S() << "point at " << t << " is " << str(a) << ", was " << str(b)); return; } }
				for (double x : n.knots()) h = mc::mix(h, (uint64_t)(int64_t)(x * 1e6)); c.state(mc::mix(h, p * 10 + m));
				});
			});
	c.section("many points and magnitudes", "degree 1..2, point counts beside every power of two; coordinates, weights and weight ratios of every power of two; surfaces of both orientations");
	auto lift = [&c](const CurveSpec& s) { NurbsCurve n; s.build(n); double sc = maxc(s.pt); int p = s.p; while (n.degree_elevation()) { c.step(); p++; std::string e = consistent(n, p); if (!e.empty()) { c.fail("curve-consistent", e); return; } auto pr = probes(s.U, 1); size_t st = std::max<size_t>(1, pr.size() / 100); for (size_t i = 0; i < pr.size(); i += st) { Point3 a; n.evaluate(pr[i], a); V b = s.eval(pr[i]); c.obsp(a); if (!nearx(a, b, sc, 1e-8)) { c.fail("curve-shape", S() << "after elevation to " << p << " point at " << pr[i] << " is " << str(a) << ", was " << str(b)); return; } } } MC_CHECK(c, s.p > 2 || p > s.p, "supported-degree", "degree " << s.p << " was refused"); };
	auto lifts = [&c](const SurfSpec& s) { double sc = maxc(s.pt); for (int o = 0; o < 2; o++) { NurbsSurface n; s.build(n); bool a = o ? n.degree_elevation_v() : n.degree_elevation_u(), b = o ? n.degree_elevation_u() : n.degree_elevation_v(); c.step(2); MC_CHECK(c, n.degree_u() == s.pu + (o ? b : a) && n.degree_v() == s.pv + (o ? a : b), "surface-degree", "degrees " << n.degree_u() << "," << n.degree_v()); for (int i = 0; i <= 40; i++) for (int j = 0; j <= 10; j++) { double t = s.nu > s.nv ? i / 40. : j / 10., r = s.nu > s.nv ? j / 10. : i / 40.; Point3 q; n.evaluate(t, r, q); V e = s.eval(t, r); c.obsp(q); if (!nearx(q, e, sc, 1e-8)) { c.fail("surface-shape", S() << "point at (" << t << "," << r << ") is " << str(q) << ", was " << str(e)); return; } } } };
	for (int p = 1; p <= 2; p++) for (int n : ladder(p + 1, c.bound(257, 1025))) for (int w : { 0,4 }) for (int k = 0; k < 3; k++) { if (k && n > c.bound(130, 520)) continue; c.test([=] { return S() << "degree " << p << " points " << n << " weights " << w << (k ? " surface" : " curve"); }, [&, p, n, w, k] { std::vector<int> m(n - p - 1, 1); if (!k) { CurveSpec s = make_curve(p, m, w ? 1 : 0, w, 3); s.normalise(); lift(s); } else if (k == 1) lifts(make_surf(p, 2, m, {}, 0, w)); else lifts(make_surf(2, p, {}, m, 0, w)); }); }
	for (int e = -60; e <= 60; e += c.bound(2, 1)) for (int kind = 0; kind < 3; kind++) for (int p = 1; p <= 2; p++) c.test([=] { return S() << "degree " << p << (kind == 0 ? " coordinates" : kind == 1 ? " weights" : " one weight") << " 2^" << e; }, [&, e, kind, p] { double z = std::ldexp(1., e); CurveSpec s = make_curve(p, { 1,1 }, 1, 4, p); s.normalise(); SurfSpec f = make_surf(p, 1, { 1 }, { 1 }, 1, 4); if (kind == 0) { for (auto& q : s.pt) q = q * z; for (auto& q : f.pt) q = q * z; } if (kind == 1) { for (auto& q : s.w) q *= z; for (auto& q : f.w) q *= z; } if (kind == 2) { z = std::max(std::min(z, 65536.), 1 / 65536.); s.w[1] = z; f.w[2] = z; } lift(s); lifts(f); });
	int SM = c.bound(2, 2), SD = c.bound(3, 4);
	c.section("surfaces", S() << "degrees 1..3, up to " << SM << " interior knots per direction, 3 weight patterns: every sequence of " << SD << " operations over {elevate u, elevate v, insert u, insert v}");
	for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) for (int m = 0; m <= SM; m++) for (int k = 0; k <= SM; k++) for (auto& mu : compositions(m, a)) for (auto& mv : compositions(k, b)) for (int w : { 0, 1, 5 })
		sequences(4, SD, [&](const std::vector<int>& q) {
			SurfSpec s = make_surf(a, b, mu, mv, w % 2, w); { double e = s.U.back(); for (auto& x : s.U) x /= e; e = s.W_.back(); for (auto& x : s.W_) x /= e; }
			static const char* on[] = { "elevate u","elevate v","insert u 0.35","insert v 0.6" };
			c.test([=] { S d; d << s.text() << ";"; for (int i : q) d << " " << on[i] << ";"; return d.str(); }, [&, s, q] {
				int fl = (int)q.size() + s.nu + s.nv; for (int i : q) fl += i; NurbsSurface n; s.build(n); n.set_closed_u(fl & 1); n.set_closed_v(fl & 2); int pu = s.pu, pv = s.pv; uint64_t h = 1;
				for (int i : q) {
					auto U0 = n.knots_u(), V0 = n.knots_v(), W0 = n.weights(); int nu = n.nb_points_u(), nv = n.nb_points_v(); auto P0 = n.points();
					if (i < 2) {
						bool ok = i == 0 ? n.degree_elevation_u() : n.degree_elevation_v();
						if (ok) (i == 0 ? pu : pv)++;
						else MC_CHECK(c, n.knots_u() == U0 && n.knots_v() == V0 && n.weights() == W0 && n.points().size() == P0.size(), "refused-but-changed", on[i]);
						MC_CHECK(c, ok || (i == 0 ? pu : pv) >= 3, "supported-degree", on[i] << " refused");
					}
					else if (i == 2) { if (multiplicity(U0, 0.35) < pu) n.insert_knot_u(0.35); }
					else if (multiplicity(V0, 0.6) < pv) n.insert_knot_v(0.6);
					c.step();
					MC_CHECK(c, n.degree_u() == pu && n.degree_v() == pv, "surface-degree", "degrees are " << n.degree_u() << "," << n.degree_v() << " expected " << pu << "," << pv << " after " << on[i]);
					MC_CHECK(c, i % 2 == 0 ? (n.nb_points_v() == nv && n.knots_v() == V0) : (n.nb_points_u() == nu && n.knots_u() == U0), "surface-other-direction", on[i] << " changed the other direction");
					MC_CHECK(c, (int)n.points().size() == n.nb_points_u() * n.nb_points_v() && n.weights().size() == n.points().size() && (int)n.knots_u().size() == n.nb_points_u() + pu + 1 && (int)n.knots_v().size() == n.nb_points_v() + pv + 1, "surface-consistent", "after " << on[i]);
					MC_CHECK(c, n.is_closed_u() == bool(fl & 1) && n.is_closed_v() == bool(fl & 2), "surface-closed", "closed flags changed");
					if (c.failed_current()) return;
				}
				for (double t : probes(n.knots_u(), 1)) for (double r : probes(n.knots_v(), 1)) { Point3 p; n.evaluate(t, r, p); c.step(); V e = s.eval(t, r); if (!near(p, e, 1e-8)) { c.fail("surface-shape", S() << "point at (" << t << "," << r << ") is " << str(p) << ", was " << str(e)); return; } }
				h = mc::mix(pu, pv); for (double x : n.knots_u()) h = mc::mix(h, (uint64_t)(int64_t)(x * 1e6)); for (double x : n.knots_v()) h = mc::mix(h, (uint64_t)(int64_t)(x * 1e6)); c.state(h);
				});
			});
}
