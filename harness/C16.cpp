// C16: every sequence of knot insertions leaves the curve / surface unchanged.
#include "nurbs.hpp"

namespace {
// candidate values: existing interior knots, the middle of spans, and points near knots
std::vector<double> candidates(const std::vector<double>& U, bool rich)
{
	std::set<double> s; std::vector<double> k; double a = U.front(), b = U.back();
	for (double x : U) { double y = (x - a) / (b - a); if (k.empty() || k.back() != y) k.push_back(y); }
	for (size_t i = 0; i + 1 < k.size(); i++) { s.insert((k[i] + k[i + 1]) / 2); if (i) s.insert(k[i]); if (rich || i == 0) s.insert(k[i] + (k[i + 1] - k[i]) * 0.125); if (rich || i + 2 == k.size()) s.insert(k[i] + (k[i + 1] - k[i]) * 0.9375); }
	return std::vector<double>(s.begin(), s.end());
}
int multiplicity(const std::vector<double>& U, double u) { int n = 0; for (double x : U) if (std::fabs(x - u) < 1e-12) n++; return n; }
std::string knots_ok(std::vector<double> before, const std::vector<double>& after, double u)
{
	before.push_back(u); std::sort(before.begin(), before.end());
	if (before.size() != after.size()) return S() << "knot count " << after.size() << ", expected " << before.size();
	for (size_t i = 0; i < after.size(); i++) if (!near(before[i], after[i], 1e-12)) return S() << "knot " << i << " is " << after[i] << ", expected " << before[i];
	return "";
}
}
void run(mc::Ctx& c)
{
	int P = c.bound(4, 5), M = c.bound(3, 4), D = c.bound(3, 4);
	c.section("curves", S() << "degree 1.." << P << ", up to " << M << " interior knots in every composition, 2 spacings, 4 weight patterns, every sequence of " << D << " insertions (2 from the richest curves) of existing and new values, multiplicity up to the degree");
	for (int p = 1; p <= P; p++) for (int m = 0; m <= M; m++) for (auto& mult : compositions(m, p)) for (int sp = 0; sp < 2; sp++) for (int w : { 0, 1, 4, 5 }) {
		CurveSpec s = make_curve(p, mult, sp, w, p); s.normalise();
		auto cand = candidates(s.U, m <= 1);
		int depth = m >= 3 ? std::min(D, 2) : D;
		sequences((int)cand.size(), depth, [&](const std::vector<int>& q) {
			c.test([=] { S d; d << s.text() << "; insert"; for (int i : q) d << " " << cand[i]; return d.str(); }, [&, s, q, cand] {
				NurbsCurve n; s.build(n); uint64_t h = 3;
				Point3 dummy; n.evaluate(0.4, dummy);
				for (size_t k = 0; k < q.size(); k++) {
					double u = cand[q[k]];
					auto U0 = n.knots(); int np = n.nb_points();
					if (multiplicity(U0, u) >= s.p) return; // full multiplicity reached
					n.insert_knot(u); c.step();
					MC_CHECK(c, n.degree() == s.p && n.nb_points() == np + 1 && (int)n.weights().size() == np + 1 && (int)n.points().size() == np + 1, "curve-counts", "after inserting " << u << ": degree " << n.degree() << " points " << n.nb_points() << " weights " << n.weights().size());
					std::string e = knots_ok(U0, n.knots(), u);
					MC_CHECK(c, e.empty(), "curve-knots", "after inserting " << u << ": " << e);
					for (double x : n.weights()) MC_CHECK(c, x > 0, "curve-weights", "weight " << x);
					if (c.failed_current()) return;
					if (k + 1 < q.size() && q.size() > 2) continue; // prefixes are covered by shorter checks below
					for (double t : probes(n.knots(), 1)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); if (!near(a, b, 1e-8)) { c.fail("curve-shape", S() << "after inserting " << u << ", point at " << t << " is " << str(a) << ", was " << str(b)); return; } }
				}
				for (double x : n.knots()) h = mc::mix(h, (uint64_t)(int64_t)(x * 1e6)); h = mc::mix(h, s.p * 100 + (int)(n.weights()[1] * 1000)); c.state(h);
				});
			});
	}
	// evaluation after every prefix, long runs
	c.section("long", "degree 1..5: 12 insertions in ascending, descending and inside-out order of distinct and repeated values, checked after each");
	for (int p = 1; p <= 5; p++) for (int ord = 0; ord < 4; ord++) for (int w = 0; w < NB_WEIGHT_PATTERNS; w++) for (int m = 0; m < 3; m++)
		c.test([=] { return S() << "degree " << p << " order " << ord << " weights " << w << " interior knots " << m; }, [&, p, ord, w, m] {
			CurveSpec s = make_curve(p, std::vector<int>(m, 1), 1, w, 2); s.normalise(); NurbsCurve n; s.build(n, 1);
			std::vector<double> us; for (int i = 0; i < 12; i++) { int k = ord == 0 ? i : ord == 1 ? 11 - i : ord == 2 ? (i * 5) % 12 : i / std::min(p, 3); us.push_back((k + 0.5) / 12.7); }
			for (double u : us) {
				if (multiplicity(n.knots(), u) >= p) continue;
				auto U0 = n.knots(); n.insert_knot(u); c.step(); std::string e = knots_ok(U0, n.knots(), u); MC_CHECK(c, e.empty(), "curve-knots", e);
				for (double t : probes(n.knots(), 1)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); if (!near(a, b, 1e-8)) { c.fail("curve-shape", S() << "after inserting " << u << " (long run), point at " << t << " is " << str(a) << ", was " << str(b)); return; } }
				c.obs(u); 
			}
			});
	c.section("many insertions", "degree 1..9: hundreds of insertions spread over the domain or into one span, checked at every power of two");
	for (int p = 1; p <= 9; p++) for (int ord = 0; ord < 4; ord++) for (int w : { 0,4,5 }) c.test([=] { return S() << "degree " << p << " order " << ord << " weights " << w; }, [&, p, ord, w] {
		CurveSpec s = make_curve(p, std::vector<int>(2, 1), 1, w, 2); s.normalise(); NurbsCurve n; s.build(n, 1); double sc = maxc(s.pt); int N = p > 5 ? 66 : c.bound(260, 1030);
		for (int i = 0; i < N; i++) {
			double u = ord == 0 ? (i + 0.5) / N : ord == 1 ? 1 - (i + 0.5) / N : ord == 2 ? std::fmod((i + 1) * 0.6180339887498949, 1.) : 0.5 + (i % 2 ? 0.001 : -0.001) * (i + 1) / N; bool chk = i < 3 || (i & (i - 1)) == 0 || (i & (i + 1)) == 0 || i == N - 1;
			auto U0 = n.knots(); n.insert_knot(u); c.step(); std::string e = knots_ok(U0, n.knots(), u); MC_CHECK(c, e.empty() && n.nb_points() == (int)s.pt.size() + i + 1 && (int)n.weights().size() == n.nb_points(), "curve-knots", "insertion " << i << ": " << e); if (c.failed_current()) return; if (!chk) continue;
			for (double t : probes(s.U, 5)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); if (!nearx(a, b, sc, 1e-8)) { c.fail("curve-shape", S() << "after insertion " << i << " of " << u << ", point at " << t << " is " << str(a) << ", was " << str(b)); return; } }
			c.obs(u + p);
		}
	});
	c.section("magnitudes", "coordinates, weights and weight ratios of every power of two from 2^-60 to 2^60, curves and surfaces");
	for (int e = -60; e <= 60; e += c.bound(2, 1)) for (int kind = 0; kind < 3; kind++) for (int p = 1; p <= 4; p++) c.test([=] { return S() << "degree " << p << (kind == 0 ? " coordinates" : kind == 1 ? " weights" : " one weight") << " 2^" << e; }, [&, e, kind, p] {
		double z = std::ldexp(1., e); CurveSpec s = make_curve(p, { 1,1 }, 1, 4, p); s.normalise(); if (kind == 0) for (auto& q : s.pt) q = q * z; if (kind == 1) for (auto& q : s.w) q *= z; if (kind == 2) s.w[1] = std::max(std::min(z, 65536.), 1 / 65536.); NurbsCurve n; s.build(n); double sc = maxc(s.pt);
		SurfSpec f = make_surf(p, 2, { 1 }, { 1 }, 1, 4); { double b = f.U.back(); for (auto& x : f.U) x /= b; b = f.W_.back(); for (auto& x : f.W_) x /= b; } if (kind == 0) for (auto& q : f.pt) q = q * z; if (kind == 1) for (auto& q : f.w) q *= z; if (kind == 2) f.w[f.nu + 1] = std::max(std::min(z, 65536.), 1 / 65536.); NurbsSurface m; f.build(m); double sf = maxc(f.pt);
		for (double u : { 0.3,0.7,0.31 }) { n.insert_knot(u); m.insert_knot_u(u); m.insert_knot_v(1 - u); c.step(3); }
		for (double t : probes(s.U, 3)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); c.obsp(a); if (!nearx(a, b, sc, 1e-8)) { c.fail("curve-shape", S() << "point at " << t << " is " << str(a) << ", was " << str(b)); return; } }
		for (double t : probes(f.U, 1)) for (double r : probes(f.W_, 1)) { Point3 a; m.evaluate(t, r, a); V b = f.eval(t, r); if (!nearx(a, b, sf, 1e-8)) { c.fail("surface-shape", S() << "point at (" << t << "," << r << ") is " << str(a) << ", was " << str(b)); return; } }
	});
	c.section("near unit weights", "all weights, or one of them, beside one by every power of two to 2^-50, both signs, in front of large coordinates: the shape holds to nearly full precision");
	for (int e = -50; e <= -1; e++) for (int sg = -1; sg <= 1; sg += 2) for (int kind = 0; kind < 4; kind++) for (int p = 1; p <= 3; p++) c.test([=] { return S() << "degree " << p << " weights beside one by " << sg << " times 2^" << e << " kind " << kind; }, [&, e, sg, kind, p] {
		double d = 1 + sg * std::ldexp(1., e); auto ww = [&](std::vector<double>& w) { for (size_t i = 0; i < w.size(); i++) w[i] = kind == 0 || (kind == 1 && i == 1) || (kind == 2 && i % 2) || (kind == 3 && i + 1 == w.size()) ? d : 1; };
		CurveSpec s = make_curve(p, { 1,1 }, 1, 0, p); s.normalise(); ww(s.w); SurfSpec f = make_surf(p, 2, { 1 }, { 1 }, 1, 0); { double b = f.U.back(); for (auto& x : f.U) x /= b; b = f.W_.back(); for (auto& x : f.W_) x /= b; } ww(f.w); NurbsCurve n; s.build(n); NurbsSurface m; f.build(m); double sc = maxc(s.pt), sf = maxc(f.pt);
		for (double u : { 0.3,0.7,0.31 }) { n.insert_knot(u); m.insert_knot_u(u); m.insert_knot_v(1 - u); c.step(3); }
		for (double t : probes(s.U, 3)) { Point3 a; n.evaluate(t, a); V b = s.eval(t); c.obsp(a); if (!nearx(a, b, sc, 3e-14)) { c.fail("near-unit", S() << "point at " << t << " is " << str(a) << ", off by " << len(v(a) - b)); return; } }
		for (double t : probes(f.U, 1)) for (double r : probes(f.W_, 1)) { Point3 a; m.evaluate(t, r, a); V b = f.eval(t, r); if (!nearx(a, b, sf, 1e-13)) { c.fail("near-unit", S() << "surface point at (" << t << "," << r << ") is " << str(a) << ", off by " << len(v(a) - b)); return; } } });
	c.section("near knots", "values beside an existing interior or end knot, or beside each other, by every power of two to 2^-40: each is its own knot and the shape holds");
	for (int e = -40; e <= -3; e++) for (int where = 0; where < 4; where++) for (int p = 1; p <= 5; p++) for (int w : { 0,4 }) c.test([=] { return S() << "degree " << p << " beside by 2^" << e << " place " << where << " weights " << w; }, [&, e, where, p, w] {
		double d = std::ldexp(1., e); CurveSpec s = make_curve(p, { 1 }, 0, w, p); s.normalise(); NurbsCurve n; s.build(n); double sc = maxc(s.pt); SurfSpec f = make_surf(p, p, { 1 }, { 1 }, 0, w); { double b = f.U.back(); for (auto& x : f.U) x /= b; b = f.W_.back(); for (auto& x : f.W_) x /= b; } NurbsSurface m; f.build(m); double kv = f.W_[p + 1];
		std::vector<double> us = where == 0 ? std::vector<double>{ 0.5 + d,0.5 - d } : where == 1 ? std::vector<double>{ d,1 - d } : where == 2 ? std::vector<double>{ 0.25,0.25 + d,0.25 - d } : std::vector<double>{ 0.5 + d,0.5 + d / 2,0.5 + d / 4 };
		for (double u : us) { auto U0 = n.knots(); n.insert_knot(u); c.step(); std::string x = knots_ok(U0, n.knots(), u); MC_CHECK(c, x.empty() && n.nb_points() == (int)n.weights().size() && n.nb_points() + p + 1 == (int)n.knots().size(), "near-knots", "inserting " << u << ": " << x); m.insert_knot_u(u); double vv = where == 1 ? u : where == 2 ? u * 0.5 : u + (kv - 0.5); m.insert_knot_v(vv); c.step(2); }
		if (c.failed_current()) return; std::vector<double> T = probes(s.U, 3); for (double u : us) { T.push_back(u); T.push_back((u + 0.5) / 2); T.push_back(std::min(1., u + d / 8)); }
		for (double t : T) { Point3 a; n.evaluate(t, a); V b = s.eval(t); c.obsp(a); if (!nearx(a, b, sc, 1e-9)) { c.fail("near-knots", S() << "point at " << t << " is " << str(a) << ", was " << str(b)); return; } m.evaluate(t, 1 - t, a); b = f.eval(t, 1 - t); if (!nearx(a, b, maxc(f.pt), 1e-9)) { c.fail("near-knots", S() << "surface point at " << t << " is " << str(a) << ", was " << str(b)); return; } } });
	c.section("large surfaces", "nets with one side beside every power of two, both ways around, degrees to 6: insertions in both directions");
	for (int n : ladder(4, c.bound(129, 513))) for (int d = 0; d < 2; d++) for (int p : { 1,3,6 }) { if (n < p + 1 || (p == 6 && n > 40)) continue; c.test([=] { return S() << "net " << (d ? 3 : n) << "x" << (d ? n : 3) << " degree " << p; }, [&, n, d, p] {
		std::vector<int> m(n - p - 1, 1); SurfSpec s = d ? make_surf(2, p, {}, m, 0, 4) : make_surf(p, 2, m, {}, 0, 4); { double b = s.U.back(); for (auto& x : s.U) x /= b; b = s.W_.back(); for (auto& x : s.W_) x /= b; } NurbsSurface f; s.build(f); double sc = maxc(s.pt); f.insert_knot_u(0.377); f.insert_knot_v(0.613); f.insert_knot_v(0.05); c.step(3);
		MC_CHECK(c, f.nb_points_u() == s.nu + 1 && f.nb_points_v() == s.nv + 2, "surface-counts", "net is " << f.nb_points_u() << "x" << f.nb_points_v()); for (int i = 0; i <= 40; i++) for (int j = 0; j <= 8; j++) { double t = d ? j / 8. : i / 40., r = d ? i / 40. : j / 8.; Point3 a; f.evaluate(t, r, a); V b = s.eval(t, r); c.obsp(a); if (!nearx(a, b, sc, 1e-8)) { c.fail("surface-shape", S() << "point at (" << t << "," << r << ") is " << str(a) << ", was " << str(b)); return; } }
	}); }
	int SP = c.bound(3, 3), SM = c.bound(1, 2), SD = c.bound(2, 3);
	c.section("surfaces", S() << "degrees 1.." << SP << ", up to " << SM << " interior knots per direction, 3 weight patterns, every sequence of " << SD << " insertions in u or v");
	for (int a = 1; a <= SP; a++) for (int b = 1; b <= SP; b++) for (int m = 0; m <= SM; m++) for (int k = 0; k <= SM; k++) for (auto& mu : compositions(m, a)) for (auto& mv : compositions(k, b)) for (int w : { 0, 1, 5 }) {
		SurfSpec s = make_surf(a, b, mu, mv, w % 2, w); { double e = s.U.back(); for (auto& x : s.U) x /= e; e = s.W_.back(); for (auto& x : s.W_) x /= e; }
		auto cu = candidates(s.U, false), cv = candidates(s.W_, false); int nu = (int)cu.size(), nv = (int)cv.size();
		sequences(nu + nv, SD, [&](const std::vector<int>& q) {
			c.test([=] { S d; d << s.text() << "; insert"; for (int i : q) d << (i < nu ? " u=" : " v=") << (i < nu ? cu[i] : cv[i - nu]); return d.str(); }, [&, s, q, cu, cv, nu] {
				int fl = (int)q.size() + s.nu + s.nv; for (int i : q) fl += i; NurbsSurface n; s.build(n); n.set_closed_u(fl & 1); n.set_closed_v(fl & 2);
				for (int i : q) {
					bool isU = i < nu; double x = isU ? cu[i] : cv[i - nu];
					auto U0 = n.knots_u(), V0 = n.knots_v(); int pu = n.nb_points_u(), pv = n.nb_points_v();
					if (multiplicity(isU ? U0 : V0, x) >= (isU ? s.pu : s.pv)) return;
					if (isU) n.insert_knot_u(x); else n.insert_knot_v(x); c.step();
					MC_CHECK(c, n.degree_u() == s.pu && n.degree_v() == s.pv && n.is_closed_u() == bool(fl & 1) && n.is_closed_v() == bool(fl & 2), "surface-degree", "degrees or closed flags changed");
					MC_CHECK(c, n.nb_points_u() == pu + isU && n.nb_points_v() == pv + !isU && (int)n.points().size() == n.nb_points_u() * n.nb_points_v() && n.weights().size() == n.points().size(), "surface-counts", "net is " << n.nb_points_u() << "x" << n.nb_points_v() << " with " << n.points().size() << " points, was " << pu << "x" << pv);
					std::string e = isU ? knots_ok(U0, n.knots_u(), x) : knots_ok(V0, n.knots_v(), x); MC_CHECK(c, e.empty(), "surface-knots", e);
					MC_CHECK(c, isU ? n.knots_v() == V0 : n.knots_u() == U0, "surface-other-knots", "the other direction's knots changed");
					if (c.failed_current()) return;
				}
				auto U1 = probes(n.knots_u(), 1), V1 = probes(n.knots_v(), 1);
				for (double t : U1) for (double r : V1) { Point3 p; n.evaluate(t, r, p); V e = s.eval(t, r); if (!near(p, e, 1e-8)) { c.fail("surface-shape", S() << "point at (" << t << "," << r << ") is " << str(p) << ", was " << str(e)); return; } c.step(); }
				uint64_t h = mc::mix(s.pu, s.pv); for (double x : n.knots_u()) h = mc::mix(h, (uint64_t)(int64_t)(x * 1e6)); for (double x : n.knots_v()) h = mc::mix(h, (uint64_t)(int64_t)(x * 1e6)); c.state(h);
				});
			});
	}
}
