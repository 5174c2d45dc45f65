// C14: curve evaluation against the Cox-de Boor definition; setter/evaluate histories.
#include "nurbs.hpp"

namespace {
void compare(mc::Ctx& c, const NurbsCurve& n, const CurveSpec& s, const std::string& key, int per = 3)
{
	for (double t : probes(s.U, per)) {
		Point3 p(99, 99, 99); n.evaluate(t, p); c.step();
		V e = s.eval(t);
		c.obsp(p);
		if (!near(p, e)) { c.fail(key, S() << "at t=" << t << " evaluates to " << str(p) << ", definition gives " << str(e)); return; }
	}
}
// the data a curve currently has, as told by its setters
struct Data { int p = 0; std::vector<V> pt; std::vector<double> w, U; };
}

void run(mc::Ctx& c)
{
	// 1. definition
	c.section("definition", S() << "degree 1.." << c.bound(5, 6) << ", up to " << c.bound(4, 6) << " interior knots in every multiplicity composition (multiplicity up to degree+1), 2 spacings, 6 weight patterns, 4 affine knot ranges, 2 setter orders");
	static const double aff[4][2] = { {1,0},{8,-3},{0.0009765625,5},{256,1000} };
	for (int p = 1; p <= c.bound(5, 6); p++)
		for (int m = 0; m <= c.bound(4, 6); m++)
			for (auto& mult : compositions(m, p + 1))
				for (int sp = 0; sp < 2; sp++) for (int w = 0; w < NB_WEIGHT_PATTERNS; w++) for (int af = 0; af < 4; af++) {
					bool jump = false; for (int k : mult) if (k > p) jump = true;
					if (jump && (af || sp)) continue; // discontinuous curves only where knot values are exact
					CurveSpec s = make_curve(p, mult, sp, w, m);
					if (jump) s.normalise();
					CurveSpec b = s; for (auto& k : b.U) k = k * aff[af][0] + aff[af][1];
					c.test([=] { return b.text(); }, [&, b, s, af, jump] {
						NurbsCurve n; b.build(n, af % 2);
						MC_CHECK(c, n.degree() == s.p && n.nb_points() == (int)s.pt.size() && n.points().size() == s.pt.size() && n.weights() == s.w && n.knots().size() == s.U.size(), "getters", "getters do not return what was set");
						CurveSpec nn = s; nn.normalise();
						for (size_t i = 0; i < nn.U.size(); i++) MC_CHECK(c, near(n.knots()[i], nn.U[i]), "knots-normalised", "knot " << i << " is " << n.knots()[i] << ", expected " << nn.U[i]);
						compare(c, n, s, "definition");
						Point3 a, z; n.evaluate(0, a); n.evaluate(1, z);
						MC_CHECK(c, near(a, s.pt.front()) && near(z, s.pt.back()), "end-points", "ends " << str(a) << " " << str(z));
						// backwards and again: earlier evaluations must not matter
						auto pr = probes(s.U, 1); for (int i = (int)pr.size() - 1; i >= 0; i--) { Point3 q; n.evaluate(pr[i], q); MC_CHECK(c, near(q, s.eval(pr[i])), "order-of-evaluation", "t=" << pr[i]); }
						});
				}
	// 2. uniform knots and equal weights setters
	c.section("uniform", "degree 1..5 (and up to 12 with fewer points) x degree+1..degree+25 points and point counts beside every power of two: uniform clamped knots and equal weights");
	for (int p = 1; p <= c.bound(12, 14); p++) for (int n : ladder(p + 1, p > 8 ? 36 : p > 5 ? 65 : c.bound(2049, 16385), p > 5 ? p + 8 : p + 25))
		c.test([=] { return S() << "degree " << p << ", " << n << " points, uniform"; }, [&, p, n] {
			CurveSpec s = make_curve(p, std::vector<int>(n - p - 1, 1), 0, 0); s.normalise(); bool big = n > p + 25;
			std::vector<Point3> q; for (auto& a : s.pt) q.push_back(P(a));
			NurbsCurve k; k.set_degree(p); k.set_points(q); k.set_uniform(); k.set_equals_weights();
			MC_CHECK(c, k.knots().size() == s.U.size(), "uniform-knots", "knot count " << k.knots().size());
			for (size_t i = 0; i < s.U.size() && i < k.knots().size(); i++) MC_CHECK(c, near(k.knots()[i], s.U[i]), "uniform-knots", "knot " << i << " is " << k.knots()[i] << " not " << s.U[i]);
			MC_CHECK(c, k.weights() == s.w, "equal-weights", "weights are not all one");
			if (!c.failed_current() && !big) compare(c, k, s, "uniform", 5);
			if (!c.failed_current() && big) for (int i = 0; i <= 60; i++) { Point3 a; k.evaluate(i / 60., a); V b = s.eval(i / 60.); c.step(); c.obsp(a); if (!nearx(a, b, maxc(s.pt))) { c.fail("uniform", S() << "at " << i / 60. << " is " << str(a) << ", definition gives " << str(b)); return; } }
			});
	c.section("many points", "degree 1..12, point counts beside every power of two: uniform, uneven and repeated knots, weights");
	for (int p = 1; p <= c.bound(12, 14); p++) for (int n : ladder(p + 1, p > 8 ? c.bound(33, 65) : p > 5 ? c.bound(65, 257) : c.bound(513, 4097))) for (int sp = 0; sp < 3; sp++)
		c.test([=] { return S() << "degree " << p << ", " << n << " points, spacing " << sp; }, [&, p, n, sp] {
			std::vector<int> m; int left = n - p - 1; while (left > 0) { int k = sp == 2 ? std::min(left, 1 + (int)m.size() % p) : 1; m.push_back(k); left -= k; }
			CurveSpec s = make_curve(p, m, sp, sp * 2, 1); s.normalise(); double sc = maxc(s.pt); NurbsCurve k; s.build(k, sp == 1); auto pr = probes(s.U, 1); size_t st = std::max<size_t>(1, pr.size() / 120);
			for (size_t i = 0; i < pr.size(); i += st) { Point3 q; k.evaluate(pr[i], q); c.step(); V e = s.eval(pr[i]); c.obsp(q); if (!nearx(q, e, sc)) { c.fail("many", S() << "at t=" << pr[i] << " evaluates to " << str(q) << ", definition gives " << str(e)); return; } }
			Point3 a, z; k.evaluate(0, a); k.evaluate(1, z); MC_CHECK(c, nearx(a, s.pt.front(), sc) && nearx(z, s.pt.back(), sc), "end-points", "ends " << str(a) << " " << str(z));
			});
	c.section("magnitudes", "coordinates, weights, weight ratios and knot ranges of every power of two from 2^-100 to 2^100");
	for (int e = -100; e <= 100; e += c.bound(2, 1)) for (int kind = 0; kind < 5; kind++) for (int p = 1; p <= 3; p++)
		c.test([=] { static const char* nm[] = { "coordinates","weights","one weight","knots","one coordinate" }; return S() << "degree " << p << ", " << nm[kind] << " of magnitude 2^" << e; }, [&, e, kind, p] {
			CurveSpec s = make_curve(p, { 1,p > 1 ? 2 : 1 }, 1, 4, p), r; double z = std::ldexp(1., e); if (kind == 0) for (auto& q : s.pt) q = q * z; if (kind == 1) for (auto& q : s.w) q *= z; if (kind == 2) s.w[1] = std::max(std::min(z, 65536.), 1 / 65536.); if (kind == 4) s.pt[1].y = z; r = s; if (kind == 3) for (auto& q : r.U) q *= z;
			NurbsCurve k; r.build(k, e & 1); double sc = maxc(s.pt); for (double t : probes(s.U, 2)) { Point3 q; k.evaluate(t, q); c.step(); V x = s.eval(t); c.obsp(q); if (!nearx(q, x, sc)) { c.fail("magnitude", S() << "at t=" << t << " evaluates to " << str(q) << ", definition gives " << str(x)); return; } if (kind == 4 && (std::fabs(q.x() - x.x) > 1e-9 * 100 || std::fabs(q.z() - x.z) > 1e-9 * 100)) { c.fail("magnitude", S() << "at t=" << t << " evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});
	c.section("near the unit range", "knot vectors whose first or last value is beside 0 or 1 by every power of two, both signs: the same curve as the rescaled one");
	for (int e = -40; e <= 0; e += c.bound(2, 1)) for (int w = 0; w < 8; w++) for (int p = 1; p <= 3; p++)
		c.test([=] { return S() << "degree " << p << ", range beside 0..1 by 2^" << e << " way " << w; }, [&, e, w, p] {
			double d = std::ldexp(w & 1 ? -1. : 1., e), a = (w >> 1) % 3 == 0 ? d : 0, b = 1 + ((w >> 1) % 3 == 1 ? d : (w >> 1) % 3 == 2 ? d * 0.75 : 0); if ((w >> 1) == 3) { a = -d; b = 1 + d; } if (b - a < 0.01) return;
			CurveSpec s = make_curve(p, { 1,p > 1 ? 2 : 1 }, 1, 4, p), r; for (auto& q : s.pt) q = q * 1000.; s.normalise(); r = s; for (auto& q : r.U) q = q == 0 ? a : q == 1 ? b : a + q * (b - a);
			NurbsCurve k; r.build(k, e & 1); double sc = maxc(s.pt); MC_CHECK(c, k.knots().front() == 0 && k.knots().back() == 1, "unit-range", "knots run from " << k.knots().front() << " to " << k.knots().back());
			for (double t : probes(s.U, 2)) { Point3 q; k.evaluate(t, q); c.step(); V x = s.eval(t); c.obsp(q); if (len(v(q) - x) > 1e-11 * sc) { c.fail("unit-range", S() << "at t=" << t << " evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});
	c.section("near equal weights", "weights which differ from each other by every power of two from 2^-40: one of them, alternating, increasing");
	for (int e = -40; e <= 4; e += c.bound(2, 1)) for (int w = 0; w < 4; w++) for (int p = 1; p <= 3; p++) for (double base : { 1.,0.25,3. })
		c.test([=] { return S() << "degree " << p << ", weights " << base << " and 2^" << e << " pattern " << w; }, [&, e, w, p, base] {
			CurveSpec s = make_curve(p, { 1,1 }, 1, 0, p); s.normalise(); double d = std::ldexp(base, e); for (size_t i = 0; i < s.pt.size(); i++) { s.w[i] = base + (w == 0 ? i == 1 : w == 1 ? i % 2 : w == 2 ? i : i + 1 == s.pt.size()) * d; s.pt[i] = s.pt[i] * 4096.; }
			NurbsCurve k; s.build(k, e & 1); MC_CHECK(c, k.weights() == s.w, "near-equal", "weights() does not return what was set"); for (double t : probes(s.U, 2)) { Point3 q; k.evaluate(t, q); c.step(); V x = s.eval(t); c.obsp(q); if (len(v(q) - x) > 1e-14 * 30 * maxc(s.pt)) { c.fail("near-equal", S() << "at t=" << t << " evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});
	c.section("short spans", "one, two or all interior spans as short as every power of two of the range, at the start, inside and at the end, simple and repeated knots: inside the short span and beside it, as exact as the knots");
	for (int e = 1; e <= 44; e += c.bound(1, 1)) for (int where = 0; where < 6; where++) for (int p = 1; p <= c.bound(4, 6); p++) for (int mu = 1; mu <= std::min(p, 2); mu++)
		c.test([=] { return S() << "degree " << p << ", span 2^-" << e << " place " << where << " multiplicity " << mu; }, [&, e, where, p, mu] {
			double d = std::ldexp(1., -e); std::vector<double> in; if (where == 0) in = { d }; if (where == 1) in = { 0.5,0.5 + d }; if (where == 2) in = { 1 - d }; if (where == 3) in = { 0.25,0.5,0.5 + d,0.5 + 2 * d }; if (where == 4) in = { d,2 * d,0.5 }; if (where == 5) in = { 0.25,0.25 + d,0.75,0.75 + d }; for (size_t i = 1; i < in.size(); i++) if (in[i] <= in[i - 1]) return; if (in.back() >= 1) return;
			CurveSpec s; s.p = p; s.U = std::vector<double>(p + 1, 0.); for (double x : in) for (int k = 0; k < mu; k++) s.U.push_back(x); for (int k = 0; k <= p; k++) s.U.push_back(1.); int n = (int)s.U.size() - p - 1; for (int i = 0; i < n; i++) { s.pt.push_back(some_point(i)); s.w.push_back(some_weight(4, i, n)); }
			NurbsCurve k; s.build(k, e & 1); double sc = maxc(s.pt); for (double t : probes(s.U, 3)) { Point3 q; k.evaluate(t, q); c.step(); V x = s.eval(t); c.obsp(q); if (!(len(v(q) - x) <= 1e-10 * sc)) { c.fail("short-span", S() << "at t=" << t << " evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});
	// 3. the span search
	c.section("span", "every knot vector of degree 1..3 with up to 4 interior knots: the span of every probe contains it");
	for (int p = 1; p <= 3; p++) for (int m = 0; m <= 4; m++) for (auto& mult : compositions(m, p + 1)) for (int sp = 0; sp < 2; sp++) {
		CurveSpec s = make_curve(p, mult, sp, 0); s.normalise();
		c.test([=] { return s.text(); }, [&, s] {
			for (double t : probes(s.U, 2)) {
				int k = NurbsCurve::find_knot_span(s.U, t); c.step(); c.obs(k);
				bool ok = k >= 0 && k + 1 < (int)s.U.size() && s.U[k] <= t && t <= s.U[k + 1] && s.U[k] < s.U[k + 1] && (t < s.U[k + 1] || t == 1);
				MC_CHECK(c, ok, "span", "span of " << t << " is " << k);
			}
			});
	}
	// 4. closedness
	c.section("closed", "end point offsets around the tolerance, 2..5 points, several tolerances");
	for (int n = 1; n <= 5; n++) for (double tol : { 1e-6, 1e-3, 0.5 }) for (double f : { 0.,0.5,0.99,1.01,2.,10. }) for (int ax = 0; ax < 3; ax++)
		c.test([=] { return S() << n << " points, end offset " << f << "*" << tol << " axis " << ax; }, [&, n, tol, f, ax] {
			NurbsCurve k; std::vector<Point3> q; for (int i = 0; i < n; i++) q.push_back(P(some_point(i)));
			if (n > 1) { V d; (ax == 0 ? d.x : ax == 1 ? d.y : d.z) = f * tol; q[n - 1] = P(V{ 0,0,0 } + d); q[0] = Point3(0, 0, 0); }
			k.set_degree(1); k.set_points(q); c.step();
			bool want = n > 1 && f < 1;
			MC_CHECK(c, k.is_closed(tol) == want, "closed", "is_closed is " << k.is_closed(tol));
			if (tol == 1e-6) MC_CHECK(c, k.is_closed() == want, "closed-default", "is_closed() is " << k.is_closed());
			c.obs((double)f); c.obs(n); c.obs(want);
			});

	// 5. histories of setters
	struct Op { std::string name; std::function<void(NurbsCurve&, Data&)> f; };
	std::vector<Op> ops;
	auto pts = [](int n, int shift) { std::vector<Point3> q; for (int i = 0; i < n; i++) q.push_back(P(some_point(i + shift))); return q; };
	auto vpts = [](int n, int shift) { std::vector<V> q; for (int i = 0; i < n; i++) q.push_back(some_point(i + shift)); return q; };
	for (int p = 1; p <= 3; p++) ops.push_back({ S() << "set_degree(" << p << ")", [=](NurbsCurve& n, Data& d) { n.set_degree(p); d.p = p; } });
	for (int k : {3, 4, 5}) ops.push_back({ S() << "set_points(" << k << ")", [=](NurbsCurve& n, Data& d) { n.set_points(pts(k, k)); d.pt = vpts(k, k); } });
	ops.push_back({ "set_uniform", [=](NurbsCurve& n, Data& d) { if ((int)d.pt.size() <= d.p || d.p < 1) return; n.set_uniform(); d.U = make_knots(d.p, std::vector<int>(d.pt.size() - d.p - 1, 1), 0); double b = d.U.back(); for (auto& k : d.U) k /= b; } });
	ops.push_back({ "set_knots(uneven)", [=](NurbsCurve& n, Data& d) { if ((int)d.pt.size() <= d.p || d.p < 1) return; auto U = make_knots(d.p, std::vector<int>(d.pt.size() - d.p - 1, 1), 1); n.set_knots(U); double b = U.back(); for (auto& k : U) k /= b; d.U = U; } });
	ops.push_back({ "set_equals_weights", [=](NurbsCurve& n, Data& d) { n.set_equals_weights(); d.w.assign(d.pt.size(), 1.); } });
	ops.push_back({ "set_weights", [=](NurbsCurve& n, Data& d) { std::vector<double> w; for (size_t i = 0; i < d.pt.size(); i++) w.push_back(1 + 0.5 * i); n.set_weights(w); d.w = w; } });
	ops.push_back({ "points()[0]=", [=](NurbsCurve& n, Data& d) { if (d.pt.empty()) return; n.points()[0] = Point3(-5, 6, 7); d.pt[0] = { -5,6,7 }; } });
	ops.push_back({ "clear", [=](NurbsCurve& n, Data& d) { n.clear(); d = Data(); } });
	// edits in place, through references taken earlier, and edits of the library itself: the data is then read back from the getters
	auto whole = [](const Data& d) { return d.p >= 1 && d.pt.size() > (size_t)d.p && d.w.size() == d.pt.size() && d.U.size() == d.pt.size() + d.p + 1 && d.U[d.p] == 0 && d.U[d.U.size() - 1 - d.p] == 1; };
	auto reread = [](const NurbsCurve& n, Data& x) { x.p = n.degree(); x.pt.clear(); for (auto& q : n.points()) x.pt.push_back(v(q)); x.w = n.weights(); x.U = n.knots(); };
	std::vector<Op> edits = { ops[1], ops[2], ops[4], ops[6], ops[7], ops[8], ops[9], ops[11] };
	for (int k = 0; k < 4; k++) edits.push_back({ S() << "points()[" << k << "]+=", [=](NurbsCurve& n, Data& d) { if ((int)d.pt.size() <= k) return; d.pt[k] = d.pt[k] + V{ 0.5,-1.25,2 }; n.points()[k] = P(d.pt[k]); } });
	edits.push_back({ "written through a reference taken before an evaluation", [=](NurbsCurve& n, Data& x) { if (!whole(x)) return; auto& b = n.points(); Point3 p; n.evaluate(0.5, p); b[1] = Point3(3, -4, 1); x.pt[1] = { 3,-4,1 }; } });
	for (double t : { 0.5,0.37 }) edits.push_back({ S() << "insert_knot(" << t << ")", [=](NurbsCurve& n, Data& x) { if (!whole(x) || std::count(x.U.begin(), x.U.end(), t) >= x.p) return; n.insert_knot(t); reread(n, x); } });
	edits.push_back({ "degree_elevation", [=](NurbsCurve& n, Data& x) { if (!whole(x) || x.p > 3) return; n.degree_elevation(); reread(n, x); } });
	edits.push_back({ "copied through another", [=](NurbsCurve& n, Data& x) { NurbsCurve o(n), k; Point3 p; if (whole(x)) o.evaluate(0.5, p); k = o; n = k; } });
	edits.push_back({ "to_polyline", [=](NurbsCurve& n, Data& x) { std::vector<Point3> q; if (whole(x)) n.to_polyline(q); } });
	int depth = c.bound(5, 6);
	for (int start = 0; start < 3; start++) {
		auto& al = start < 2 ? ops : edits; int dp = start < 2 ? depth - start : depth - 1;
		c.section(start == 2 ? "histories-edits" : start ? "histories-used" : "histories-fresh", S() << "every sequence of " << dp << (start < 2 ? " setters over " : " edits over ") << al.size() << " from a " << (start ? "complete curve" : "fresh object") << ", evaluated whenever the data is consistent");
		sequences((int)al.size(), dp, [&](const std::vector<int>& q) {
			c.test([=, &al] { S s; s << (start ? "degree 2, 4 points, uneven knots, weights; " : ""); for (int i : q) s << al[i].name << "; "; return s.str(); }, [&, start, q] {
				NurbsCurve n; Data d; uint64_t h = 0;
				auto check = [&](const std::string& after) { // looks first where it looked last before the edit
					if (n.degree() != d.p || n.nb_points() != (int)d.pt.size() || n.weights() != d.w) { c.fail("history-getters", "getters after " + after); return; }
					if (!whole(d)) return; // inconsistent, or knots made for another degree: not clamped
					CurveSpec s; s.p = d.p; s.pt = d.pt; s.w = d.w; s.U = d.U;
					for (double t : { 0.5,0.,0.37,1.,0.5 }) { Point3 p; n.evaluate(t, p); c.step(); V e = s.eval(t); c.state(mc::mix((uint64_t)(int64_t)(e.x * 1e6), (uint64_t)(t * 100))); if (!near(p, e)) { c.fail("history", S() << "after " << after << " t=" << t << ": " << str(p) << " expected " << str(e)); return; } }
				};
				if (start) for (int i : { 1, 4, 7, 9 }) ops[i].f(n, d);
				if (start) check("start");
				for (int i : q) { al[i].f(n, d); c.step(); check(al[i].name); if (c.failed_current()) return; }
				});
			});
	}
}
