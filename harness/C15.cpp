// C15: surface evaluation against the tensor-product Cox-de Boor definition; setter/evaluate histories.
#include "nurbs.hpp"

namespace {
bool compare(mc::Ctx& c, const NurbsSurface& n, const SurfSpec& s, const std::string& key, int per)
{
	auto pu = probes(s.U, per), pv = probes(s.W_, per);
	for (double v : pv) for (double u : pu) {
		Point3 p(99, 99, 99); n.evaluate(u, v, p); c.step(); c.obsp(p);
		V e = s.eval(u, v);
		if (!near(p, e)) { c.fail(key, S() << "at (" << u << "," << v << ") evaluates to " << str(p) << ", definition gives " << str(e)); return false; }
	}
	return true;
}
}
void run(mc::Ctx& c)
{
	int P = c.bound(3, 4), M = c.bound(2, 3);
	static const double aff[3][2] = { {1,0},{8,-3},{0.0009765625,5} };
	c.section("definition", S() << "degrees 1.." << P << " in each direction, 0.." << M << " interior knots per direction in every multiplicity composition (square and non-square nets), 2 spacings, 6 weight patterns, 3 affine knot ranges per direction, 2 setter orders");
	for (int a = 1; a <= P; a++) for (int b = 1; b <= P; b++)
		for (int m = 0; m <= M; m++) for (int k = 0; k <= M; k++)
			for (auto& mu : compositions(m, a)) for (auto& mv : compositions(k, b))
				for (int w = 0; w < NB_WEIGHT_PATTERNS; w++) for (int af = 0; af < 3; af++) {
					SurfSpec s = make_surf(a, b, mu, mv, (w + af) % 2, w);
					SurfSpec r = s; for (auto& x : r.U) x = x * aff[af][0] + aff[af][1]; for (auto& x : r.W_) x = x * aff[(af + w) % 3][0] + aff[(af + w) % 3][1];
					c.test([=] { return r.text(); }, [&, s, r, af] {
						NurbsSurface n; r.build(n, af % 2);
						MC_CHECK(c, n.degree_u() == s.pu && n.degree_v() == s.pv && n.nb_points_u() == s.nu && n.nb_points_v() == s.nv && n.weights() == s.w && (int)n.points().size() == s.nu * s.nv, "getters", "getters do not return what was set");
						compare(c, n, s, "definition", 1);
						Point3 q[4]; n.evaluate(0, 0, q[0]); n.evaluate(1, 0, q[1]); n.evaluate(0, 1, q[2]); n.evaluate(1, 1, q[3]);
						MC_CHECK(c, near(q[0], s.pt[0]) && near(q[1], s.pt[s.nu - 1]) && near(q[2], s.pt[s.nu * (s.nv - 1)]) && near(q[3], s.pt.back()), "corners", "corner points are not the corner control points");
						});
				}
	c.section("uniform", "degrees 1..4 (and up to 9 with fewer points), 0..12 extra points in one direction, or a point count beside every power of two: uniform knots and equal weights, on fresh and previously weighted surfaces");
	for (int a = 1; a <= c.bound(9, 14); a++) for (int b = 1; b <= c.bound(9, 14); b++) for (int e : a > 4 || b > 4 ? std::vector<int>{ 0,1,2,5 } : ladder(0, a == b ? c.bound(513, 2049) : 12, 12)) for (int dir = 0; dir < 2; dir++) for (int used = 0; used < 2; used++)
		c.test([=] { return S() << "degrees " << a << "," << b << " extra " << e << " dir " << dir << (used ? " on a used surface" : ""); }, [&, a, b, e, dir, used] {
			SurfSpec s = make_surf(a, b, std::vector<int>(dir ? e % 3 : e, 1), std::vector<int>(dir ? e : e % 3, 1), 0, 0);
			s.U = make_knots(a, std::vector<int>(dir ? e % 3 : e, 1), 0); s.W_ = make_knots(b, std::vector<int>(dir ? e : e % 3, 1), 0);
			NurbsSurface n; if (used) { SurfSpec o = make_surf(2, 1, { 1 }, { 1,1 }, 1, 5); o.build(n); Point3 p; n.evaluate(0.3, 0.4, p); }
			std::vector<Point3> q; for (auto& x : s.pt) q.push_back(::P(x));
			n.set_degree(a, b); n.set_points(q, s.nu, s.nv); n.set_uniform_u(); n.set_uniform_v(); n.set_equals_weights();
			MC_CHECK(c, n.weights() == s.w, "equal-weights", "weights are not all one");
			MC_CHECK(c, n.knots_u().size() == s.U.size() && n.knots_v().size() == s.W_.size(), "uniform-knots", "knot counts");
			if (c.failed_current()) return;
			for (size_t i = 0; i < s.U.size(); i++) MC_CHECK(c, near(n.knots_u()[i], s.U[i] / s.U.back()), "uniform-knots", "u knot " << i);
			for (size_t i = 0; i < s.W_.size(); i++) MC_CHECK(c, near(n.knots_v()[i], s.W_[i] / s.W_.back()), "uniform-knots", "v knot " << i);
			if (e <= 12) compare(c, n, s, "uniform", 1); else for (int i = 0; i <= 24; i++) for (int j = 0; j <= 4; j++) { double x = dir ? j / 4. : i / 24., y = dir ? i / 24. : j / 4.; Point3 q; n.evaluate(x, y, q); V z = s.eval(x, y); c.step(); c.obsp(q); if (!nearx(q, z, maxc(s.pt))) { c.fail("uniform", S() << "at (" << x << "," << y << ") evaluates to " << str(q) << ", definition gives " << str(z)); return; } }
			});

	c.section("large", "degrees to 8 and nets with one side beside every power of two, both ways around, and large square nets");
	{ std::vector<std::array<int, 4>> sz; for (int a = 1; a <= 8; a++) for (int b : { 1,2,5,8 }) { sz.push_back({ a,b,a + 1,b + 1 }); sz.push_back({ a,b,a + 4,b + 2 }); } for (int n : ladder(8, c.bound(257, 1025))) for (int a = 1; a <= 3; a++) { sz.push_back({ a,1,n,2 }); sz.push_back({ 1,a,3,n }); sz.push_back({ a,2,n,4 }); } for (int n : { 17,33,65,c.bound(66,130) }) sz.push_back({ 3,2,n,n + 1 });
	for (auto z : sz) for (int w : { 0,4 }) c.test([=] { return S() << "degrees " << z[0] << "," << z[1] << " net " << z[2] << "x" << z[3] << " weights " << w; }, [&, z, w] {
		SurfSpec s = make_surf(z[0], z[1], std::vector<int>(z[2] - z[0] - 1, 1), std::vector<int>(z[3] - z[1] - 1, 1), w ? 1 : 0, w); double sc = maxc(s.pt); NurbsSurface n; s.build(n, w != 0);
		auto cut = [](std::vector<double> a) { std::vector<double> r; size_t k = std::max<size_t>(1, a.size() / 24); for (size_t i = 0; i < a.size(); i += k) r.push_back(a[i]); r.push_back(1); return r; };
		for (double u : cut(probes(s.U, 1))) for (double w2 : cut(probes(s.W_, 1))) { Point3 q; n.evaluate(u, w2, q); c.step(); V e = s.eval(u, w2); c.obsp(q); if (!nearx(q, e, sc)) { c.fail("large", S() << "at (" << u << "," << w2 << ") evaluates to " << str(q) << ", definition gives " << str(e)); return; } }
	}); }
	c.section("magnitudes", "coordinates, weights, weight ratios and knot ranges of every power of two from 2^-100 to 2^100");
	for (int e = -100; e <= 100; e += c.bound(4, 1)) for (int kind = 0; kind < 5; kind++) for (int d = 0; d < 2; d++)
		c.test([=] { static const char* nm[] = { "coordinates","weights","one weight","knots u","knots v" }; return S() << nm[kind] << " of magnitude 2^" << e << " variant " << d; }, [&, e, kind, d] {
			SurfSpec s = make_surf(2 + d, 3 - d, { 1,1 }, { 2 }, 1, 4), r; double z = std::ldexp(1., e); if (kind == 0) for (auto& q : s.pt) q = q * z; if (kind == 1) for (auto& q : s.w) q *= z; if (kind == 2) s.w[s.nu + 1] = std::max(std::min(z, 65536.), 1 / 65536.); r = s; if (kind == 3) for (auto& q : r.U) q *= z; if (kind == 4) for (auto& q : r.W_) q *= z;
			NurbsSurface n; r.build(n, e & 1); double sc = maxc(s.pt); for (double u : probes(s.U, 1)) for (double w : probes(s.W_, 1)) { Point3 q; n.evaluate(u, w, q); c.step(); V x = s.eval(u, w); c.obsp(q); if (!nearx(q, x, sc)) { c.fail("magnitude", S() << "at (" << u << "," << w << ") evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});

	c.section("near the unit range", "knot vectors of either direction whose first or last value is beside 0 or 1 by every power of two, both signs: the same surface as the rescaled one");
	for (int e = -40; e <= 0; e += c.bound(2, 1)) for (int w = 0; w < 8; w++) for (int dir = 0; dir < 2; dir++)
		c.test([=] { return S() << (dir ? "v" : "u") << " range beside 0..1 by 2^" << e << " way " << w; }, [&, e, w, dir] {
			double d = std::ldexp(w & 1 ? -1. : 1., e), a = (w >> 1) % 3 == 0 ? d : 0, b = 1 + ((w >> 1) % 3 == 1 ? d : (w >> 1) % 3 == 2 ? d * 0.75 : 0); if ((w >> 1) == 3) { a = -d; b = 1 + d; } if (b - a < 0.01) return;
			SurfSpec s = make_surf(1 + w % 3, 2, { 1 }, { 1,1 }, 1, 4), r; for (auto& q : s.pt) q = q * 1000.; for (auto* K : { &s.U,&s.W_ }) { double f = K->front(), l = K->back(); for (auto& q : *K) q = (q - f) / (l - f); } r = s; for (auto& q : dir ? r.W_ : r.U) q = q == 0 ? a : q == 1 ? b : a + q * (b - a);
			NurbsSurface k; r.build(k, e & 1); double sc = maxc(s.pt); auto& kn = dir ? k.knots_v() : k.knots_u(); MC_CHECK(c, kn.front() == 0 && kn.back() == 1, "unit-range", "knots run from " << kn.front() << " to " << kn.back());
			for (double u : probes(s.U, 1)) for (double t : probes(s.W_, 1)) { Point3 q; k.evaluate(u, t, q); c.step(); V x = s.eval(u, t); c.obsp(q); if (len(v(q) - x) > 1e-11 * sc) { c.fail("unit-range", S() << "at (" << u << "," << t << ") evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});
	c.section("short spans", "interior spans of either direction as short as every power of two of the range, at the start, inside and at the end, simple and repeated knots: inside the short span and beside it");
	for (int e = 1; e <= 44; e += c.bound(1, 1)) for (int where = 0; where < 5; where++) for (int p = 1; p <= 3; p++) for (int mu = 1; mu <= std::min(p, 2); mu++) for (int dir = 0; dir < 3; dir++)
		c.test([=] { return S() << "degree " << p << ", span 2^-" << e << " place " << where << " multiplicity " << mu << (dir == 0 ? " in u" : dir == 1 ? " in v" : " in both"); }, [&, e, where, p, mu, dir] {
			double d = std::ldexp(1., -e); std::vector<double> in; if (where == 0) in = { d }; if (where == 1) in = { 0.5,0.5 + d }; if (where == 2) in = { 1 - d }; if (where == 3) in = { d,2 * d,0.5 }; if (where == 4) in = { 0.25,0.25 + d,0.75,0.75 + d }; for (size_t i = 1; i < in.size(); i++) if (in[i] <= in[i - 1]) return; if (in.back() >= 1) return;
			auto kn = [&](int deg, const std::vector<double>& in, int mu) { std::vector<double> r(deg + 1, 0.); for (double x : in) for (int k = 0; k < mu; k++) r.push_back(x); for (int k = 0; k <= deg; k++) r.push_back(1.); return r; };
			SurfSpec s; int o = 1 + p % 3; s.pu = dir == 1 ? o : p; s.pv = dir == 0 ? o : p; s.U = dir == 1 ? kn(o, { 0.5 }, 1) : kn(p, in, mu); s.W_ = dir == 0 ? kn(o, { 0.25 }, 1) : kn(p, in, mu); s.nu = (int)s.U.size() - s.pu - 1; s.nv = (int)s.W_.size() - s.pv - 1;
			for (int j = 0; j < s.nv; j++) for (int i = 0; i < s.nu; i++) { V q = some_point(i + 3 * j); s.pt.push_back({ q.x + i,q.y + j * 1.5,q.z }); s.w.push_back(some_weight(4, (i * 2 + j * 3) % 7, 7)); }
			NurbsSurface k; s.build(k, e & 1); double sc = maxc(s.pt); for (double u : probes(s.U, dir == 1 ? 1 : 2)) for (double t : probes(s.W_, dir == 0 ? 1 : 2)) { Point3 q; k.evaluate(u, t, q); c.step(); V x = s.eval(u, t); c.obsp(q); if (!(len(v(q) - x) <= 1e-10 * sc)) { c.fail("short-span", S() << "at (" << u << "," << t << ") evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});
	c.section("near equal weights", "weights which differ from each other by every power of two from 2^-40: one of them, alternating, increasing");
	for (int e = -40; e <= 4; e += c.bound(2, 1)) for (int w = 0; w < 5; w++) for (double base : { 1.,0.25,3. }) for (int in = 0; in < 2; in++)
		c.test([=] { return S() << "weights " << base << " and 2^" << e << " pattern " << w << (in ? " written in place" : ""); }, [&, e, w, base, in] {
			SurfSpec s = make_surf(1 + w % 3, 2, { 1 }, { 1 }, 1, 0); double d = std::ldexp(base, e); std::vector<double> old(s.pt.size(), base); for (size_t i = 0; i < s.pt.size(); i++) { s.w[i] = base + (w == 0 ? i == 1 : w == 1 ? i % 2 : w == 2 ? i : w == 3 ? i + 1 == s.pt.size() : i / s.nu) * d; s.pt[i] = s.pt[i] * 4096.; }
			NurbsSurface k; s.build(k, e & 1); if (in) { k.set_weights(old); for (size_t i = 0; i < s.w.size(); i++) k.weights()[i] = s.w[i]; } MC_CHECK(c, k.weights() == s.w, "near-equal", "weights() does not return what was set"); for (double u : probes(s.U, 1)) for (double t : probes(s.W_, 1)) { Point3 q; k.evaluate(u, t, q); c.step(); V x = s.eval(u, t); c.obsp(q); if (len(v(q) - x) > 1e-14 * 60 * maxc(s.pt)) { c.fail("near-equal", S() << "at (" << u << "," << t << ") evaluates to " << str(q) << ", definition gives " << str(x)); return; } }
			});

	struct Data { int pu = 0, pv = 0, nu = 0, nv = 0; std::vector<V> pt; std::vector<double> w, U, W_; bool cu = false, cv = false; };
	struct Op { std::string name; std::function<void(NurbsSurface&, Data&)> f; };
	std::vector<Op> ops;
	for (auto d : std::vector<std::array<int, 2>>{ {1,1},{2,1},{1,3} }) ops.push_back({ S() << "set_degree(" << d[0] << "," << d[1] << ")", [=](NurbsSurface& n, Data& x) { n.set_degree(d[0], d[1]); x.pu = d[0]; x.pv = d[1]; } });
	for (auto d : std::vector<std::array<int, 2>>{ {3,4},{4,3},{3,2} }) ops.push_back({ S() << "set_points(" << d[0] << "x" << d[1] << ")", [=](NurbsSurface& n, Data& x) {
		std::vector<Point3> q; x.pt.clear(); for (int i = 0; i < d[0] * d[1]; i++) { q.push_back(::P(some_point(i + d[0]))); x.pt.push_back(some_point(i + d[0])); } n.set_points(q, d[0], d[1]); x.nu = d[0]; x.nv = d[1]; } });
	ops.push_back({ "set_uniform_u+v", [=](NurbsSurface& n, Data& x) { if (x.pu < 1 || x.nu <= x.pu || x.nv <= x.pv) return; n.set_uniform_u(); n.set_uniform_v();
		x.U = make_knots(x.pu, std::vector<int>(x.nu - x.pu - 1, 1), 0); x.W_ = make_knots(x.pv, std::vector<int>(x.nv - x.pv - 1, 1), 0); double b = x.U.back(); for (auto& k : x.U) k /= b; b = x.W_.back(); for (auto& k : x.W_) k /= b; } });
	ops.push_back({ "set_knots(uneven)", [=](NurbsSurface& n, Data& x) { if (x.pu < 1 || x.nu <= x.pu || x.nv <= x.pv) return;
		x.U = make_knots(x.pu, std::vector<int>(x.nu - x.pu - 1, 1), 1); x.W_ = make_knots(x.pv, std::vector<int>(x.nv - x.pv - 1, 1), 1); n.set_knots_v(x.W_); n.set_knots_u(x.U); double b = x.U.back(); for (auto& k : x.U) k /= b; b = x.W_.back(); for (auto& k : x.W_) k /= b; } });
	ops.push_back({ "set_equals_weights", [=](NurbsSurface& n, Data& x) { n.set_equals_weights(); x.w.assign(x.pt.size(), 1.); } });
	ops.push_back({ "set_weights", [=](NurbsSurface& n, Data& x) { x.w.clear(); for (size_t i = 0; i < x.pt.size(); i++) x.w.push_back(1 + 0.25 * ((i * 5) % 7)); n.set_weights(x.w); } });
	ops.push_back({ "points()[1]=,weights()[1]=", [=](NurbsSurface& n, Data& x) { if (x.pt.size() < 2 || x.w.size() < 2) return; n.points()[1] = Point3(-5, 6, 7); x.pt[1] = { -5,6,7 }; n.weights()[1] = 3; x.w[1] = 3; } });
	ops.push_back({ "set_closed_u(true)", [=](NurbsSurface& n, Data& x) { n.set_closed_u(true); x.cu = true; } });
	ops.push_back({ "set_closed_v(true)", [=](NurbsSurface& n, Data& x) { n.set_closed_v(true); x.cv = true; } });
	ops.push_back({ "clear", [=](NurbsSurface& n, Data& x) { n.clear(); x = Data(); } });
	// edits in place, alone or through references taken earlier, and edits of the library itself: the data is then read back from the getters
	auto whole = [](const Data& d) { return d.pu >= 1 && d.pv >= 1 && d.nu > d.pu && d.nv > d.pv && d.w.size() == d.pt.size() && (int)d.U.size() == d.nu + d.pu + 1 && (int)d.W_.size() == d.nv + d.pv + 1 && d.U[d.pu] == 0 && d.U[d.nu] == 1 && d.W_[d.pv] == 0 && d.W_[d.nv] == 1; };
	auto reread = [](const NurbsSurface& n, Data& x) { x.pu = n.degree_u(); x.pv = n.degree_v(); x.nu = n.nb_points_u(); x.nv = n.nb_points_v(); x.pt.clear(); for (auto& q : n.points()) x.pt.push_back(v(q)); x.w = n.weights(); x.U = n.knots_u(); x.W_ = n.knots_v(); };
	std::vector<Op> edits = { ops[1], ops[4], ops[6], ops[7], ops[8], ops[9] };
	for (int k : { 0,1,5,8,11 }) {
		edits.push_back({ S() << "weights()[" << k << "]*=1.75", [=](NurbsSurface& n, Data& x) { if ((int)x.w.size() <= k) return; n.weights()[k] *= 1.75; x.w[k] *= 1.75; } });
		edits.push_back({ S() << "points()[" << k << "]+=", [=](NurbsSurface& n, Data& x) { if ((int)x.pt.size() <= k) return; x.pt[k] = x.pt[k] + V{ 0.5,-1.25,2 }; n.points()[k] = ::P(x.pt[k]); } });
	}
	edits.push_back({ "apply_transform(translation)", [=](NurbsSurface& n, Data& x) { n.apply_transform(Translation(Point3(1, -2, 0.5))); for (auto& q : x.pt) q = q + V{ 1,-2,0.5 }; } });
	edits.push_back({ "insert_knot_u(0.37)", [=](NurbsSurface& n, Data& x) { if (!whole(x) || std::count(x.U.begin(), x.U.end(), 0.37) >= x.pu) return; n.insert_knot_u(0.37); reread(n, x); } });
	edits.push_back({ "insert_knot_v(0.7)", [=](NurbsSurface& n, Data& x) { if (!whole(x) || std::count(x.W_.begin(), x.W_.end(), 0.7) >= x.pv) return; n.insert_knot_v(0.7); reread(n, x); } });
	edits.push_back({ "degree_elevation_u", [=](NurbsSurface& n, Data& x) { if (!whole(x) || x.pu > 2) return; n.degree_elevation_u(); reread(n, x); } });
	edits.push_back({ "degree_elevation_v", [=](NurbsSurface& n, Data& x) { if (!whole(x) || x.pv > 2) return; n.degree_elevation_v(); reread(n, x); } });
	edits.push_back({ "copied through another", [=](NurbsSurface& n, Data& x) { NurbsSurface o(n), k; Point3 p; if (whole(x)) o.evaluate(0.37, 0.7, p); k = o; n = k; } });
	edits.push_back({ "written through references taken before an evaluation", [=](NurbsSurface& n, Data& x) { if (!whole(x)) return; auto& a = n.weights(); auto& b = n.points(); Point3 p; n.evaluate(0.37, 0.7, p); a[1] = 2.5; b[2] = Point3(3, -4, 1); x.w[1] = 2.5; x.pt[2] = { 3,-4,1 }; } });
	int depth = c.bound(4, 5);
	for (int start = 0; start < 5; start++) {
		auto& al = start < 3 ? ops : edits; int dp = start == 0 ? depth + 1 : start < 3 ? depth : depth - 1;
		c.section(S() << "histories-" << start, S() << "every sequence of " << dp << (start < 3 ? " setters over " : " edits over ") << al.size() << " from " << (start ? "a complete surface" : "a fresh object") << ", evaluated whenever the data is consistent");
		sequences((int)al.size(), dp, [&](const std::vector<int>& q) {
			c.test([=, &al] { S s; s << "start " << start << "; "; for (int i : q) s << al[i].name << "; "; return s.str(); }, [&, start, q] {
				NurbsSurface n; Data d;
				auto check = [&](const std::string& after) {
					if (n.degree_u() != d.pu || n.degree_v() != d.pv || n.nb_points_u() != d.nu || n.nb_points_v() != d.nv || n.weights() != d.w || n.is_closed_u() != d.cu || n.is_closed_v() != d.cv) { c.fail("history-getters", "getters after " + after); return; }
					if (!whole(d)) return;
					SurfSpec s; s.pu = d.pu; s.pv = d.pv; s.nu = d.nu; s.nv = d.nv; s.pt = d.pt; s.w = d.w; s.U = d.U; s.W_ = d.W_;
					static const double T[][2] = { {0.37,0.7},{1,0.7},{0.5,1},{0,0.5},{0.37,0.5},{0.37,0.7} }; // ends where the next look starts, and keeps one parameter while the other changes
					for (auto& t : T) { Point3 p; n.evaluate(t[0], t[1], p); c.step(); V e = s.eval(t[0], t[1]); c.state(mc::mix((uint64_t)(int64_t)(e.x * 1e6), (uint64_t)(int64_t)(t[1] * 100))); if (!near(p, e)) { c.fail("history", S() << "after " << after << " (" << t[0] << "," << t[1] << "): " << str(p) << " expected " << str(e)); return; } }
				};
				if (start) { for (int i : { start % 2 ? 1 : 0, start % 2 ? 3 : 4, 7, 9 }) ops[i].f(n, d); check("start"); }
				for (int i : q) { al[i].f(n, d); c.step(); check(al[i].name); if (c.failed_current()) return; }
				});
			});
	}
}
