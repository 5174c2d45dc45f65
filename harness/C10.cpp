// C10: intersection predicates against exact integer predicates over lattice configurations.
#include "common.hpp"

namespace {
typedef long long LL;
struct I { LL x, y, z; };
I operator-(I a, I b) { return { a.x - b.x,a.y - b.y,a.z - b.z }; }
I crs(I a, I b) { return { a.y * b.z - a.z * b.y,a.z * b.x - a.x * b.z,a.x * b.y - a.y * b.x }; }
LL dt(I a, I b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
bool zero(I a) { return !a.x && !a.y && !a.z; }
int sg(LL a) { return a > 0 ? 1 : a < 0 ? -1 : 0; }
int orient(I a, I b, I c, I d) { return sg(dt(crs(b - a, c - a), d - a)); } // side of d
std::string tx(I a) { return S() << "(" << (double)a.x << "," << (double)a.y << "," << (double)a.z << ")"; }
struct Frame { double s, o; }; static const Frame FR[] = { {1,0},{0.5,0.25},{8,-16},{1. / (1 << 20),0},{1 << 20,0},{1. / (1 << 12),1. / (1 << 10)} }; static const int NF = 6;
Point3 pt(I a, const Frame& f) { return Point3(a.x * f.s + f.o, a.y * f.s + f.o, a.z * f.s - f.o); }
V vv(I a, const Frame& f) { return v(pt(a, f)); }
std::vector<I> lattice(int lo, int hi, int step = 1) { std::vector<I> r; for (int x = lo; x <= hi; x += step) for (int y = lo; y <= hi; y += step) for (int z = lo; z <= hi; z += step) r.push_back({ x,y,z }); return r; }
bool axis_plane(I n) { return (n.x != 0) + (n.y != 0) + (n.z != 0) == 1; }
// does the open segment ab cross the open triangle: 1 yes, 0 no, -1 touching (not decided)
int seg_tri(I a, I b, I p, I q, I r)
{
	int sa = orient(p, q, r, a), sb = orient(p, q, r, b);
	if (sa == 0 || sb == 0) return sa == sb ? -1 : -1;
	if (sa == sb) return 0;
	int o1 = orient(a, b, p, q), o2 = orient(a, b, q, r), o3 = orient(a, b, r, p);
	if ((o1 > 0 || o2 > 0 || o3 > 0) && (o1 < 0 || o2 < 0 || o3 < 0)) return 0;
	if (o1 == 0 || o2 == 0 || o3 == 0) return -1;
	return 1;
}
}
void run(mc::Ctx& c)
{
	auto L3 = lattice(0, 2);
	c.section("segment segment", "every pair of segments over a 3x3x3 lattice (every order of end points and operands)");
	for (size_t a = 0; a < L3.size(); a++) for (size_t b = 0; b < L3.size(); b++) {
		// one case: the first segment, against every second segment
		c.test([&] { return "segment " + tx(L3[a]) + tx(L3[b]) + " against all"; }, [&] {
			for (size_t d = 0; d < L3.size(); d++) for (size_t e = 0; e < L3.size(); e++) for (int f = 0; f < (c.thorough() || (a % 9 == 5 && b % 4 == 1) ? NF : 1); f++) {
				I A = L3[a], B = L3[b], C = L3[d], D = L3[e], x = crs(B - A, D - C); LL n = dt(x, x); bool ex = false; V at;
				if (n != 0 && dt(x, C - A) == 0) { LL s = dt(crs(C - A, D - C), x), t = dt(crs(C - A, B - A), x); ex = s >= 0 && s <= n && t >= 0 && t <= n; at = vv(A, FR[f]) + (vv(B, FR[f]) - vv(A, FR[f])) * ((double)s / n); }
				Point3 q(99, 98, 97); bool r = Segment3(pt(A, FR[f]), pt(B, FR[f])).intersect(Segment3(pt(C, FR[f]), pt(D, FR[f])), q); c.step();
				if (r != ex) { c.fail(ex ? "segseg-missed" : "segseg-false", S() << "with segment " << tx(C) << tx(D) << " frame " << f << ": answer " << r << ", exact " << ex); return; }
				if (r && !near(q / FR[f].s, at * (1 / FR[f].s), 1e-9)) { c.fail("segseg-point", S() << "with segment " << tx(C) << tx(D) << ": point " << str(q) << " exact " << str(at)); return; }
				if (r) c.obsp(q);
			}
			c.obs((int)(a * 27 + b));
		});
	}
	c.section("segment segment long", "crossing and nearly crossing segments of very different lengths in a plane");
	for (int k = 1; k <= 200; k++) for (int m = -3; m <= 203; m += 7) c.test([&] { return (S() << "horizontal length " << k << " crossed at " << m).str(); }, [&] {
		for (int plane = 0; plane < 3; plane++) {
			auto mk = [&](double u, double w) { return plane == 0 ? Point3(u, w, 1) : plane == 1 ? Point3(2, u, w) : Point3(u, w, u + w); };
			Point3 q; bool e = m >= 0 && m <= k; bool r = Segment3(mk(0, 0), mk(k, 0)).intersect(Segment3(mk(m, -1), mk(m, 2)), q), r2 = Segment3(mk(m, 2), mk(m, -1)).intersect(Segment3(mk(k, 0), mk(0, 0)), q); c.step(2);
			MC_CHECK(c, r == e && r2 == e, "segseg-long", "plane " << plane << " answers " << r << "," << r2 << " exact " << e);
			if (e) MC_CHECK(c, near(q, v(mk(m, 0))), "segseg-point", "point " << str(q)); c.obs(r);
		}
	});
	c.section("segment segment ratios", "a segment crossed, touched next to its ends and missed by another one whose length is every power of two shorter or longer, in three planes, every operand order");
	for (int k = -30; k <= 30; k++) for (int m = -1; m <= 9; m++) c.test([&] { return (S() << "length 8 crossed at " << m << " by a segment of length 3*2^" << k).str(); }, [&] {
		double f = std::ldexp(1., k); bool e = m >= 0 && m <= 8;
		for (int plane = 0; plane < 3; plane++) for (int dir = 0; dir < 3; dir++) {
			auto mk = [&](double u, double w) { return plane == 0 ? Point3(u, w, 1) : plane == 1 ? Point3(2, u, w) : Point3(u, w, u + w); };
			double dx = dir == 0 ? 0 : dir == 1 ? f : -f / 2; if ((m == 0 || m == 8) && (dir || k < -3 || k > 3)) continue;
			Point3 a = mk(0, 0), b = mk(8, 0), p = mk(m - dx, -f), r = mk(m + 2 * dx, 2 * f), q; int i = 0;
			for (const Segment3& s : { Segment3(a, b),Segment3(b, a) }) for (const Segment3& t : { Segment3(p, r),Segment3(r, p) }) for (int ex = 0; ex < 2; ex++, i++) {
				bool g = ex ? t.intersect(s, q) : s.intersect(t, q); c.step(); MC_CHECK(c, g == e, "segseg-ratio", "plane " << plane << " direction " << dir << " order " << i << " answers " << g << " exact " << e);
				if (e && g) MC_CHECK(c, len(v(q) - v(mk(m, 0))) < 1e-9 * (1 + f), "segseg-ratio-point", "point " << str(q)); c.obs(g);
			}
		}
	});
	c.section("point in triangle", "every triangle of a 3x3 (thorough 4x4) planar lattice, in three planes, against every point of a larger lattice");
	int N = c.bound(3, 4);
	for (int i = 0; i < N * N; i++) for (int j = 0; j < N * N; j++) for (int k = 0; k < N * N; k++) for (int plane = 0; plane < 4; plane++) {
		auto mk = [&](int u, int w) { return plane == 0 ? I{ u,w,0 } : plane == 1 ? I{ 1,u,w } : plane == 2 ? I{ u,w,u + w } : I{ 2 * u - w,u,w }; };
		int u[3] = { i % N,j % N,k % N }, w[3] = { i / N,j / N,k / N }; int cr = (u[1] - u[0]) * (w[2] - w[0]) - (u[2] - u[0]) * (w[1] - w[0]); if (cr == 0) continue;
		c.test([&, plane] { return "triangle " + tx(mk(u[0], w[0])) + tx(mk(u[1], w[1])) + tx(mk(u[2], w[2])); }, [&] {
			for (int f = 0; f < NF; f++) {
				Triangle3 t(pt(mk(u[0], w[0]), FR[f]), pt(mk(u[1], w[1]), FR[f]), pt(mk(u[2], w[2]), FR[f]));
				for (int x = -2; x < N + 2; x++) for (int y = -2; y < N + 2; y++) {
					int o[3]; for (int q = 0; q < 3; q++) { int r = (q + 1) % 3; o[q] = (u[r] - u[q]) * (y - w[q]) - (x - u[q]) * (w[r] - w[q]); if (cr < 0) o[q] = -o[q]; }
					bool e = o[0] >= 0 && o[1] >= 0 && o[2] >= 0, r = t.contains(pt(mk(x, y), FR[f])); c.step();
					if (r != e) { c.fail(e ? "contains-missed" : "contains-false", S() << "point " << tx(mk(x, y)) << " frame " << f << ": contains is " << r << ", exact " << e); return; }
					c.obs(r);
				}
			}
		});
	}
	// slopes: a segment that crosses however flatly crosses
	c.section("slopes", "segments crossing (or not) coordinate planes and triangles in them with end points at every power of two above or below, down to 2^-40, on every axis, at several lengths; points at such distances from the edges of a triangle");
	for (int i = 0; i <= 40; i++) for (int j = 0; j <= 40; j += (c.thorough() ? 1 : 5)) for (int ax = 0; ax < 3; ax++) c.test([=] { return (S() << "heights 2^-" << i << " and 2^-" << j << " on axis " << ax).str(); }, [&, i, j, ax] {
		auto mk = [&](double u, double w, double h) { return ax == 0 ? Point3(h, u, w) : ax == 1 ? Point3(u, h, w) : Point3(u, w, h); };
		double hi = std::ldexp(1., -i), hj = std::ldexp(1., -j);
		for (double len : { 1.,64.,4096. }) for (int sd = 0; sd < 4; sd++) for (int sw = 0; sw < 2; sw++) {
			double a = sd & 1 ? hi : -hi, b = sd & 2 ? hj : -hj, q = a / (a - b); bool e = a * b < 0;
			Point3 A = mk(-len / 2, 0, a), B = mk(len / 2, 0, b), x(9, 9, 9), y(9, 9, 9); Segment3 s(sw ? B : A, sw ? A : B); Triangle3 t(mk(-len, -len, 0), mk(len, -len, 0), mk(0, 2 * len, 0)), t2(mk(-len, -len, 0), mk(0, 2 * len, 0), mk(len, -len, 0));
			for (const Triangle3* tr : { &t,&t2 }) { bool r = Plane3(*tr).intersect_with(s, x), r2 = tr->intersect_with(s, y); c.step(2); MC_CHECK(c, r == e && r2 == e, e ? "slope-missed" : "slope-false", "length " << len << " sides " << sd << ": plane " << r << " triangle " << r2); if (e) MC_CHECK(c, near(x / len, v(mk(q - 0.5, 0, 0)), 1e-9) && same(x, y), "slope-point", "crosses at " << str(x)); }
			// the same as a thin triangle
			Triangle3 n(A, B, mk(0, len / 4, a)); if (e) { bool r = n.cutted_by(Plane3(t)), r2 = n.intersect_with(t), r3 = t.intersect_with(n); MC_CHECK(c, r && r2 && r3, "slope-triangle", "length " << len << ": cut " << r << " crossing " << r2 << r3); }
			// two segments in one plane
			if (e) { Point3 z; Segment3 g(mk(-len / 2, 0, 0), mk(len / 2, 0, 0)); (void)g; if (i <= 12 && j <= 12) { bool r = s.intersect(g, z), r2 = g.intersect(s, z); MC_CHECK(c, r && r2, "slope-segments", "length " << len << ": " << r << r2); } }
		}
		// distance 2^-i from the edges of a triangle
		double L = std::ldexp(1., j % 8); Triangle3 t(mk(0, 0, 1), mk(L, 0, 1), mk(0, L, 1)); c.step(6);
		if (hi < L / 4) MC_CHECK(c, t.contains(mk(hi, hi, 1)) && t.contains(mk(L / 2, hi, 1)) && t.contains(mk(hi, L / 2, 1)) && t.contains(mk(L / 2 - hi, L / 2 - hi, 1)) && !t.contains(mk(L / 2, -hi, 1)) && !t.contains(mk(-hi, L / 2, 1)) && !t.contains(mk(L / 2 + hi, L / 2 + hi, 1)) && !t.contains(mk(-hi, -hi, 1)) && !t.contains(mk(L + hi, 0, 1)) && !t.contains(mk(0, L + hi, 1)), "contains-near", "points at 2^-" << i << " from the border of a triangle of size " << L);
		c.obs(i * 41 + j);
	});
	// planes from a set of normals/positions
	std::vector<std::array<I, 3>> T; // triangles used as planes and triangles
	{ auto A = lattice(0, 2); size_t st = c.bound(2, 1); size_t n = 0; for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.size(); j++) for (size_t k = 0; k < A.size(); k++) { if (zero(crs(A[j] - A[i], A[k] - A[i]))) continue; if (n++ % (st * c.bound(5, 2)) == 0) T.push_back({ A[i],A[j],A[k] }); } }
	auto L5 = lattice(-1, 3, 2); { auto m = lattice(0, 2, 2); L5.insert(L5.end(), m.begin(), m.end()); L5.push_back({ 1,1,1 }); L5.push_back({ 0,1,2 }); } // odd and even points
	c.section("plane and triangle against segments", "a regular subset of all lattice triangles against every segment of a lattice");
	for (auto& t : T) c.test([&] { return "triangle " + tx(t[0]) + tx(t[1]) + tx(t[2]) + " against all segments"; }, [&] {
		I n = crs(t[1] - t[0], t[2] - t[0]); const Frame& F = FR[(t[0].x + t[1].y + t[2].z) % NF]; Triangle3 tr(pt(t[0], F), pt(t[1], F), pt(t[2], F)); Plane3 pl(tr); bool axis = axis_plane(n) && F.o == 0;
		for (auto& a : L5) for (auto& b : L5) {
			int sa = sg(dt(n, a - t[0])), sb = sg(dt(n, b - t[0])); LL da = dt(n, a - t[0]), db = dt(n, b - t[0]);
			Segment3 s(pt(a, F), pt(b, F)); Point3 q(9, 9, 9); bool r = pl.intersect_with(s, q); c.step(2);
			bool decided = (sa != 0 && sb != 0) || axis, e = sa * sb < 0; V at; if (e) at = vv(a, F) + (vv(b, F) - vv(a, F)) * ((double)da / (double)(da - db));
			if (decided && r != e) { c.fail(e ? "planeseg-missed" : "planeseg-false", S() << "segment " << tx(a) << tx(b) << ": plane answer " << r << ", exact " << e); return; }
			if (decided && e && !near(q / F.s, at * (1 / F.s), 1e-9)) { c.fail("planeseg-point", S() << "segment " << tx(a) << tx(b) << ": point " << str(q) << ", exact " << str(at)); return; }
			int et = seg_tri(a, b, t[0], t[1], t[2]); Point3 q2(9, 9, 9); bool r2 = tr.intersect_with(s, q2);
			if (et < 0 && sa && sb) { // crossing the border of the triangle: counts as inside where coordinates are exact
				et = -1;
			}
			if (et >= 0 && r2 != (et == 1)) { c.fail(et ? "triseg-missed" : "triseg-false", S() << "segment " << tx(a) << tx(b) << ": triangle answer " << r2 << ", exact " << et); return; }
			if (et == 1 && !near(q2 / F.s, at * (1 / F.s), 1e-9)) { c.fail("triseg-point", S() << "segment " << tx(a) << tx(b) << ": point " << str(q2) << ", exact " << str(at)); return; }
			if (r2 && decided && e) c.obsp(q2);
		}
	});
	c.section("triangle against plane and triangle", "pairs of lattice triangles, every vertex order of the second, both operand orders");
	auto L = lattice(0, 2); std::vector<std::array<I, 3>> U; { size_t n = 0; for (size_t i = 0; i < L.size(); i++) for (size_t j = i + 1; j < L.size(); j++) for (size_t k = j + 1; k < L.size(); k++) { if (zero(crs(L[j] - L[i], L[k] - L[i]))) continue; if (n++ % c.bound(3, 1) == 0) U.push_back({ L[i],L[j],L[k] }); } }
	for (size_t x = 0; x < T.size(); x++) {
		auto& t = T[x];
		c.test([&] { return "triangle " + tx(t[0]) + tx(t[1]) + tx(t[2]) + " against all triangles"; }, [&] {
			int order = (int)(x % 6); static const int pm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
			for (size_t y = 0; y < U.size(); y++) {
				order = (order + 1) % 6; std::array<I, 3> u = { U[y][pm[order][0]],U[y][pm[order][1]],U[y][pm[order][2]] };
				if (y % 2) for (auto& q : u) { q.x += (int)(y / 2 % 3) - 1; q.y += (int)(y / 6 % 3) - 1; q.z += (int)(y / 18 % 3) - 1; }
				const Frame& F = FR[y % NF]; Triangle3 A(pt(t[0], F), pt(t[1], F), pt(t[2], F)), B(pt(u[0], F), pt(u[1], F), pt(u[2], F)); Plane3 pa(A), pb(B);
				int sA[3], sB[3]; bool zA = false, zB = false; for (int k = 0; k < 3; k++) { sA[k] = orient(u[0], u[1], u[2], t[k]); sB[k] = orient(t[0], t[1], t[2], u[k]); zA |= sA[k] == 0; zB |= sB[k] == 0; }
				auto cut = [](int* s) { int p = 0, n = 0; for (int k = 0; k < 3; k++) { p += s[k] > 0; n += s[k] < 0; } return p && n; };
				bool cA = A.cutted_by(pb), cB = B.cutted_by(pa); c.step(4);
				bool exA = axis_plane(crs(t[1] - t[0], t[2] - t[0])) && F.o == 0, exB = axis_plane(crs(u[1] - u[0], u[2] - u[0])) && F.o == 0; // coordinate planes: distances are exact
				// a corner on another plane only decides the answer when the others do not already differ in sign
				if ((!zA || cut(sA) || exB) && cA != cut(sA)) { c.fail("cutted", S() << "first by the plane of " << tx(u[0]) << tx(u[1]) << tx(u[2]) << ": " << cA << ", exact " << cut(sA)); return; }
				if ((!zB || cut(sB) || exA) && cB != cut(sB)) { c.fail("cutted", S() << tx(u[0]) << tx(u[1]) << tx(u[2]) << " by the plane of the first: " << cB << ", exact " << cut(sB)); return; }
				int ex = 0; bool unknown = false;
				for (int k = 0; k < 3; k++) { int r1 = seg_tri(u[k], u[(k + 1) % 3], t[0], t[1], t[2]), r2 = seg_tri(t[k], t[(k + 1) % 3], u[0], u[1], u[2]); if (r1 == 1 || r2 == 1) ex = 1; if (r1 < 0 || r2 < 0) unknown = true; }
				if (ex == 1) unknown = false; // an edge strictly crosses the inside: touching elsewhere does not matter
				else if ((!zA && !cut(sA)) || (!zB && !cut(sB))) { ex = 0; unknown = false; }
				else if (zA || zB) unknown = true;
				if (unknown) continue;
				bool r = A.intersect_with(B), r2 = B.intersect_with(A);
				if (r != (ex == 1) || r2 != (ex == 1)) { c.fail(ex ? "tritri-missed" : "tritri-false", S() << "with " << tx(u[0]) << tx(u[1]) << tx(u[2]) << " frame " << (int)(y % NF) << ": answers " << r << "," << r2 << ", exact " << ex); return; }
				c.obs(r);
			}
			c.obs((int)x);
		});
	}
	c.section("plane plane", "pairs of lattice planes: parallel or not, and the line in both planes");
	for (size_t x = 0; x < T.size(); x++) c.test([&] { return "plane of " + tx(T[x][0]) + tx(T[x][1]) + tx(T[x][2]) + " against all"; }, [&] {
		for (size_t y = 0; y < T.size(); y += (c.thorough() ? 1 : 3)) {
			I na = crs(T[x][1] - T[x][0], T[x][2] - T[x][0]), nb = crs(T[y][1] - T[y][0], T[y][2] - T[y][0]); bool e = !zero(crs(na, nb));
			Plane3 A(pt(T[x][0], FR[0]), pt(T[x][1], FR[0]), pt(T[x][2], FR[0])), B(pt(T[y][0], FR[0]), pt(T[y][1], FR[0]), pt(T[y][2], FR[0])); Line3 l(Point3(5, 6, 7), Point3(5, 6, 7)); bool r = A.intersect_with(B, l); c.step();
			if (r != e) { c.fail("planeplane", S() << "with plane of " << tx(T[y][0]) << tx(T[y][1]) << tx(T[y][2]) << ": " << r << ", exact " << e); return; }
			if (!r) continue;
			auto off = [&](const Point3& p, I n, I o) { return std::fabs(dot(V{ (double)n.x,(double)n.y,(double)n.z }, v(p) - vv(o, FR[0]))) / std::sqrt((double)dt(n, n)); };
			double d = 0; for (const Point3& p : { l.p1(),l.p2() }) d = std::max(d, std::max(off(p, na, T[x][0]), off(p, nb, T[y][0])));
			if (!(d < 1e-8) || !(len(v(l.p1()) - v(l.p2())) > 1e-6)) { c.fail("planeplane-line", S() << "with plane of " << tx(T[y][0]) << tx(T[y][1]) << tx(T[y][2]) << ": line " << str(l.p1()) << str(l.p2()) << " is " << d << " off the planes"); return; }
			c.obsp(l.p1());
		}
	});
}
