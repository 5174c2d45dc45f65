// C09: point, vector, triangle, plane and box algebra on lattices where every expected value is exact.
#include "common.hpp"

namespace {
typedef std::array<long long, 3> I;
Point3 pt(const I& a, double s) { return Point3(a[0] * s, a[1] * s, a[2] * s); }
bool is(const Point3& p, double x, double y, double z) { return p.x() == x && p.y() == y && p.z() == z; }
std::string tx(const I& a) { return S() << "(" << a[0] << "," << a[1] << "," << a[2] << ")"; }
I sub(const I& a, const I& b) { return { a[0] - b[0],a[1] - b[1],a[2] - b[2] }; }
I crs(const I& a, const I& b) { return { a[1] * b[2] - a[2] * b[1],a[2] * b[0] - a[0] * b[2],a[0] * b[1] - a[1] * b[0] }; }
long long dt(const I& a, const I& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
std::vector<I> lattice(int lo, int hi, int step = 1) { std::vector<I> r; for (int x = lo; x <= hi; x += step) for (int y = lo; y <= hi; y += step) for (int z = lo; z <= hi; z += step) r.push_back({ x,y,z }); return r; }
}
void run(mc::Ctx& c)
{
	static const double SC[] = { 1,0.25,4096 };
	c.section("default values", "objects built without arguments over memory filled with every one of a few patterns are at the origin");
	for (int f : { 0,0x5a,0xff,0x3f }) c.test([&] { return (S() << "memory filled with " << f).str(); }, [&] {
		alignas(16) unsigned char b[512]; auto fill = [&] { memset(b, f, sizeof b); asm volatile("" : : "r"(b) : "memory"); }; auto z = [](const Point3& p) { return is(p, 0, 0, 0); }; c.step(4);
		fill(); MC_CHECK(c, z(*new (b) Point3()), "default-point", "a default point is not the origin"); fill(); Segment3* s = new (b) Segment3(); MC_CHECK(c, z(s->p1()) && z(s->p2()) && s->norm() == 0, "default-segment", "a default segment is not empty"); fill(); Triangle3* t = new (b) Triangle3(); MC_CHECK(c, z(t->p1()) && z(t->p2()) && z(t->p3()) && t->surface() == 0, "default-triangle", "a default triangle is not at the origin");
		fill(); BoundingBox3* x = new (b) BoundingBox3(); BoundingBox3 y; y.add(Point3()); y.add(Point3(1, 1, 1)); MC_CHECK(c, !x->intersect_with(y) && !y.intersect_with(*x), "default-box", "a default box is not empty"); x->add(Point3(2, 2, 2)); MC_CHECK(c, !x->intersect_with(y), "default-box", "a box of one point holds another"); x->add(Point3(0.5, 0.5, 0.5)); MC_CHECK(c, x->intersect_with(y), "default-box", "overlap"); c.obs(f); });
	c.section("single vectors", "every lattice vector: construction, accessors, norms, scaling, normalisation");
	for (auto& a : lattice(-3, 3)) for (double s : SC) c.test([&] { return (S() << tx(a) << " * " << s).str(); }, [&] {
		Point3 p = pt(a, s); c.step(12); double n2 = (double)dt(a, a) * s * s, n = std::sqrt((double)dt(a, a)) * s;
		MC_CHECK(c, p.x() == a[0] * s && p.y() == a[1] * s && p.z() == a[2] * s && p._x == p.x(), "accessors", "components are " << str(p));
		MC_CHECK(c, p.norm_square() == n2 && near(p.norm(), n, 1e-14), "norm", "norm " << p.norm() << " squared " << p.norm_square() << " expected " << n);
		MC_CHECK(c, Segment3(Point3(), p).norm_square() == n2 && near(Segment3(p, Point3()).norm(), n, 1e-14), "segment-norm", "segment norm " << Segment3(Point3(), p).norm());
		if (n2 > 0) { Point3 q = p.normalized(), r = p; r.normalize(); V e = v(p) * (1 / n);
			MC_CHECK(c, near(q, e, 1e-14) && near(r, e, 1e-14) && near(q.norm(), 1, 1e-14), "normalize", "normalised to " << str(q) << " and " << str(r)); MC_CHECK(c, same(p, pt(a, s)), "normalized-modifies", "normalized changed its operand"); }
		for (double k : { 0.,1.,-1.,2.,0.5,-8. }) {
			Point3 q = p * k, r = p; r *= k; MC_CHECK(c, is(q, a[0] * s * k, a[1] * s * k, a[2] * s * k) && same(q, r), "scale", "times " << k << " is " << str(q) << " or " << str(r));
			if (k != 0) { Point3 d = p / k, e = p; e /= k; MC_CHECK(c, is(d, a[0] * s / k, a[1] * s / k, a[2] * s / k) && same(d, e), "divide", "divided by " << k << " is " << str(d) << " or " << str(e)); }
		}
		Point3 q = p; Point3& back = (q += q); MC_CHECK(c, is(q, 2 * a[0] * s, 2 * a[1] * s, 2 * a[2] * s) && &back == &q, "alias-add", "p+=p gives " << str(q));
		q = p; q -= q; MC_CHECK(c, is(q, 0, 0, 0), "alias-sub", "p-=p gives " << str(q));
		q = p; q *= q.x(); MC_CHECK(c, is(q, a[0] * s * a[0] * s, a[1] * s * a[0] * s, a[2] * s * a[0] * s), "alias-scale", "p*=p.x gives " << str(q));
		if (a[1]) { q = p; q /= q.y(); MC_CHECK(c, near(q, V{ (double)a[0] / a[1],1,(double)a[2] / a[1] }, 1e-15), "alias-divide", "p/=p.y gives " << str(q)); }
		q.x() = 5; q.y() = 6; q.z() = 7; MC_CHECK(c, is(q, 5, 6, 7), "setters", "component references");
		c.obsp(p);
	});
	c.section("magnitudes", "every lattice vector of a few scaled by every power of two from 2^-120 to 2^120: norms, normalisation, planes");
	for (auto& a : { I{1,0,0},I{0,-1,0},I{0,0,1},I{1,1,1},I{3,-4,12},I{-2,1,2},I{5,0,-7} }) for (int e = -120; e <= 120; e++) c.test([&] { return (S() << tx(a) << " * 2^" << e).str(); }, [&] {
		double s = std::ldexp(1., e), n = std::sqrt((double)dt(a, a)); Point3 p = pt(a, s), q = p.normalized(), r = p; r.normalize(); V u = V{ (double)a[0],(double)a[1],(double)a[2] } *(1 / n); c.step(6);
		MC_CHECK(c, near(p.norm() / s, n, 1e-14) && near(p.norm_square() / s / s, n * n, 1e-14), "norm", "norm " << p.norm()); MC_CHECK(c, near(q, u, 1e-14) && near(r, u, 1e-14), "normalize", "normalised to " << str(q) << " and " << str(r));
		MC_CHECK(c, near(Segment3(Point3(), p).norm() / s, n, 1e-14) && near(p.distance_square(Point3()) / s / s, n * n, 1e-14), "segment-norm", "length " << Segment3(Point3(), p).norm());
		I b = { a[1] + 1,a[2] - 1,a[0] + 2 }, k = crs(a, b); double kn = std::sqrt((double)dt(k, k)); if (kn == 0) return;
		Triangle3 t(Point3(), p, pt(b, s)); V un = V{ (double)k[0],(double)k[1],(double)k[2] } *(1 / kn); Plane3 pl(t);
		MC_CHECK(c, near(t.surface() / s / s, kn / 2, 1e-14) && near(t.normal(), un, 1e-13), "triangle-area", "area " << t.surface() << " normal " << str(t.normal()));
		MC_CHECK(c, near(pl.normal(), un, 1e-13), "plane-normal", "normal " << str(pl.normal()) << " expected " << str(un));
		Point3 w = pt({ 1,-2,5 }, s), pr; pl.project_point(w, pr); double dist = dt(k, I{ 1,-2,5 }) / kn;
		MC_CHECK(c, std::fabs(pl.distance_to(w) / s - dist) < 1e-12, "plane-distance", "distance " << pl.distance_to(w)); MC_CHECK(c, near(pr / s, V{ 1,-2,5 } - un * dist, 1e-12), "plane-projection", "projection " << str(pr));
		BoundingBox3 x, y, z; x.add(p); x.add(Point3()); y.add(pt(a, s * 0.5)); z.add(pt(a, s * 2)); z.add(pt(a, s * 1.5)); MC_CHECK(c, x.intersect_with(y) && y.intersect_with(x) && !x.intersect_with(z) && !z.intersect_with(x), "box", "boxes along the vector");
		c.obsp(q); c.obs(p.norm());
	});
	c.section("near unit", "every lattice direction with a length of one plus or minus every power of two down to 2^-52, and exactly one: normalising gives length one and the direction");
	for (auto& a : lattice(-2, 2)) { if (!dt(a, a)) continue; c.test([&] { return tx(a); }, [&] {
		double n = std::sqrt((double)dt(a, a)); V u = V{ (double)a[0],(double)a[1],(double)a[2] } *(1 / n);
		for (int k = 0; k <= 52; k++) for (int sg = -1; sg <= 1; sg++) { double f = 1 + sg * std::ldexp(1., -k); if (f == 0) continue; Point3 p = P(u * f), q = p.normalized(), r = p; r.normalize(); c.step(2);
			if (!(len(v(q) - u) < 2e-15 && len(v(r) - u) < 2e-15)) { c.fail("normalize-near-unit", S() << "length 1" << (sg < 0 ? "-" : "+") << "2^-" << k << ": off by " << len(v(q) - u) << " and " << len(v(r) - u)); return; } MC_CHECK(c, std::fabs(p.norm() - f) < 2e-15 * f, "norm-near-unit", "norm " << p.norm() - f << " off"); c.obsp(q); } }); }
	c.section("extreme factors", "vectors of every power of two from 2^-1020 to 2^1000 scaled and divided by every power of two, the result representable: plain and compound operators");
	for (int e = -1020; e <= 1000; e += c.bound(10, 1)) c.test([&] { return (S() << "factor 2^" << e).str(); }, [&] {
		double k = std::ldexp(1., e); for (int r = -100; r <= 100; r += 20) for (auto& a : { I{1,-2,3},I{0,5,-7},I{-3,0,1} }) {
			Point3 want = pt(a, std::ldexp(1., r)); if (r + e > -1000 && r + e < 1000) { Point3 p = pt(a, std::ldexp(1., r + e)), q = p / k, m = p; m /= k; c.step(2); MC_CHECK(c, same(q, want) && same(m, want), "divide-extreme", str(p) << " divided by " << k << " is " << str(q) << " or " << str(m)); }
			if (r - e > -1000 && r - e < 1000) { Point3 p = pt(a, std::ldexp(1., r - e)), q = p * k, m = p; m *= k; c.step(2); MC_CHECK(c, same(q, want) && same(m, want), "scale-extreme", str(p) << " times " << k << " is " << str(q) << " or " << str(m)); }
		} c.obs(e); });
	c.section("thin triangles", "triangles of unit base and every power of two from 2^0 to 2^-60 of height, apex over and beyond the base, every axis assignment and corner order: area, normal and plane to full precision");
	for (int h = 0; h <= 60; h++) for (double x : { 0.,0.25,0.5,1.,1.5,-3.,0.3 }) for (int ax = 0; ax < 6; ax++) for (int rot = 0; rot < 6; rot++) c.test([&] { return (S() << "height 2^-" << h << " apex at " << x << " axes " << ax << " order " << rot).str(); }, [&] {
		static const int pm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} }; double H = std::ldexp(1., -h); auto mk = [&](double a, double b) { double q[3] = { 0,0,0 }; q[pm[ax][0]] = a; q[pm[ax][1]] = b; return V{ q[0],q[1],q[2] }; }; V t0[3] = { mk(0, 0),mk(1, 0),mk(x, H) }, t[3]; for (int k = 0; k < 3; k++) t[k] = t0[pm[rot][k]];
		V n = cross(t0[1] - t0[0], t0[2] - t0[0]) * (1 / H); if (rot == 1 || rot == 2 || rot == 5) n = n * -1.; Triangle3 q(P(t[0]), P(t[1]), P(t[2])); c.step(4);
		MC_CHECK(c, std::fabs(q.surface() / (H / 2) - 1) < 1e-12, "thin-area", "area " << q.surface() << " expected " << H / 2); MC_CHECK(c, near(q.normal(), n, 1e-12), "thin-normal", "normal " << str(q.normal()) << " expected " << str(n)); Point3 o = q.orthogonal(); MC_CHECK(c, near(o / H, n, 1e-12), "thin-orthogonal", "orthogonal " << str(o));
		Plane3 pl(q); MC_CHECK(c, near(pl.normal(), n, 1e-12) && std::fabs(pl.distance_to(P(n * 3. + t[1])) - 3) < 1e-11, "thin-plane", "plane normal " << str(pl.normal()) << " distance " << pl.distance_to(P(n * 3. + t[1]))); c.obsp(q.normal()); c.obs(h);
	});
	c.section("vector pairs", "every pair of lattice vectors: sum, difference, dot, cross, distance");
	auto L = lattice(-2, 2); // 125
	for (auto& a : L) for (auto& b : L) c.test([&] { return tx(a) + " " + tx(b); }, [&] {
		for (double s : SC) {
			Point3 p = pt(a, s), q = pt(b, s), r = p, t = p; r += q; t -= q; Point3 u = p + q, w = p - q; c.step(8);
			MC_CHECK(c, is(u, (a[0] + b[0]) * s, (a[1] + b[1]) * s, (a[2] + b[2]) * s) && same(u, r), "add", "sum " << str(u) << " compound " << str(r));
			MC_CHECK(c, is(w, (a[0] - b[0]) * s, (a[1] - b[1]) * s, (a[2] - b[2]) * s) && same(w, t), "sub", "difference " << str(w) << " compound " << str(t));
			MC_CHECK(c, p.dot_product(q) == dt(a, b) * s * s, "dot", "dot product " << p.dot_product(q));
			I k = crs(a, b); Point3 x = p.cross_product(q); MC_CHECK(c, is(x, k[0] * s * s, k[1] * s * s, k[2] * s * s), "cross", "cross product " << str(x));
			MC_CHECK(c, p.distance_square(q) == dt(sub(a, b), sub(a, b)) * s * s, "distance", "squared distance " << p.distance_square(q));
			MC_CHECK(c, same(p, pt(a, s)) && same(q, pt(b, s)), "operands", "an operand was modified");
			Segment3 g(p, q); MC_CHECK(c, same(g.p1(), p) && same(g.p2(), q) && g.norm_square() == p.distance_square(q), "segment", "segment of the two points"); g.set_p1(q); g.set_p2(p); MC_CHECK(c, same(g.p1(), q) && same(g.p2(), p), "segment", "segment setters");
			Line3 li(p, q); MC_CHECK(c, same(li.p1(), p) && same(li.p2(), q), "line", "line of the two points"); li.set_p1(q); li.set_p2(p); MC_CHECK(c, same(li.p1(), q) && same(li.p2(), p), "line", "line setters");
			c.obsp(x);
		}
	});
	c.section("far from the origin", "lattice vectors, segments, triangles and boxes moved away from the origin along every axis and diagonal by every power of two: differences, distances, areas and normals are those of the unmoved ones");
	for (auto& dir : { I{1,0,0},I{0,1,0},I{0,0,-1},I{1,1,1},I{-1,1,0},I{0,-1,2} }) for (int e = 0; e <= 44; e += c.bound(2, 1)) c.test([&] { return (S() << "moved by " << tx(dir) << " * 2^" << e).str(); }, [&] {
		long long f = 1LL << e; auto at = [&](const I& a) { return pt({ a[0] + dir[0] * f,a[1] + dir[1] * f,a[2] + dir[2] * f }, 1); };
		static const I LS[] = { {0,0,0},{1,0,0},{0,-1,0},{0,0,1},{1,2,-2},{3,-4,12},{-5,1,3},{2,2,2},{0,7,-1} };
		for (auto& a : LS) for (auto& b : LS) {
			I d = sub(a, b); double n2 = (double)dt(d, d); Point3 p = at(a), q = at(b), r = p - q; c.step(4);
			MC_CHECK(c, p.distance_square(q) == n2, "far-distance", "squared distance of " << str(p) << " and " << str(q) << " is " << p.distance_square(q) << ", expected " << n2);
			MC_CHECK(c, is(r, d[0], d[1], d[2]), "far-difference", "difference " << str(r)); MC_CHECK(c, Segment3(p, q).norm_square() == n2 && std::fabs(Segment3(p, q).norm() - std::sqrt(n2)) <= 1e-14 * std::sqrt(n2), "far-segment", "length " << Segment3(p, q).norm() << ", expected " << std::sqrt(n2));
			if (!n2) continue;
			for (auto& g : LS) { I k = crs(sub(b, a), sub(g, a)); double kn = std::sqrt((double)dt(k, k)); Triangle3 t(p, q, at(g)); c.step(2);
				MC_CHECK(c, std::fabs(t.surface() - kn / 2) <= 1e-13 * kn, "far-area", "area " << t.surface() << ", expected " << kn / 2); if (kn == 0) continue; V un = { k[0] / kn,k[1] / kn,k[2] / kn };
				MC_CHECK(c, len(v(t.normal()) - un) < 1e-13, "far-normal", "normal " << str(t.normal()) << ", expected " << str(un)); Plane3 pl(t); MC_CHECK(c, len(v(pl.normal()) - un) < 1e-13, "far-plane", "plane normal " << str(pl.normal()));
				double tol = std::ldexp(1., e - 47) + 1e-12; for (auto& w : LS) { double dist = dt(k, sub(w, a)) / kn; if (std::fabs(pl.distance_to(at(w)) - dist) > tol) { c.fail("far-plane", S() << "distance " << pl.distance_to(at(w)) << ", expected " << dist); return; } Point3 pr; pl.project_point(at(w), pr); if (len(v(pr - at(w)) + un * dist) > tol * 3) { c.fail("far-projection", S() << "projection " << str(pr)); return; } }
				BoundingBox3 x, y, o; x.add(p); x.add(q); y.add(at(g)); bool in = true; for (int i = 0; i < 3; i++) in = in && std::min(a[i], b[i]) <= g[i] && g[i] <= std::max(a[i], b[i]); MC_CHECK(c, x.intersect_with(y) == in && y.intersect_with(x) == in, "far-box", "a point and a box"); c.obsp(t.normal()); }
		} });
	c.section("triangles and planes", "every lattice triangle: area, normal, plane, projections of lattice points");
	auto M = c.thorough() ? lattice(-1, 2) : lattice(0, 2); auto Q = lattice(-3, 3, 3);
	for (auto& a : M) for (auto& b : M) for (auto& d : M) c.test([&] { return tx(a) + " " + tx(b) + " " + tx(d); }, [&] {
		I n = crs(sub(b, a), sub(d, a)); double nn = std::sqrt((double)dt(n, n));
		for (double s : { 1.,0.25 }) {
			Triangle3 t(pt(a, s), pt(b, s), pt(d, s)), e; e.set_p1(pt(a, s)); e.set_p2(pt(b, s)); e.set_p3(pt(d, s)); c.step(6);
			MC_CHECK(c, same(t.p1(), e.p1()) && same(t.p2(), e.p2()) && same(t.p3(), e.p3()) && same(t.p3(), pt(d, s)), "triangle", "corners");
			MC_CHECK(c, near(t.surface(), nn * s * s / 2, 1e-14), "triangle-area", "area " << t.surface());
			Point3 o = t.orthogonal(); MC_CHECK(c, is(o, n[0] * s * s, n[1] * s * s, n[2] * s * s), "triangle-orthogonal", "orthogonal " << str(o) << " expected direction " << tx(n));
			if (nn == 0) continue;
			V un = { n[0] / nn,n[1] / nn,n[2] / nn }; MC_CHECK(c, near(t.normal(), un, 1e-14), "triangle-normal", "normal " << str(t.normal()));
			Plane3 p(t), p2(t.p1(), t.p2(), t.p3()), p3, p4; p3.compute_using(t); p4.compute_using(Point3(1, 2, 3), Point3(4, 5, 7), Point3(9, 8, 6)); p4.compute_using(t.p1(), t.p2(), t.p3()); c.step(4);
			double A, B, C, D; p.get(A, B, C, D); for (Plane3* o2 : { &p2,&p3,&p4 }) { double A2, B2, C2, D2; o2->get(A2, B2, C2, D2); MC_CHECK(c, A == A2 && B == B2 && C == C2 && D == D2, "plane-builders", "the ways to build a plane disagree"); }
			MC_CHECK(c, near(p.normal(), un, 1e-14) && A == p.normal().x() && B == p.normal().y() && C == p.normal().z(), "plane-normal", "normal " << str(p.normal()) << " expected " << str(un));
			for (auto& q : Q) {
				V w = { q[0] * s,q[1] * s,q[2] * s }; double dist = (double)dt(n, sub(q, a)) / nn * s; Point3 pr(7, 7, 7); p.project_point(P(w), pr); c.step(2);
				MC_CHECK(c, std::fabs(p.distance_to(P(w)) - dist) < 1e-12, "plane-distance", "distance of " << str(w) << " is " << p.distance_to(P(w)) << " expected " << dist);
				MC_CHECK(c, near(pr, w - un * dist, 1e-12), "plane-projection", "projection of " << str(w) << " is " << str(pr) << " expected " << str(w - un * dist));
				Point3 al = P(w); p.project_point(al, al); MC_CHECK(c, same(al, pr), "plane-projection-alias", "projecting onto itself gives " << str(al)); c.obsp(pr);
			}
			for (const Point3& q : { t.p1(),t.p2(),t.p3() }) MC_CHECK(c, std::fabs(p.distance_to(q)) < 1e-12, "plane-contains", "corner " << str(q) << " is at " << p.distance_to(q));
		}
	});
	c.section("boxes", "every pair of boxes built from up to three lattice points in every order, empty boxes included");
	auto B = lattice(0, 1); // 8
	std::vector<std::vector<I>> sets; sets.push_back({}); for (auto& a : B) sets.push_back({ a });
	for (auto& a : B) for (auto& b : B) sets.push_back({ a,b });
	for (auto& a : { I{0,0,0},I{2,-1,0},I{-1,1,1} }) for (auto& b : { I{1,1,1},I{0,3,-2} }) for (auto& d : { I{2,2,0},I{-2,0,3} }) for (int k = 0; k < 6; k++) { std::vector<I> s = { a,b,d }; static const int pm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} }; sets.push_back({ s[pm[k][0]],s[pm[k][1]],s[pm[k][2]] }); }
	std::vector<I> offs; for (auto& o : lattice(-2, 2, 1)) offs.push_back(o);
	for (size_t i = 0; i < sets.size(); i++) for (size_t j = 0; j < sets.size(); j++) c.test([&] { S s; s << "box of"; for (auto& a : sets[i]) s << " " << tx(a); s << " and of"; for (auto& a : sets[j]) s << " " << tx(a); s << " moved over a lattice"; return s.str(); }, [&] {
		for (auto& o : offs) {
			BoundingBox3 x, y; I lo1{ 99,99,99 }, hi1{ -99,-99,-99 }, lo2 = lo1, hi2 = hi1;
			for (auto& a : sets[i]) { x.add(pt(a, 1)); for (int k = 0; k < 3; k++) { lo1[k] = std::min(lo1[k], a[k]); hi1[k] = std::max(hi1[k], a[k]); } }
			for (auto& a : sets[j]) { I q = { a[0] + o[0],a[1] + o[1],a[2] + o[2] }; y.add(pt(q, 1)); for (int k = 0; k < 3; k++) { lo2[k] = std::min(lo2[k], q[k]); hi2[k] = std::max(hi2[k], q[k]); } }
			bool e = true; for (int k = 0; k < 3; k++) e = e && lo1[k] <= hi2[k] && lo2[k] <= hi1[k]; if (sets[i].empty() || sets[j].empty()) e = false; c.step(2);
			MC_CHECK(c, x.intersect_with(y) == e && y.intersect_with(x) == e, sets[i].empty() || sets[j].empty() ? "box-empty" : "box", "second box moved by " << tx(o) << ": overlap is " << x.intersect_with(y) << "/" << y.intersect_with(x) << ", expected " << e);
			if (sets[i].size() == 3) { Triangle3 t(pt(sets[i][0], 1), pt(sets[i][1], 1), pt(sets[i][2], 1)); MC_CHECK(c, BoundingBox3(t).intersect_with(y) == e, "box-triangle", "box of the triangle"); }
			c.obs(e);
		}
	});
}
