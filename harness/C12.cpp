// C12: transforms against their mathematical definition on angle/axis grids and over re-configuration histories.
#include "common.hpp"
#include "Transform.h"

namespace {
const double PI = 3.14159265358979323846;
V rodrigues(const V& p, double deg, const V& k) { double a = deg * PI / 180, co = std::cos(a), si = std::sin(a); return p * co + cross(k, p) * si + k * (dot(k, p) * (1 - co)); }
// the camera convention: yaw about y, then pitch about x with y mirrored, then roll about z (clockwise)
V euler(V p, double yaw, double pitch, double roll)
{
	double a = yaw * PI / 180, b = pitch * PI / 180, g = roll * PI / 180;
	p = { p.x * std::cos(a) + p.z * std::sin(a),p.y,p.z * std::cos(a) - p.x * std::sin(a) };
	p = { p.x,p.z * std::sin(b) - p.y * std::cos(b),p.z * std::cos(b) + p.y * std::sin(b) };
	return { p.x * std::cos(g) + p.y * std::sin(g),p.y * std::cos(g) - p.x * std::sin(g),p.z };
}
V ap(const Transform& t, const V& p) { Point3 q = P(p); t.apply(q); return v(q); }
bool eq(const V& a, const V& b, double scale = 1) { return len(a - b) <= 1e-9 * (scale + len(a) + len(b)); }
std::vector<V> pts() { std::vector<V> r; for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = -2; z <= 2; z += 2) r.push_back({ (double)x,y * 1.5,z * 0.75 }); return r; }
std::vector<V> axes(int m) { std::vector<V> r; for (int x = -m; x <= m; x++) for (int y = -m; y <= m; y++) for (int z = -m; z <= m; z++) { if (!x && !y && !z) continue; V a = { (double)x,(double)y,(double)z }; r.push_back(a * (1 / len(a))); } return r; }
}
void run(mc::Ctx& c)
{
	auto PT = pts(); double tiny = 1e-15;
	c.section("default", "rotations and scales built without arguments over memory filled with each of five patterns: the identity (Euler angles: all zero), the matrix read back is the unit matrix");
	for (int f : MEMORY) c.test([&] { return (S() << "memory filled with " << f).str(); }, [&] {
		Over<RotationMatrix> m(f); Over<RotationQuaternion> q(f); Over<Scale> s(f); Over<RotationEulerAngles> e(f), e0(f, 0., 0., 0.); Over<RotationAngleAxis> a(f); double r[9]; m->get_matrix(r);
		for (int i = 0; i < 9; i++) MC_CHECK(c, r[i] == (i % 4 == 0), "default-matrix", "entry " << i << " of a default matrix is " << r[i]);
		for (auto& p : PT) { c.step(5); MC_CHECK(c, eq(ap(*m, p), p), "default-matrix", "a default rotation matrix moves " << str(p) << " to " << str(ap(*m, p))); MC_CHECK(c, eq(ap(*q, p), p), "default-quaternion", "a default quaternion moves " << str(p) << " to " << str(ap(*q, p))); MC_CHECK(c, eq(ap(*s, p), p), "scale-default", "a default scale moves " << str(p)); MC_CHECK(c, eq(ap(*e, p), ap(*e0, p)), "default-euler", "default Euler angles move " << str(p) << " to " << str(ap(*e, p))); MC_CHECK(c, eq(ap(*a, p), p), "default-angle-axis", "a default angle-axis rotation moves " << str(p) << " to " << str(ap(*a, p))); c.obsp(P(ap(*m, p))); }
	});
	c.section("translations and scales", "every small lattice vector as translation and as scale factors");
	for (int x = -2; x <= 2; x++) for (int y = -2; y <= 2; y++) for (int z = -2; z <= 2; z++) for (double s : { 1.,0.25,1000. })
		c.test([&] { return (S() << "vector " << x << "," << y << "," << z << " times " << s).str(); }, [&] {
			Translation t(Point3(x * s, y * s, z * s)); Scale k(x * s, y * s, z * s), d; std::vector<Point3> all, all2; for (auto& p : PT) { all.push_back(P(p)); all2.push_back(P(p)); }
			t.apply_all(all); k.apply_all(all2); c.step(2);
			for (size_t i = 0; i < PT.size(); i++) {
				auto& p = PT[i]; V a = ap(t, p), b = ap(k, p); c.step(3);
				MC_CHECK(c, eq(a, V{ p.x + x * s,p.y + y * s,p.z + z * s }), "translate", str(p) << " becomes " << str(a)); MC_CHECK(c, eq(b, V{ p.x * x * s,p.y * y * s,p.z * z * s }), "scale", str(p) << " becomes " << str(b));
				MC_CHECK(c, eq(ap(d, p), p), "scale-default", "default scale moves " << str(p)); MC_CHECK(c, same(all[i], P(a)) && same(all2[i], P(b)), "apply-all", "applying to the list gives " << str(all[i]) << " and " << str(all2[i]));
				c.obsp(P(b));
			}
		});
	std::vector<double> ang; for (double a = -720; a <= 720; a += c.bound(15., 5.)) ang.push_back(a); for (double a : { 1.,37.,-0.001,1e-6,179.999,359.9,123.456 }) ang.push_back(a);
	auto AX = axes(c.bound(2, 3));
	c.section("rotations", "every unit axis of a lattice direction times every angle of a grid over four turns: Rodrigues formula, isometry, three representations, inverse, matrix read back");
	for (auto& k : AX) for (double a : ang) c.test([&] { return (S() << "axis " << str(k) << " angle " << a).str(); }, [&] {
		RotationAngleAxis aa(a, P(k)), a2, a3; a2.set_angle_axis(a, P(k)); a3.from_angle_axis(a, P(k)); RotationMatrix m; m.from_angle_axis(a, P(k)); RotationQuaternion q; q.from_angle_axis(a, P(k));
		double mm[9]; m.get_matrix(mm); RotationMatrix m2(mm), m3; m3.set_matrix(mm); double back[9]; m3.get_matrix(back); for (int i = 0; i < 9; i++) MC_CHECK(c, back[i] == mm[i], "matrix-back", "element " << i << " reads " << back[i] << ", was " << mm[i]);
		double h = a * PI / 360, qq[4] = { std::cos(h),k.x * std::sin(h),k.y * std::sin(h),k.z * std::sin(h) }; RotationQuaternion q2(qq), q3; q3.set_quaternion(qq); RotationAngleAxis inv(-a, P(k)); RotationQuaternion qi; qi.from_angle_axis(-a, P(k)); RotationMatrix mi; mi.from_angle_axis(-a, P(k));
		std::vector<const Transform*> all = { &aa,&a2,&a3,&m,&m2,&m3,&q,&q2,&q3 };
		MC_CHECK(c, eq(ap(aa, k), k) && eq(ap(q, k), k), "rotation-axis", "the axis moves to " << str(ap(aa, k)));
		for (size_t i = 0; i < PT.size(); i += 2) {
			auto& p = PT[i]; V e = rodrigues(p, a, k);
			for (size_t t = 0; t < all.size(); t++) { V g = ap(*all[t], p); c.step(); if (!eq(g, e)) c.fail("rotation", S() << "representation " << (int)t << " takes " << str(p) << " to " << str(g) << ", expected " << str(e)); }
			MC_CHECK(c, std::fabs(len(ap(aa, p)) - len(p)) < 1e-9, "isometry", "length of " << str(p) << " changes");
			MC_CHECK(c, eq(ap(inv, ap(aa, p)), p) && eq(ap(qi, ap(q, p)), p) && eq(ap(mi, ap(m, p)), p), "inverse", "the opposite angle does not undo");
			if (i < 6) c.obsp(P(ap(aa, p)));
		}
		(void)tiny;
		// matrix rows orthonormal, determinant one
		V r0 = { mm[0],mm[1],mm[2] }, r1 = { mm[3],mm[4],mm[5] }, r2 = { mm[6],mm[7],mm[8] }; MC_CHECK(c, near(dot(cross(r0, r1), r2), 1) && near(len(r0), 1) && near(len(r1), 1) && near(len(r2), 1) && std::fabs(dot(r0, r1)) < 1e-9 && std::fabs(dot(r1, r2)) < 1e-9, "matrix", "the matrix is not a proper rotation");
	});
	c.section("composition", "rotations about one axis: every pair of angles adds");
	auto A3 = axes(1); for (auto& k : A3) for (double a = -360; a <= 360; a += 30) for (double b = -360; b <= 360; b += 45) c.test([&] { return (S() << "axis " << str(k) << " angles " << a << " " << b).str(); }, [&] {
		RotationAngleAxis x(a, P(k)), y(b, P(k)), z(a + b, P(k)); RotationQuaternion q1, q2; q1.from_angle_axis(a, P(k)); q2.from_angle_axis(b, P(k));
		for (size_t i = 0; i < PT.size(); i += 5) { V e = ap(z, PT[i]); c.step(5); MC_CHECK(c, eq(ap(y, ap(x, PT[i])), e) && eq(ap(q2, ap(q1, PT[i])), e), "compose", "rotating " << str(PT[i]) << " twice differs from " << str(e)); c.obsp(P(e)); }
	});
	c.section("euler", "every yaw, pitch and roll of a grid against the camera convention");
	double st = c.bound(30., 15.); for (double y = -180; y <= 360; y += st) for (double p = -180; p <= 180; p += st) for (double r = -180; r <= 180; r += st) c.test([&] { return (S() << "yaw " << y << " pitch " << p << " roll " << r).str(); }, [&] {
		RotationEulerAngles e(y, p, r), f; f.set_angles(y, p, r); RotationEulerAngles g(1, 2, 3); g.set_angles(y, p, r);
		for (size_t i = 0; i < PT.size(); i += 4) {
			V o = euler(PT[i], y, p, r), a = ap(e, PT[i]); c.step(3); MC_CHECK(c, eq(a, o), "euler", str(PT[i]) << " becomes " << str(a) << ", expected " << str(o));
			MC_CHECK(c, same(P(a), P(ap(f, PT[i]))) && same(P(a), P(ap(g, PT[i]))), "euler-reconfigured", "set_angles differs from constructing"); MC_CHECK(c, std::fabs(len(a) - len(PT[i])) < 1e-9, "euler-isometry", "length changes"); c.obsp(P(a));
		}
	});
	c.section("reconfigured", "every ordered pair of settings (yaw, pitch and roll each over a palette; axis and angle each over a palette) of one object: the second one counts, whichever part is unchanged");
	{ static const double AN[] = { 0,30,-90,30.000001 }; std::vector<V> E3; for (double a : AN) for (double b : AN) for (double d : AN) E3.push_back({ a,b,d }); static const V KX[] = { {0,0,1},{0,0.6,0.8},{0,-0.6,0.8},{1,0,0},{0.6,0,0.8} };
	for (auto& f : E3) c.test([&] { return "first " + str(f); }, [&] { for (auto& g : E3) { RotationEulerAngles e(f.x, f.y, f.z), h; V p{ 1,2,3 }; ap(e, p); e.set_angles(g.x, g.y, g.z); h.set_angles(f.x, f.y, f.z); h.set_angles(g.x, g.y, g.z); V o = euler(p, g.x, g.y, g.z), r = ap(e, p), r2 = ap(h, p); c.step(2); if (!(len(r - o) < 1e-9 && len(r2 - o) < 1e-9)) { c.fail("euler-reconfigured", S() << "then " << str(g) << ": " << str(p) << " becomes " << str(r) << str(r2) << ", expected " << str(o)); return; } c.obsp(P(r)); } });
	for (auto& k1 : KX) for (double a1 : AN) c.test([&] { return (S() << "first " << a1 << " about " << str(k1)).str(); }, [&] { for (auto& k2 : KX) for (double a2 : AN) { RotationAngleAxis a(a1, P(k1)), b; b.set_angle_axis(a1, P(k1)); RotationMatrix m; m.from_angle_axis(a1, P(k1)); RotationQuaternion q; q.from_angle_axis(a1, P(k1)); V p{ 1,2,3 }; ap(a, p); ap(m, p); ap(q, p);
		a.set_angle_axis(a2, P(k2)); b.from_angle_axis(a2, P(k2)); m.from_angle_axis(a2, P(k2)); q.from_angle_axis(a2, P(k2)); V o = rodrigues(p, a2, k2); c.step(4); for (const Transform* t : { (const Transform*)&a,(const Transform*)&b,(const Transform*)&m,(const Transform*)&q }) if (!(len(ap(*t, p) - o) < 1e-9)) { c.fail("reconfigured", S() << "then " << a2 << " about " << str(k2) << ": " << str(p) << " becomes " << str(ap(*t, p)) << ", expected " << str(o)); return; } c.obsp(P(ap(a, p))); } }); }
	c.section("set again", "every ordered pair of explicit unit quaternions over {0,+-1/2,+-1,+-0.6,+-0.8}^4 and of explicit matrices (all signed axis permutations of determinant one): the second one counts, whichever entries are unchanged");
	{ static std::vector<std::array<double, 4>> QS; if (QS.empty()) { const double L[] = { 0,0.5,-0.5,1,-1,0.6,-0.6,0.8,-0.8 }; for (double a : L) for (double b : L) for (double d : L) for (double e : L) if (std::fabs(a * a + b * b + d * d + e * e - 1) < 1e-12) QS.push_back({ a,b,d,e }); }
	auto qrot = [](const std::array<double, 4>& q, const V& p) { V u{ q[1],q[2],q[3] }, t = cross(u, p) * 2; return p + t * q[0] + cross(u, t); };
	for (auto& f : QS) c.test([&] { return (S() << "first quaternion " << f[0] << "," << f[1] << "," << f[2] << "," << f[3]).str(); }, [&] { for (auto& g : QS) { RotationQuaternion q; double x[4] = { f[0],f[1],f[2],f[3] }, y[4] = { g[0],g[1],g[2],g[3] }; V p{ 1,2,3 }; q.set_quaternion(x); ap(q, p); q.set_quaternion(y); V r = ap(q, p), o = qrot(g, p); c.step(2); if (!(len(r - o) < 1e-9)) { c.fail("quaternion-again", S() << "then " << g[0] << "," << g[1] << "," << g[2] << "," << g[3] << ": " << str(p) << " becomes " << str(r) << ", expected " << str(o)); return; } c.obsp(P(r)); } });
	static std::vector<std::array<double, 9>> MS; if (MS.empty()) { int pm[6][3] = { {0,1,2},{1,2,0},{2,0,1},{1,0,2},{0,2,1},{2,1,0} }; for (int k = 0; k < 6; k++) for (int s = 0; s < 8; s++) { int neg = (s & 1) + (s >> 1 & 1) + (s >> 2) + (k > 2); if (neg % 2) continue; std::array<double, 9> a{}; for (int i = 0; i < 3; i++) a[3 * i + pm[k][i]] = s >> i & 1 ? -1 : 1; MS.push_back(a); } }
	for (auto& f : MS) c.test([&] { S s; s << "first matrix"; for (double x : f) s << " " << x; return s.str(); }, [&] { for (auto& g : MS) { RotationMatrix m; double x[9], y[9]; for (int i = 0; i < 9; i++) { x[i] = f[i]; y[i] = g[i]; } V p{ 1,2,3 }; m.set_matrix(x); ap(m, p); m.set_matrix(y); V r = ap(m, p), o{ g[0] * p.x + g[1] * p.y + g[2] * p.z,g[3] * p.x + g[4] * p.y + g[5] * p.z,g[6] * p.x + g[7] * p.y + g[8] * p.z }; c.step(2); if (!(len(r - o) < 1e-12)) { c.fail("matrix-again", S() << str(p) << " becomes " << str(r) << ", expected " << str(o)); return; } c.obsp(P(r)); } }); }
	c.section("histories", "every sequence of re-configurations and uses of one object up to a depth equals a fresh object");
	struct Cfg { double a; V k; }; static const Cfg CF[] = { {90,{0,0,1}},{-37,{0.6,0,0.8}},{180,{1,0,0}},{0,{0,1,0}},{500,{0,-0.8,0.6}} };
	sequences(8, c.bound(3, 4), [&](const std::vector<int>& s) {
		c.test([&] { S o; o << "configurations (0-4 angle-axis, 5 explicit matrix/quaternion, 6 copy of another, 7 apply only)"; for (int x : s) o << " " << x; return o.str(); }, [&] {
			RotationMatrix m; RotationQuaternion q; RotationAngleAxis a; RotationEulerAngles e; Cfg cur{ 0,{0,0,1} }; bool mirrored = true; double ey = 0, ep = 0, er = 0; (void)mirrored;
			for (int x : s) {
				if (x < 5) { cur = CF[x]; m.from_angle_axis(cur.a, P(cur.k)); q.from_angle_axis(cur.a, P(cur.k)); a.set_angle_axis(cur.a, P(cur.k)); ey = cur.a; ep = cur.k.x * 90; er = cur.k.z * 45; e.set_angles(ey, ep, er); }
				else if (x == 5) { cur = { 120,V{1,1,1} *(1 / std::sqrt(3.)) }; double mm[9] = { 0,0,1,1,0,0,0,1,0 }, qq[4] = { 0.5,0.5,0.5,0.5 }; m.set_matrix(mm); q.set_quaternion(qq); mm[0] = qq[0] = 9; a.from_angle_axis(cur.a, P(cur.k)); ey = ep = er = 0; e.set_angles(); }
				else if (x == 6) { cur = { 30,{0,1,0} }; RotationMatrix m2; m2.from_angle_axis(30, Point3(0, 1, 0)); m = m2; RotationQuaternion q2; q2.from_angle_axis(30, Point3(0, 1, 0)); q = q2; a = RotationAngleAxis(30, Point3(0, 1, 0)); m2.from_angle_axis(77, Point3(1, 0, 0)); ey = 10; ep = 20; er = 30; e = RotationEulerAngles(10, 20, 30); }
				c.step(4);
				for (size_t i = 0; i < PT.size(); i += 9) {
					V o = rodrigues(PT[i], cur.a, cur.k);
					MC_CHECK(c, eq(ap(m, PT[i]), o) && eq(ap(q, PT[i]), o) && eq(ap(a, PT[i]), o), "history", "after the sequence " << str(PT[i]) << " becomes " << str(ap(m, PT[i])) << str(ap(q, PT[i])) << str(ap(a, PT[i])) << ", expected " << str(o));
					MC_CHECK(c, eq(ap(e, PT[i]), euler(PT[i], ey, ep, er)), "euler-history", "euler angles after the sequence");
					c.obsp(P(ap(m, PT[i])));
				}
			}
		});
	});
	std::vector<int> E; for (int k = c.bound(-200, -240); k <= c.bound(200, 240); k += c.bound(8, 1)) E.push_back(k); for (int k = -3; k <= 3; k++) E.push_back(k);
	static const V SH[] = { {1,-1.5,1.25},{1,0,0},{0,-1.75,0},{0,0,1.0625},{-1.3125,1.7,0} };
	c.section("magnitudes of points", "translations and scales of every power of two on points of every power of two; rotations of points of every power of two");
	auto ulp = [&](double g, double e, double scale) { return std::fabs(g - e) <= 4e-15 * scale; };
	for (int k : E) for (int s = 0; s < 5; s++) c.test([&] { return (S() << "shape " << s << " vector times 2^" << k).str(); }, [&] {
		double f = std::ldexp(1., k); Translation t(P(SH[s] * f)); Scale sc(SH[s].x * f, SH[s].y * f, SH[s].z * f);
		for (int j : E) for (int s2 = 0; s2 < 5; s2++) {
			V p = SH[s2] * std::ldexp(1., j), a = ap(t, p), b = ap(sc, p), d = SH[s] * f; c.step(2);
			if (!(ulp(a.x, p.x + d.x, std::fabs(p.x) + std::fabs(d.x)) && ulp(a.y, p.y + d.y, std::fabs(p.y) + std::fabs(d.y)) && ulp(a.z, p.z + d.z, std::fabs(p.z) + std::fabs(d.z)))) c.fail("translate-magnitude", S() << str(p) << " moved by " << str(d) << " becomes " << str(a));
			if (!(ulp(b.x, p.x * d.x, std::fabs(p.x * d.x)) && ulp(b.y, p.y * d.y, std::fabs(p.y * d.y)) && ulp(b.z, p.z * d.z, std::fabs(p.z * d.z)))) c.fail("scale-magnitude", S() << str(p) << " scaled by " << str(d) << " becomes " << str(b));
			c.obsp(P(b));
		}
		auto AX1 = axes(1); for (size_t x = 0; x < AX1.size(); x += 5) for (double a : { 37.,-90.,180.,1e-3 }) {
			RotationAngleAxis r(a, P(AX1[x])); RotationQuaternion q; q.from_angle_axis(a, P(AX1[x])); RotationEulerAngles e(a, a * 0.5, -a); V p = SH[s] * f, o = rodrigues(p, a, AX1[x]), eo = euler(p, a, a * 0.5, -a); c.step(3);
			double tol = (1e-13 + 1e-11 * std::fabs(a) / 180) * len(p); MC_CHECK(c, len(ap(r, p) - o) <= tol && len(ap(q, p) - o) <= tol, "rotation-magnitude", "axis " << str(AX1[x]) << " angle " << a << ": " << str(p) << " becomes " << str(ap(r, p)) << str(ap(q, p)) << " expected " << str(o));
			MC_CHECK(c, len(ap(e, p) - eo) <= tol, "euler-magnitude", "angle " << a << ": " << str(p) << " becomes " << str(ap(e, p)) << " expected " << str(eo));
		}
	});
	c.section("magnitudes of angles", "rotations and Euler rotations by every power of two of degrees, both signs, about lattice axes and axes close to a coordinate axis");
	for (int k = -40; k <= 30; k++) for (int sg = -1; sg <= 1; sg += 2) for (double m : { 1.,1.40625,1.8310546875 }) c.test([&] { return (S() << "angle " << sg * m << " times 2^" << k).str(); }, [&] {
		double a = sg * std::ldexp(m, k), rad = std::fabs(a) * PI / 180; auto X = axes(1); for (int e = 1; e < 40; e += 2) { double d = std::ldexp(1., -e); for (auto q : { V{1,d,0},V{d,0,-1},V{-d,1,d} }) X.push_back(q * (1 / len(q))); }
		for (auto& x : X) {
			RotationAngleAxis r(a, P(x)); RotationMatrix m2; m2.from_angle_axis(a, P(x)); RotationQuaternion q; q.from_angle_axis(a, P(x));
			for (size_t i = 0; i < PT.size(); i += 6) { auto& p = PT[i]; V o = rodrigues(p, a, x), g = ap(r, p), h = ap(q, p), w = ap(m2, p); c.step(3); double tol = len(p) * (3e-14 + 1e-12 * rad); if (!(len(g - o) <= tol && len(h - o) <= tol && len(w - o) <= tol)) c.fail("rotation-angle", S() << "axis " << str(x) << ": " << str(p) << " moves by " << str(g - p) << str(h - p) << ", expected " << str(o - p)); }
			c.obsp(P(ap(r, PT[1])));
		}
		for (int w = 0; w < 4; w++) { double y = w == 0 || w == 3 ? a : 0, pi = w == 1 || w == 3 ? a : 0, ro = w == 2 || w == 3 ? a : 0; RotationEulerAngles e(y, pi, ro); for (size_t i = 0; i < PT.size(); i += 6) { V o = euler(PT[i], y, pi, ro), g = ap(e, PT[i]); c.step(); if (!(len(g - o) <= len(PT[i]) * (3e-14 + 3e-12 * rad))) c.fail("euler-angle", S() << "yaw " << y << " pitch " << pi << " roll " << ro << ": " << str(PT[i]) << " becomes " << str(g) << ", expected " << str(o)); } }
	});
	c.section("many turns", "rotations and Euler rotations by whole and broken numbers of turns to thousands, both signs");
	for (int t = 0; t <= c.bound(2000, 40000); t += t < 40 ? 1 : 37) for (double fr : { 0.,0.25,-1. / 12,0.5 }) for (int sg = -1; sg <= 1; sg += 2) c.test([&] { return (S() << sg * (t + fr) << " turns").str(); }, [&] {
		double a = sg * (t * 360. + fr * 360), rad = std::fabs(a) * PI / 180; for (auto& x : axes(1)) { RotationAngleAxis r(a, P(x)); RotationMatrix m2; m2.from_angle_axis(a, P(x)); RotationQuaternion q; q.from_angle_axis(a, P(x)); for (size_t i = 0; i < PT.size(); i += 11) { auto& p = PT[i]; V o = rodrigues(p, a, x), g = ap(r, p), h = ap(q, p), w = ap(m2, p); c.step(3); double tol = len(p) * (1e-13 + 1e-12 * rad); if (!(len(g - o) <= tol && len(h - o) <= tol && len(w - o) <= tol)) c.fail("turns", S() << "axis " << str(x) << ": " << str(p) << " becomes " << str(g) << str(h) << str(w) << ", expected " << str(o)); } c.obsp(P(ap(r, PT[3]))); }
		for (int w = 0; w < 4; w++) { double y = w == 0 || w == 3 ? a : 10, pi = w == 1 || w == 3 ? a : 20, ro = w == 2 || w == 3 ? a : 30; RotationEulerAngles e(y, pi, ro); for (size_t i = 0; i < PT.size(); i += 6) { V o = euler(PT[i], y, pi, ro), g = ap(e, PT[i]); c.step(); if (!(len(g - o) <= len(PT[i]) * (1e-12 + 3e-12 * rad))) c.fail("euler-turns", S() << "yaw " << y << " pitch " << pi << " roll " << ro << ": " << str(PT[i]) << " becomes " << str(g) << ", expected " << str(o)); } }
	});
	c.section("axis permutations", "every proper signed axis permutation as an explicit matrix, against the image of the axes and read back, after every other one");
	{
		std::vector<std::array<double, 9>> M; int pm[3] = { 0,1,2 };
		do for (int s = 0; s < 8; s++) { std::array<double, 9> m{}; for (int i = 0; i < 3; i++) m[3 * i + pm[i]] = s >> i & 1 ? -1 : 1; double det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); if (det > 0) M.push_back(m); } while (std::next_permutation(pm, pm + 3));
		for (size_t i = 0; i < M.size(); i++) for (size_t j = 0; j < M.size(); j++) c.test([&] { return (S() << "permutation " << (int)i << " after " << (int)j).str(); }, [&] {
			RotationMatrix m(M[j].data()); V first = ap(m, { 1,2,3 }); m.set_matrix(M[i].data()); auto b = M[i]; double back[9]; m.get_matrix(back); c.step(3); c.obsp(P(first));
			for (int k = 0; k < 9; k++) MC_CHECK(c, back[k] == b[k], "matrix-back", "element " << k);
			for (auto& p : PT) { V o = { b[0] * p.x + b[1] * p.y + b[2] * p.z,b[3] * p.x + b[4] * p.y + b[5] * p.z,b[6] * p.x + b[7] * p.y + b[8] * p.z }, g = ap(m, p); c.step(); if (!eq(g, o)) c.fail("matrix", S() << str(p) << " becomes " << str(g) << ", expected " << str(o)); }
		});
	}
	c.section("explicit matrices", "every matrix over {0,1,-2} in a row times every pattern of the rows (singular and improper ones too), on fresh and used objects: the matrix product, and read back");
	sequences(3, 3, [&](const std::vector<int>& a) { sequences(3, 3, [&](const std::vector<int>& b) { c.test([&] { S s; s << "rows"; for (int x : a) s << " " << x; s << " /"; for (int x : b) s << " " << x; return s.str(); }, [&] { sequences(3, 3, [&](const std::vector<int>& d) {
		static const double L[3] = { 0,1,-2 }; double M[9], back[9]; for (int k = 0; k < 3; k++) { M[k] = L[a[k]]; M[3 + k] = L[b[k]]; M[6 + k] = L[d[k]]; } RotationMatrix m(M), u; u.from_angle_axis(33, Point3(0, 0, 1)); u.set_matrix(M); u.get_matrix(back); c.step(3); for (int k = 0; k < 9; k++) MC_CHECK(c, back[k] == M[k], "matrix-back", "element " << k);
		for (auto& p : PT) { V o = { M[0] * p.x + M[1] * p.y + M[2] * p.z,M[3] * p.x + M[4] * p.y + M[5] * p.z,M[6] * p.x + M[7] * p.y + M[8] * p.z }, g = ap(m, p), h = ap(u, p); c.step(2); c.obsp(P(g)); if (!eq(g, o) || !eq(h, o)) { c.fail("matrix", S() << str(p) << " becomes " << str(g) << " and " << str(h) << ", expected " << str(o)); return; } } }); }); }); });
	c.section("lists", "applying to lists of every size of a ladder equals applying to each point, every kind of transform");
	for (int n : ladder(0, c.bound(65536, 1 << 19))) c.test([&] { return (S() << n << " points").str(); }, [&] {
		Translation t(Point3(1, -2, 0.5)); Scale s(2, -3, 0.5); RotationAngleAxis a(33, Point3(0, 0.6, 0.8)); RotationEulerAngles e(10, 20, 30); RotationQuaternion q; q.from_angle_axis(33, Point3(0, 0.6, 0.8)); RotationMatrix m; m.from_angle_axis(33, Point3(0, 0.6, 0.8));
		int w = 0; for (const Transform* x : { (const Transform*)&t,(const Transform*)&s,(const Transform*)&a,(const Transform*)&e,(const Transform*)&q,(const Transform*)&m }) {
			std::vector<Point3> l; for (int i = 0; i < n; i++) l.push_back(Point3(i, i % 7 - 3, 0.25 * (i % 1000))); auto o = l; x->apply_all(l); c.step(); if ((int)l.size() != n) { c.fail("list", S() << "the list has " << l.size() << " points"); return; }
			for (int i = 0; i < n; i++) { Point3 p = o[i]; x->apply(p); if (!near(l[i], p, 1e-12)) { c.fail("list", S() << "transform " << w << " point " << i << " becomes " << str(l[i]) << " in the list, " << str(p) << " alone"); return; } } w++;
		}
		c.obs(n);
	});
	c.section("near lists", "lists whose successive points are equal or differ by every power of two in one or all components, in every repetition pattern up to length 4: each point becomes its own image");
	for (int e = -60; e <= 4; e += c.bound(2, 1)) for (int ax = 0; ax < 4; ax++) c.test([&] { return (S() << "points 2^" << e << " apart, component " << ax).str(); }, [&] {
		double d = std::ldexp(1., e), big = 1 / d; Scale s(big, -big, 2 * big); Translation t(Point3(-1, 1, 0.5)); RotationAngleAxis a(33, Point3(0, 0.6, 0.8)); RotationEulerAngles eu(10, 20, 30); RotationQuaternion q; q.from_angle_axis(33, Point3(0, 0.6, 0.8)); RotationMatrix m; m.from_angle_axis(90, Point3(0, 0, 1));
		for (double base : { 0.,1. }) for (const Transform* x : { (const Transform*)&s,(const Transform*)&t,(const Transform*)&a,(const Transform*)&eu,(const Transform*)&q,(const Transform*)&m }) sequences(3, 4, [&](const std::vector<int>& w) {
			std::vector<Point3> l; for (int k : w) { double o = k * d; l.push_back(Point3(base + (ax == 0 || ax == 3 ? o : 0), -base + (ax == 1 || ax == 3 ? o : 0), 2 * base + (ax == 2 || ax == 3 ? o : 0))); } auto o = l; x->apply_all(l); c.step();
			for (size_t i = 0; i < 4; i++) { Point3 p = o[i]; x->apply(p); if (!(l.size() == 4 && len(v(l[i]) - v(p)) <= 1e-14 * len(v(p)))) { c.fail("near-list", S() << "point " << i << " of the list, " << str(o[i]) << ", becomes " << str(l[i]) << ", alone " << str(p)); return; } } });
		c.obs(e); });
	c.section("several objects", "every pair of configurations of two objects of one class, used alternately");
	for (auto& f : CF) for (auto& g : CF) c.test([&] { return (S() << f.a << " about " << str(f.k) << " and " << g.a << " about " << str(g.k)).str(); }, [&] {
		RotationMatrix m1, m2; m1.from_angle_axis(f.a, P(f.k)); m2.from_angle_axis(g.a, P(g.k)); RotationQuaternion q1, q2; q1.from_angle_axis(f.a, P(f.k)); q2.from_angle_axis(g.a, P(g.k)); RotationAngleAxis a1(f.a, P(f.k)), a2(g.a, P(g.k)); RotationEulerAngles e1(f.a, f.k.x * 90, f.k.z * 45), e2(g.a, g.k.x * 90, g.k.z * 45); Translation t1(P(f.k)), t2(P(g.k)); Scale s1(f.k.x, f.k.y, f.k.z), s2(g.k.x, g.k.y, g.k.z);
		for (int round = 0; round < 2; round++) for (size_t i = 0; i < PT.size(); i += 4) {
			auto& p = PT[i]; V o1 = rodrigues(p, f.a, f.k), o2 = rodrigues(p, g.a, g.k); c.step(12);
			MC_CHECK(c, eq(ap(m1, p), o1) && eq(ap(m2, p), o2) && eq(ap(q1, p), o1) && eq(ap(q2, p), o2) && eq(ap(a1, p), o1) && eq(ap(a2, p), o2), "two-rotations", "of " << str(p));
			MC_CHECK(c, eq(ap(e1, p), euler(p, f.a, f.k.x * 90, f.k.z * 45)) && eq(ap(e2, p), euler(p, g.a, g.k.x * 90, g.k.z * 45)), "two-eulers", "of " << str(p));
			MC_CHECK(c, eq(ap(t1, p), p + f.k) && eq(ap(t2, p), p + g.k) && eq(ap(s1, p), V{ p.x * f.k.x,p.y * f.k.y,p.z * f.k.z }) && eq(ap(s2, p), V{ p.x * g.k.x,p.y * g.k.y,p.z * g.k.z }), "two-others", "of " << str(p)); c.obsp(P(o1));
		}
	});
}
