// C05: every mesh primitive for every size and segment count: closed, oriented, manifold, on the ideal shape.
#include "common.hpp"
#include "MeshFactory.h"
#include "MeshMeasurements.h"

namespace {
const double PI = 3.14159265358979323846;
struct Expect { int euler = 2; bool convex = true; double idealVol = -1, idealArea = -1; bool equalEdges = false; double scale = 1; std::function<double(const V&)> off; }; // off: distance to the ideal shape

void check(mc::Ctx& c, const Mesh& m, const Expect& e, const std::string& what)
{
	TriList l = snapshot(m); c.step();
	MC_CHECK(c, l.live() > 3 && l.live() == (int)l.t.size(), what + "-triangles", "live triangles " << l.live() << " of " << l.t.size());
	for (auto& p : l.v) { double d = e.off(p); if (!(d <= 1e-9 * e.scale)) { c.fail(what + "-shape", S() << "vertex " << str(p) << " is " << d << " off the ideal shape"); break; } }
	double big = 0; for (auto& p : l.v) big = std::max(big, len(p));
	for (size_t i = 0; i < l.t.size(); i++) {
		const V& a = l.v[l.t[i][0]], & b = l.v[l.t[i][1]], & d = l.v[l.t[i][2]]; V n = cross(b - a, d - a);
		double longest = std::max(len(a - b), std::max(len(b - d), len(a - d)));
		if (!(len(n) > 1e-9 * longest * longest) || !(longest > 0)) { c.fail(what + "-degenerate", S() << "triangle " << i << " " << str(a) << str(b) << str(d) << " has zero area"); break; }
	}
	Topo t = topo(l, big * 1e-7);
	MC_CHECK(c, t.degenerate == 0, what + "-degenerate", t.degenerate << " triangles collapse when coincident vertices are merged");
	MC_CHECK(c, t.closed(), what + "-closed", t.why());
	if (t.closed()) {
		MC_CHECK(c, t.vertex_manifold(), what + "-manifold", "the triangles around a vertex are not one fan");
		MC_CHECK(c, t.euler() == e.euler && t.components() == 1, what + "-euler", "Euler characteristic " << t.euler() << " with " << t.components() << " components, expected " << e.euler);
	}
	std::set<int> used; for (auto& q : l.t) for (int k : q) used.insert(k);
	MC_CHECK(c, used.size() == l.v.size(), what + "-unused", l.v.size() - used.size() << " vertices are in no triangle");
	double vol = l.volume(), area = l.area();
	MC_CHECK(c, vol > 0, what + "-volume", "volume " << vol);
	if (e.idealVol > 0 && e.convex) MC_CHECK(c, vol <= e.idealVol * (1 + 1e-9), what + "-volume", "volume " << vol << " exceeds the ideal " << e.idealVol);
	if (e.idealArea > 0 && e.convex) MC_CHECK(c, area <= e.idealArea * (1 + 1e-9), what + "-area", "area " << area << " exceeds the ideal " << e.idealArea);
	if (e.convex) for (size_t i = 0; i < l.t.size(); i++) { // outward: the centre (origin) is behind every triangle
		const V& a = l.v[l.t[i][0]], & b = l.v[l.t[i][1]], & d = l.v[l.t[i][2]];
		if (!(dot(cross(b - a, d - a), a) > 0)) { c.fail(what + "-outward", S() << "triangle " << i << " " << str(a) << str(b) << str(d) << " faces inward"); break; }
	}
	MC_CHECK(c, near(MeshMeasurements::volume(m), vol), what + "-measured", "measured volume " << MeshMeasurements::volume(m) << " is not " << vol);
	c.obs((int)l.v.size()); c.obs((int)l.t.size()); c.obs(vol);
}
void edges_equal(mc::Ctx& c, const Mesh& m, const std::string& what, bool triangulated)
{
	TriList l = snapshot(m); std::map<std::pair<int, int>, int> e; double lo = 1e300, hi = 0;
	for (auto& t : l.t) for (int k = 0; k < 3; k++) { double d = len(l.v[t[k]] - l.v[t[(k + 1) % 3]]); lo = std::min(lo, d); hi = std::max(hi, d); }
	if (triangulated) MC_CHECK(c, near(lo, hi), what + "-edges", "edges between " << lo << " and " << hi);
	else { // polygon faces: each vertex has exactly three nearest neighbours at the same shortest distance everywhere
		for (size_t i = 0; i < l.v.size(); i++) { int n = 0; for (size_t j = 0; j < l.v.size(); j++) if (i != j && near(len(l.v[i] - l.v[j]), lo)) n++; if (n != 3) { c.fail(what + "-edges", S() << "vertex " << i << " has " << n << " edges of the shortest length"); break; } }
		(void)e;
	}
}
template<class F> void both(mc::Ctx& c, F make, const Expect& e, const std::string& what, Mesh& out)
{
	Mesh m; make(m); check(c, m, e, what);
	Mesh u; u.add_triangle(Point3(9, 9, 9), Point3(8, 9, 9), Point3(9, 8, 9)); u.unlink_triangle(0); make(u);
	MC_CHECK(c, diff(snapshot(m), snapshot(u), 0, false) == "", what + "-reuse", "built into a used mesh: " << diff(snapshot(m), snapshot(u), 0, false));
	out = m;
}
}

void run(mc::Ctx& c)
{
	std::vector<double> sizes = { 1,0.5,2,7.25,1e-6,0.1,3e6,1. / 3 };
	if (c.thorough()) for (double d : { 1e-12,1e9,100.,0.7 }) sizes.push_back(d);
	c.section("regular solids", "every regular solid and size");
	for (double s : sizes) for (int k = 0; k < 4; k++)
		c.test([&] { return (S() << "solid " << k << " size " << s).str(); }, [&] {
			static const char* N[] = { "tetrahedron","octahedron","dodecahedron","icosahedron" }; Expect e; e.scale = s;
			double t = (std::sqrt(5.) - 1) / 2, R = k == 0 || k == 2 ? std::sqrt(3.) * s : k == 1 ? s : s * std::sqrt(1 + t * t);
			e.off = [R](const V& p) { return std::fabs(len(p) - R); };
			double a; // edge
			switch (k) { case 0: a = 2 * std::sqrt(2.) * s; e.idealVol = a * a * a / (6 * std::sqrt(2.)); break; case 1: a = std::sqrt(2.) * s; e.idealVol = a * a * a * std::sqrt(2.) / 3; break;
			case 2: a = s * (std::sqrt(5.) - 1); e.idealVol = (15 + 7 * std::sqrt(5.)) / 4 * a * a * a; break; default: a = 2 * t * s; e.idealVol = 5 * (3 + std::sqrt(5.)) / 12 * a * a * a; }
			Mesh m; both(c, [&](Mesh& x) { if (k == 0) MeshFactory::create_tetrahedron(s, x); else if (k == 1) MeshFactory::create_octahedron(s, x); else if (k == 2) MeshFactory::create_dodecahedron(s, x); else MeshFactory::create_icosahedron(s, x); }, e, N[k], m);
			edges_equal(c, m, N[k], k != 2);
			static const int NV[] = { 4,6,20,12 }, NT[] = { 4,8,36,20 };
			TriList l = snapshot(m); MC_CHECK(c, (int)l.v.size() == NV[k] && l.live() == NT[k], std::string(N[k]) + "-count", l.v.size() << " vertices, " << l.live() << " triangles");
			MC_CHECK(c, near(l.volume() / e.idealVol, 1), std::string(N[k]) + "-volume", "volume " << l.volume() << " expected " << e.idealVol);
		});
	c.section("boxes", "every combination of sizes");
	for (double x : sizes) for (double y : sizes) for (double z : sizes)
		c.test([&] { return (S() << "box " << x << " " << y << " " << z).str(); }, [&] {
			Mesh m; MeshFactory::create_box(x, y, z, m); TriList l = snapshot(m); c.step();
			// sizes may differ by many orders of magnitude: decided exactly on the corner signs
			MC_CHECK(c, l.v.size() == 8 && l.live() == 12, "box-count", l.v.size() << " vertices " << l.live() << " triangles");
			TriList n = l; for (auto& p : n.v) { MC_CHECK(c, near(std::fabs(p.x), x / 2) && near(std::fabs(p.y), y / 2) && near(std::fabs(p.z), z / 2) && std::fabs(std::fabs(p.x) / x - 0.5) < 1e-12, "box-shape", "corner " << str(p)); p = V{ p.x / x * 2,p.y / y * 2,p.z / z * 2 }; }
			Mesh q; build_into(n, q); Expect e; e.idealVol = 8; e.idealArea = 24; e.off = [](const V& p) { return std::max(std::fabs(std::fabs(p.x) - 1), std::max(std::fabs(std::fabs(p.y) - 1), std::fabs(std::fabs(p.z) - 1))); };
			check(c, q, e, "box");
			MC_CHECK(c, near(n.volume(), 8), "box-volume", "volume is " << n.volume() / 8 << " times the ideal"); MC_CHECK(c, near(MeshMeasurements::volume(m) / (x * y * z), 1), "box-volume", "measured volume " << MeshMeasurements::volume(m));
		});
	struct CN { std::string what; int n; double r, h; };
	std::map<std::string, std::map<int, int>> counts;
	int nc = c.bound(40, 120);
	auto ladder = [](int all, std::initializer_list<int> more) { std::vector<int> r; for (int n = 1; n <= all; n++) r.push_back(n); for (int n : more) if (n > all) r.push_back(n); return r; };
	c.section("cylinders", "every segment count up to a bound and some large ones, every size pair");
	for (int n : ladder(nc, { 63,64,65,127,128,129,255,256,257,500 })) for (double r : sizes) for (double h : { r, r * 10, r / 4 })
		if (n <= nc || (r == 2 && h == r) || (r == 7.25 && h > r))
		c.test([&] { return (S() << "cylinder height " << h << " radius " << r << " segments " << n).str(); }, [&] {
			Expect e; e.scale = std::max(r, h); e.idealVol = PI * r * r * h; e.idealArea = 2 * PI * r * (r + h);
			e.off = [r, h](const V& p) { double q = std::hypot(p.x, p.y); return std::max(std::fabs(std::fabs(p.z) - h / 2), std::min(q, std::fabs(q - r))); };
			Mesh m; both(c, [&](Mesh& x) { MeshFactory::create_cylinder(h, r, n, x); }, e, "cylinder", m);
			double f = 1 - MeshMeasurements::volume(m) / e.idealVol; MC_CHECK(c, f < 1. / (n * n), "cylinder-converges", "volume is " << f << " below the ideal with " << n << " segments");
			Mesh m2; MeshFactory::create_cylinder(h, r, n + 1, m2); MC_CHECK(c, MeshMeasurements::volume(m2) > MeshMeasurements::volume(m), "cylinder-converges", "one more segment does not increase the volume");
		});
	c.section("uv spheres", "every segment count up to a bound and some large ones, every size");
	for (int n : ladder(c.bound(20, 40), { 31,32,33,50,64 })) for (double r : sizes) if (n <= c.bound(20, 40) || r == 7.25)
		c.test([&] { return (S() << "uv sphere radius " << r << " segments " << n).str(); }, [&] {
			Expect e; e.scale = r; e.idealVol = 4 * PI / 3 * r * r * r; e.idealArea = 4 * PI * r * r; e.off = [r](const V& p) { return std::fabs(len(p) - r); };
			Mesh m; both(c, [&](Mesh& x) { MeshFactory::create_sphere_uv(r, n, x); }, e, "sphere_uv", m);
			double f = 1 - MeshMeasurements::volume(m) / e.idealVol; MC_CHECK(c, f < 2. / (n * n), "sphere_uv-converges", "volume is " << f << " below the ideal with " << n << " segments");
			Mesh m2; MeshFactory::create_sphere_uv(r, n + 1, m2); MC_CHECK(c, MeshMeasurements::volume(m2) > MeshMeasurements::volume(m), "sphere_uv-converges", "one more segment does not increase the volume");
		});
	c.section("geodesic spheres", "every segment count up to a bound and some large ones, every size");
	std::vector<int> gn = ladder(c.bound(16, 28), { 20,24,28,32,36,c.bound(36,48) }); std::reverse(gn.begin(), gn.end());
	for (int n : gn) for (double r : sizes) if (n <= 9 || r == 1 || (r == 7.25 && n <= 20))
		c.test([&] { return (S() << "geodesic sphere radius " << r << " segments " << n).str(); }, [&] {
			Expect e; e.scale = r; e.idealVol = 4 * PI / 3 * r * r * r; e.idealArea = 4 * PI * r * r; e.off = [r](const V& p) { return std::fabs(len(p) - r); };
			Mesh m; MeshFactory::create_sphere_geodesic(r, n, m); check(c, m, e, "sphere_geodesic");
			MC_CHECK(c, m.nb_triangles() == 20 * n * n && m.nb_vertices() == 10 * n * n + 2, "sphere_geodesic-count", m.nb_vertices() << " vertices " << m.nb_triangles() << " triangles");
			double f = 1 - MeshMeasurements::volume(m) / e.idealVol; MC_CHECK(c, f < 1. / (n * n), "sphere_geodesic-converges", "volume is " << f << " below the ideal with " << n << " segments");
		});
	c.section("tori", "every segment count up to a bound and some large ones, every size pair");
	for (int n : ladder(c.bound(16, 40), { 31,32,33,50,64 })) for (double R : sizes) for (double k : { 0.5,0.1,0.99 }) if (n <= c.bound(16, 40) || R == 7.25)
		c.test([&] { return (S() << "torus radii " << R << " " << R * k << " segments " << n).str(); }, [&] {
			double r = R * k; Expect e; e.scale = R; e.euler = 0; e.convex = false; e.off = [R, r](const V& p) { return std::fabs(std::hypot(std::hypot(p.x, p.y) - R, p.z) - r); };
			Mesh m; both(c, [&](Mesh& x) { MeshFactory::create_torus(R, r, n, x); }, e, "torus", m);
			double ideal = 2 * PI * PI * R * r * r, f = 1 - MeshMeasurements::volume(m) / ideal; MC_CHECK(c, std::fabs(f) < 3. / (n * n), "torus-converges", "volume is " << f << " below the ideal with " << n << " segments");
			TriList l = snapshot(m); for (size_t i = 0; i < l.t.size(); i++) { // outward: away from the tube's centre circle
				V a = l.v[l.t[i][0]], b = l.v[l.t[i][1]], d = l.v[l.t[i][2]], g = (a + b + d) * (1 / 3.); double q = std::hypot(g.x, g.y); if (q < 1e-3 * R) continue;
				V ctr = { g.x / q * R,g.y / q * R,0 }; if (len(g - ctr) > 0.7 * r && n > 3 && !(dot(cross(b - a, d - a), g - ctr) > 0)) { c.fail("torus-outward", S() << "triangle " << i << " faces the inside of the tube"); break; }
			}
		});
}
