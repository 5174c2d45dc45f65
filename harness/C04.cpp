// C04: measurements against their definitions, over every small mesh of a lattice with every removed subset.
#include "common.hpp"
#include "MeshMeasurements.h"
#include "MeshFactory.h"
#include "MeshTessellate.h"

namespace {
bool zero_area(const TriList& l) { for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i] && len(cross(l.v[l.t[i][1]] - l.v[l.t[i][0]], l.v[l.t[i][2]] - l.v[l.t[i][0]])) == 0) return true; return false; }
bool closed(const TriList& l)
{
	std::map<std::pair<int, int>, int> e;
	for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) for (int k = 0; k < 3; k++) { int a = l.t[i][k], b = l.t[i][(k + 1) % 3]; e[{ std::min(a, b), std::max(a, b) }]++; }
	for (auto& x : e) if (x.second != 2) return false;
	return true;
}
bool isolated(const TriList& l) { std::set<int> s; for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) for (int k = 0; k < 3; k++) s.insert(l.t[i][k]); return s.size() != l.v.size(); }
bool duplicated(const TriList& l) { for (size_t i = 0; i < l.v.size(); i++) for (size_t j = 0; j < i; j++) if (len(l.v[i] - l.v[j]) < 1e-10) return true; return false; }
bool short_edge(const TriList& l) { for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) for (int k = 0; k < 3; k++) if (len(l.v[l.t[i][k]] - l.v[l.t[i][(k + 1) % 3]]) < 1e-10) return true; return false; }

// selfInt: 1 it does intersect itself, 0 it does not, -1 not decided here
void check(mc::Ctx& c, const TriList& l, int selfInt = -1)
{
	Mesh m; build_into(l, m);
	double a = MeshMeasurements::surface(m), vol = MeshMeasurements::volume(m); c.step(10);
	double am = 0; for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) { V a = l.v[l.t[i][0]], b = l.v[l.t[i][1]], d = l.v[l.t[i][2]]; am += len(b - a) * len(d - a); }
	MC_CHECK(c, std::fabs(a - l.area()) <= 1e-9 * am, "surface", "surface is " << a << ", the live triangles have " << l.area());
	double mag = 0; for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) { V a = l.v[l.t[i][0]], b = l.v[l.t[i][1]], d = l.v[l.t[i][2]]; mag += len(a) * (len(a) + len(b)) * (len(a) + len(d)); }
	MC_CHECK(c, std::fabs(vol - l.volume()) <= 1e-13 * mag, "volume", "volume is " << vol << ", the definition gives " << l.volume());
	if (std::fabs(l.volume()) > 1e-12 * mag || l.live() == 0) MC_CHECK(c, MeshMeasurements::is_oriented_outside(m) == (l.volume() >= 0), "oriented", "oriented outside is " << MeshMeasurements::is_oriented_outside(m) << " with volume " << l.volume());
	bool nd = MeshMeasurements::has_no_degenerated_triangles(m), cl = MeshMeasurements::is_closed(m);
	MC_CHECK(c, nd == !zero_area(l), "degenerated", "no degenerated triangles is " << nd << ", but a live zero-area triangle " << (zero_area(l) ? "exists" : "does not exist"));
	bool rc = closed(l), index2 = false; // a triangle with a repeated corner has no proper edges: closedness is not decided then
	for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i] && (l.t[i][0] == l.t[i][1] || l.t[i][1] == l.t[i][2] || l.t[i][0] == l.t[i][2])) index2 = true;
	if (!index2) MC_CHECK(c, !cl || rc, "closed-true-on-open-mesh", "closed is true, but an edge is not shared by two live triangles");
	if (!index2) MC_CHECK(c, cl || !rc, l.live() ? "closed-false-on-closed-mesh" : "closed-false-without-triangles", "closed is false, but every edge is shared by exactly two live triangles");
	bool ni = MeshMeasurements::has_no_isolated_vertices(m), nu = MeshMeasurements::has_no_duplicated_vertices(m), ns = MeshMeasurements::has_no_short_edges(m), nx = MeshMeasurements::has_no_self_intersections(m);
	MC_CHECK(c, ni || isolated(l), "isolated-false-without-any", "no isolated vertices is false, but every vertex has a live triangle");
	MC_CHECK(c, !ni || !isolated(l), "isolated-true-with-some", "no isolated vertices is true, but a vertex has no live triangle");
	MC_CHECK(c, nu || duplicated(l), "duplicated-false-without-any", "no duplicated vertices is false, but all are distinct");
	MC_CHECK(c, !nu || !duplicated(l), "duplicated-true-with-some", "no duplicated vertices is true, but two coincide");
	MC_CHECK(c, ns || short_edge(l), "short-false-without-any", "no short edges is false, but all are long");
	MC_CHECK(c, !ns || !short_edge(l), "short-true-with-some", "no short edges is true, but one has length zero");
	if (selfInt == 0) MC_CHECK(c, nx, "selfint-false-without-any", "no self intersections is false on a mesh without any");
	if (selfInt == 1) MC_CHECK(c, !nx, "selfint-true-with-some", "no self intersections is true, but two triangles cross");
	bool clean = MeshMeasurements::is_clean(m), conj = nd && cl && ni && nu && ns && nx && MeshMeasurements::is_oriented_outside(m);
	MC_CHECK(c, clean == conj, "clean", "clean is " << clean << ", the conjunction of the predicates is " << conj);
	MC_CHECK(c, diff(snapshot(m), l) == "", "modified", "measuring changed the mesh: " << diff(snapshot(m), l));
	c.obs(a); c.obs(vol); c.obs(nd); c.obs(cl); c.obs(ni);
}
static const V LAT[] = { {0,0,0},{1,0,0},{0,1,0},{0,0,1},{2,0,0},{1,1,1},{-1,2,0.5} };
TriList lattice(int n, double scale, V off) { TriList l; for (int i = 0; i < n; i++) { V p = LAT[i] * scale + off; l.addv(p.x, p.y, p.z); } return l; }
}

void run(mc::Ctx& c)
{
	struct Frame { double s; V o; }; static const Frame F[] = { {1,{0,0,0}},{0.5,{3,-2,5}},{1024,{1,1,1}},{1. / 1024,{0,0,0}} };
	c.section("empty and isolated", "meshes of vertices only");
	for (int n = 0; n <= 3; n++) for (auto& f : F) { TriList l = lattice(n, f.s, f.o); c.test([&] { return dump(l); }, [&] { check(c, l, 0); }); }

	c.section("one and two triangles", "every one or two triangles over 5 vertices (repeated corners included), every removed subset, several scales and offsets");
	{
		std::vector<Tri> T; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int k = 0; k < 5; k++) T.push_back({ i,j,k });
		for (auto& f : F) for (auto& t : T) for (int r = 0; r < 2; r++) {
			TriList l = lattice(5, f.s, f.o); l.addt(t[0], t[1], t[2]); l.removed[0] = r;
			c.test([&] { return dump(l); }, [&] { check(c, l, 0); });
		}
		for (auto& f : F) { if (&f != &F[0] && !c.thorough()) continue; for (auto& t : T) for (auto& u : T) for (int r = 0; r < 4; r++) {
			TriList l = lattice(5, f.s, f.o); l.addt(t[0], t[1], t[2]); l.addt(u[0], u[1], u[2]); l.removed[0] = r & 1; l.removed[1] = r & 2;
			c.test([&] { return dump(l); }, [&] { check(c, l); });
		} }
	}
	c.section("magnitudes", "every oriented triangle and tetrahedron of a lattice scaled by every power of two from 2^-100 to 2^100, with needles and flat triangles");
	for (int e = -100; e <= 100; e++) for (int k = 0; k < 8; k++) for (int o = 0; o < 2; o++) {
		double s = std::ldexp(1., e); TriList l;
		if (k < 4) { l = lattice(5, s, V{ 1,2,-1 } *(s * o)); static const Tri q[] = { {1,2,3},{3,2,1},{0,1,2},{0,1,4} }; l.addt(q[k][0], q[k][1], q[k][2]); }
		else if (k == 4 || k == 5) { l = lattice(4, s, V{ 1,2,-1 } *(s * o)); l.addt(0, 2, 1); l.addt(0, 1, 3); l.addt(1, 2, 3); l.addt(0, 3, 2); if (k == 5) for (auto& t : l.t) std::swap(t[0], t[1]); }
		else { double h = std::ldexp(1., -k * 3); l.addv(0, 0, s * o); l.addv(s, 0, s * o); l.addv(0, s * h, s * o); l.addv(s * h, s * h, s * o); l.addt(0, 1, 2); l.addt(3, 2, 1); }
		c.test([&] { return (S() << "scale 2^" << e << " " << dump(l)).str(); }, [&] { check(c, l); });
	}
	c.section("sizes", "fans and strips of many triangles, some removed, one of them flat");
	for (int n : { 5,40,127,128,129,255,256,257,300,511,512,513,1000,1023,1025,4096,4097,c.bound(5000,70000) }) for (int flat = 0; flat < 4; flat++) {
		TriList l; for (int i = 0; i < n; i++) l.addv(i, i % 2, i % 3); for (int i = 0; i + 2 < n; i++) l.addt(i, i + 1, i + 2);
		for (int i = 3; i < n - 2; i += 50) l.removed[i] = true;
		if (flat) { int f = flat == 1 ? 0 : flat == 2 ? n - 3 : (n - 2) / 2; l.t[f] = { f,f + 1,f + 1 }; l.removed[f] = false; }
		c.test([=] { return (S() << n << " vertices, flat triangle " << (flat == 0 ? "none" : flat == 1 ? "first" : flat == 2 ? "last" : "middle")).str(); }, [&] {
			Mesh m; build_into(l, m); c.step(6); double vm = 0; for (size_t i = 0; i < l.t.size(); i++) vm += len(l.v[l.t[i][0]]) * len(l.v[l.t[i][1]]) * len(l.v[l.t[i][2]]);
			MC_CHECK(c, near(MeshMeasurements::surface(m), l.area(), 1e-10), "surface", "surface is " << MeshMeasurements::surface(m) << ", the live triangles have " << l.area());
			MC_CHECK(c, std::fabs(MeshMeasurements::volume(m) - l.volume()) <= 1e-12 * vm, "volume", "volume is " << MeshMeasurements::volume(m) << ", the definition gives " << l.volume());
			MC_CHECK(c, MeshMeasurements::has_no_degenerated_triangles(m) == (flat == 0), "degenerated", "no degenerated triangles is " << (flat != 0));
			MC_CHECK(c, !MeshMeasurements::is_closed(m), "closed-true-on-open-mesh", "closed is true on an open strip"); c.obs(n); c.obs(flat);
		});
	}
	c.section("four triangles", "every four oriented faces of a tetrahedron (closed ones included), every removed subset");
	{
		static const Tri T[8] = { {0,1,2},{0,2,1},{0,1,3},{0,3,1},{0,2,3},{0,3,2},{1,2,3},{1,3,2} };
		for (int s = 0; s < (c.thorough() ? 2 : 1); s++) sequences(8, 4, [&](const std::vector<int>& q) {
			for (int r = 0; r < 16; r++) {
				TriList l = lattice(4, F[s].s, F[s].o); for (int k = 0; k < 4; k++) l.addt(T[q[k]][0], T[q[k]][1], T[q[k]][2]);
				for (int k = 0; k < 4; k++) l.removed[k] = r >> k & 1;
				c.test([&] { return dump(l); }, [&] { check(c, l); });
			}
		});
	}
	c.section("special", "duplicated vertices, crossing triangles");
	for (int k = 0; k < 3; k++) {
		TriList l = lattice(4, 1, {}); l.addt(0, 2, 1); l.addt(0, 1, 3); l.addt(1, 2, 3); l.addt(0, 3, 2);
		if (k == 1) { l.addv(1, 0, 0); l.addt(4, 2, 0); }
		if (k == 2) { l.addv(0.25, 0.25, -1); l.addv(0.25, 0.25, 3); l.addv(3, 3, 0); l.addt(4, 5, 6); }
		c.test([&] { return dump(l); }, [&] { check(c, l, k == 2 ? 1 : 0); });
	}
	c.section("solids", "factory solids with every single triangle removed, translated and inverted");
	for (int s = 0; s < 6; s++) {
		Mesh m; switch (s) { case 0: MeshFactory::create_tetrahedron(1.5, m); break; case 1: MeshFactory::create_box(1, 2, 3, m); break; case 2: MeshFactory::create_octahedron(2, m); break; case 3: MeshFactory::create_dodecahedron(1, m); break; case 4: MeshFactory::create_icosahedron(1, m); break; default: MeshFactory::create_torus(3, 1, 1, m); }
		TriList l = snapshot(m);
		for (int rem = -1; rem < (int)l.t.size(); rem++) for (int inv = 0; inv < 2; inv++) for (int tr = 0; tr < 3; tr++) {
			TriList q = l; static const V O[] = { {0,0,0},{10,-4,7},{1000,2000,-500} };
			for (auto& p : q.v) p = p + O[tr]; if (rem >= 0) q.removed[rem] = true; if (inv) for (auto& t : q.t) std::swap(t[1], t[2]);
			c.test([&] { return (S() << "solid " << s << " removed " << rem << " inverted " << inv << " moved " << str(O[tr])).str(); }, [&] {
				check(c, q, 0);
				if (rem < 0) { Mesh a; build_into(q, a); Mesh b; build_into(l, b);
					double va = MeshMeasurements::volume(a), vb = MeshMeasurements::volume(b);
					MC_CHECK(c, near(va, inv ? -vb : vb, 1e-7), "volume-motion", "volume " << va << " after motion, " << vb << " before, inverted " << inv);
					MC_CHECK(c, near(MeshMeasurements::surface(a), MeshMeasurements::surface(b), 1e-9), "surface-motion", "surface changed by motion"); }
			});
		}
	}
}
