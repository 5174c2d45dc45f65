// C06: tessellation against the regular barycentric grid, for every n and every small mesh with removed triangles.
#include "common.hpp"
#include "MeshTessellate.h"
#include "MeshFactory.h"
#include "MeshMeasurements.h"

namespace {
typedef std::array<long long, 3> K; typedef std::array<K, 3> KT;
KT kcanon(KT t) { KT r = t; for (int i = 0; i < 2; i++) { t = { t[1],t[2],t[0] }; if (t < r) r = t; } return r; }
// vertices of l are integers: n * (grid point) is an integer
void check(mc::Ctx& c, const TriList& l, int n, Mesh& out, const std::string& what)
{
	Mesh in; build_into(l, in); MeshTessellate mt; mt.compute(in, n, out); c.step();
	MC_CHECK(c, diff(snapshot(in), l) == "", "input-modified", diff(snapshot(in), l));
	TriList o = snapshot(out); { std::set<int> used; for (auto& t : o.t) for (int k : t) used.insert(k); MC_CHECK(c, used.size() == o.v.size(), "left-over", what << o.v.size() - used.size() << " vertices of the output belong to no triangle"); }
	MC_CHECK(c, o.live() == n * n * l.live() && (int)o.t.size() == o.live(), "count", what << o.live() << " triangles for " << l.live() << " with n=" << n);
	std::map<KT, int> m;
	auto kof = [&](V p, bool& ok) { K k; double d[3] = { p.x * n,p.y * n,p.z * n }; for (int i = 0; i < 3; i++) { double r = std::floor(d[i] + 0.5); if (!(std::fabs(r - d[i]) < 1e-9)) ok = false; k[i] = ok ? (long long)r : 0; } return k; };
	for (size_t i = 0; i < o.t.size(); i++) {
		bool ok = true; KT t; for (int k = 0; k < 3; k++) t[k] = kof(o.v[o.t[i][k]], ok);
		if (!ok) { c.fail("grid", S() << what << "triangle " << i << " has a corner off the grid"); return; }
		m[kcanon(t)]++;
	}
	for (size_t i = 0; i < l.t.size(); i++) {
		if (l.removed[i]) continue;
		V A = l.v[l.t[i][0]], B = l.v[l.t[i][1]], C = l.v[l.t[i][2]];
		auto g = [&](int u, int w) { int q = n - u - w; V s = A * q + B * u + C * w; return K{ (long long)s.x,(long long)s.y,(long long)s.z }; };
		for (int u = 0; u < n; u++) for (int w = 0; u + w < n; w++) {
			m[kcanon({ g(u,w),g(u + 1,w),g(u,w + 1) })]--;
			if (u + w + 1 < n) m[kcanon({ g(u + 1,w),g(u + 1,w + 1),g(u,w + 1) })]--;
		}
	}
	for (auto& e : m) if (e.second) { c.fail("cover", S() << what << "grid triangle (" << e.first[0][0] << "," << e.first[0][1] << "," << e.first[0][2] << ")(" << e.first[1][0] << "," << e.first[1][1] << "," << e.first[1][2] << ")... /" << n << (e.second > 0 ? " is present too often" : " is missing")); break; }
	MC_CHECK(c, near(MeshMeasurements::surface(out), l.area(), 1e-9) && near(MeshMeasurements::volume(out), l.volume(), 1e-9), "area", what << "area " << MeshMeasurements::surface(out) << " volume " << MeshMeasurements::volume(out) << ", input " << l.area() << " " << l.volume());
	c.obs((int)o.v.size()); c.obs((int)o.t.size()); c.obs(MeshMeasurements::surface(out));
}
static const V LAT[] = { {0,0,0},{3,0,1},{1,4,0},{-2,1,5},{6,0,2} };
}
void run(mc::Ctx& c)
{
	int N = c.bound(12, 40);
	c.section("small meshes", "every one or two triangles over 4 vertices in general position, every removed subset, every n up to a bound, into fresh and used meshes");
	std::vector<Tri> T; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) if (i != j && j != k && i != k) T.push_back({ i,j,k });
	for (int n = 1; n <= N; n++) for (size_t a = 0; a < T.size(); a++) for (int b = -1; b < (int)T.size(); b++) {
		if (b >= 0 && (n > 5 && !c.thorough())) continue;
		for (int r = 0; r < (b >= 0 ? 4 : 2); r++) {
			TriList l; for (int i = 0; i < 4; i++) l.addv(LAT[i].x, LAT[i].y, LAT[i].z); l.addt(T[a][0], T[a][1], T[a][2]); if (b >= 0) l.addt(T[b][0], T[b][1], T[b][2]);
			l.removed[0] = r & 1; if (b >= 0) l.removed[1] = r & 2;
			c.test([&] { return (S() << "n=" << n << " " << dump(l)).str(); }, [&] {
				Mesh o; check(c, l, n, o, "");
				check(c, l, n, o, "into the mesh just produced: ");
				Mesh o2; for (int i = 0; i < n; i++) o2.add_vertex(Point3(i, 5, 6)); check(c, l, n, o2, "into a mesh of vertices only: ");
			});
		}
	}
	c.section("many triangles", "every subset of removed triangles of a 6-triangle mesh, every n");
	for (int n = 1; n <= std::min(N, 12); n++) for (int r = 0; r < 64; r++) {
		TriList l; for (auto& p : LAT) l.addv(p.x, p.y, p.z); static const Tri q[] = { {0,1,2},{0,2,3},{1,4,2},{3,2,4},{0,4,1},{4,0,3} }; for (int k = 0; k < 6; k++) { l.addt(q[k][0], q[k][1], q[k][2]); l.removed[k] = r >> k & 1; }
		c.test([&] { return (S() << "n=" << n << " " << dump(l)).str(); }, [&] { Mesh o; o.add_triangle(Point3(1, 2, 3), Point3(4, 5, 6), Point3(7, 8, 8)); check(c, l, n, o, ""); });
	}
	c.section("large", "one and many triangles cut into many segments");
	for (int n : { 16,17,31,32,33,50,64,65,100,127,128,129,200,255,256,257,c.bound(300,600) }) for (int k = 0; k < 2; k++) c.test([&] { return (S() << "n=" << n << " triangles " << k + 1).str(); }, [&] {
		TriList l; for (auto& p : LAT) l.addv(p.x, p.y, p.z); l.addt(3, 2, 4); if (k) { l.addt(0, 1, 2); l.addt(1, 2, 4); l.removed[1] = true; } Mesh o; check(c, l, n, o, ""); });
	for (int t : { 100,127,128,255,256,257,511,512,513,1000,1024,1025,5000,c.bound(20000,70000) }) for (int n : { 1,2,3 }) c.test([&] { return (S() << "n=" << n << " strip of " << t << " triangles").str(); }, [&] {
		TriList l; for (int i = 0; i < t + 2; i++) l.addv(i, (i * 7) % 11, (i * 5) % 13); for (int i = 0; i < t; i++) { l.addt(i, i + 1, i + 2); l.removed[i] = i % 90 == 40; } Mesh o; check(c, l, n, o, ""); });
	c.section("nothing to do", "empty meshes, vertices only, all triangles removed: into fresh and used outputs of several kinds, every n, then a real mesh, then nothing again");
	for (int n = 1; n <= N; n++) for (int in = 0; in < 4; in++) for (int u = 0; u < 5; u++) c.test([&] { return (S() << "n=" << n << " input " << in << " output " << u).str(); }, [&] {
		TriList l, r; if (in) for (auto& p : LAT) l.addv(p.x, p.y, p.z); if (in > 1) { l.addt(0, 1, 2); l.removed[0] = true; } if (in > 2) for (int k = 0; k < 3; k++) { l.addt(k, 3, 4); l.removed[k + 1] = true; } for (auto& p : LAT) r.addv(p.x, p.y, p.z); r.addt(1, 3, 4);
		Mesh o; if (u == 1) MeshFactory::create_box(1, 2, 3, o); if (u == 2) o.add_vertex(1, 2, 3); if (u == 3) { MeshFactory::create_tetrahedron(1, o); for (int k = 0; k < 4; k++) o.unlink_triangle(k); } if (u == 4) { MeshFactory::create_tetrahedron(1, o); o.unlink_triangle(1); o.set_color(7); }
		check(c, l, n, o, "nothing: "); check(c, r, n, o, "a triangle after nothing: "); check(c, l, n, o, "nothing after a triangle: "); });
	c.section("closed solids", "integer solids stay closed, every n");
	for (int n = 1; n <= c.bound(10, 20); n++) for (int k = 0; k < 3; k++)
		c.test([&] { return (S() << "n=" << n << " solid " << k).str(); }, [&] {
			Mesh m; if (k == 0) MeshFactory::create_tetrahedron(3, m); else if (k == 1) MeshFactory::create_box(2, 4, 6, m); else MeshFactory::create_octahedron(2, m);
			TriList l = snapshot(m); Mesh o; check(c, l, n, o, ""); Topo t = topo(snapshot(o), 1e-6);
			MC_CHECK(c, t.closed() && t.euler() == 2 && t.degenerate == 0, "closed", "tessellated solid: " << t.why() << " Euler " << t.euler());
			Mesh o2; MeshTessellate mt; mt.compute(o, 2, o2); Mesh direct; mt.compute(m, 2 * n, direct); // composition
			MC_CHECK(c, o2.nb_triangles() == direct.nb_triangles() && near(MeshMeasurements::surface(o2), MeshMeasurements::surface(direct)), "compose", "tessellating n then 2 differs from 2n");
		});
}
