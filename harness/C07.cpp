// C07: vertex merging and empty-triangle removal against their definitions over every small vertex cluster configuration.
#include "common.hpp"
#include "MeshUtil.h"

namespace {
TriList merged(const TriList& l, double tol)
{
	TriList r; std::vector<int> id(l.v.size());
	for (size_t i = 0; i < l.v.size(); i++) {
		id[i] = -1; for (size_t k = 0; k < r.v.size() && id[i] < 0; k++) if (len(r.v[k] - l.v[i]) < tol) id[i] = (int)k;
		if (id[i] < 0) id[i] = r.addv(l.v[i].x, l.v[i].y, l.v[i].z);
	}
	for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) r.addt(id[l.t[i][0]], id[l.t[i][1]], id[l.t[i][2]]);
	r.color = l.color; return r;
}
void check_merge(mc::Ctx& c, const TriList& l, double tol, bool def)
{
	Mesh m; build_into(l, m); if (def) MeshUtil::merge_vertices(m); else MeshUtil::merge_vertices(m, tol); c.step();
	TriList e = merged(l, tol); std::string d = diff(snapshot(m), e);
	MC_CHECK(c, d == "", "merge", "merged mesh (got vs expected): " << d);
	if (def) MeshUtil::merge_vertices(m); else MeshUtil::merge_vertices(m, tol); c.step();
	d = diff(snapshot(m), e); MC_CHECK(c, d == "", "merge-idempotent", "merging twice: " << d);
	c.obs((int)e.hash());
}
void check_empty(mc::Ctx& c, const TriList& l, double tol, bool def)
{
	TriList e = l; for (size_t i = 0; i < l.t.size(); i++) for (int k = 0; k < 3; k++) if (len(l.v[l.t[i][k]] - l.v[l.t[i][(k + 1) % 3]]) < tol) e.removed[i] = true;
	Mesh m; build_into(l, m); if (def) MeshUtil::remove_empty_triangles(m); else MeshUtil::remove_empty_triangles(m, tol); c.step();
	std::string d = diff(snapshot(m), e); MC_CHECK(c, d == "", "empty", "after removing empty triangles (got vs expected): " << d);
	c.obs((int)e.hash());
}
// cluster k, member j: members of a cluster are within 0.5 tol, clusters at least 4 tol apart in at least one axis
V place(int k, int j, double tol)
{
	static const V C[] = { {0,0,0},{4,0,0},{0,-5,0},{0,0,6},{-4,5,0} }; static const V D[] = { {0,0,0},{0.3,0,0},{0,-0.2,0.3} };
	return (C[k] + D[j]) * tol;
}
}
void run(mc::Ctx& c)
{
	static const double T[] = { 1e-6,0.01,1,100 };
	int n = c.bound(5, 6);
	c.section("merge", "every placement of 1..n vertices on 3 clusters of 2 members, triangles joining consecutive vertices, every removed subset of the first triangles, several tolerances");
	for (int k = 1; k <= n; k++) sequences(6, k, [&](const std::vector<int>& s) {
		for (int ti = 0; ti < (k <= 4 ? 4 : 2); ti++) {
			double tol = T[ti];
			TriList l; for (int x : s) { V p = place(x / 2, x % 2, tol); l.addv(p.x, p.y, p.z); }
			for (int i = 0; i + 2 < k; i++) l.addt(i, i + 1, i + 2);
			if (k >= 4) l.addt(k - 1, 1, 0);
			l.color = k % 2 ? 0x102030 : -1;
			int subsets = l.t.size() >= 2 ? 4 : l.t.size() == 1 ? 2 : 1;
			for (int r = 0; r < subsets; r++) {
				for (size_t i = 0; i < l.t.size() && i < 2; i++) l.removed[i] = r >> i & 1;
				c.test([&] { return (S() << "tolerance " << tol << " " << dump(l)).str(); }, [&] { check_merge(c, l, tol, ti == 0); });
			}
		}
	});
	c.section("merge triples", "every placement of 4 vertices on 5 clusters of 3 members");
	sequences(15, 4, [&](const std::vector<int>& s) {
		TriList l; for (int x : s) { V p = place(x / 3, x % 3, 0.5); l.addv(p.x + 1, p.y - 2, p.z); } l.addt(0, 1, 2); l.addt(3, 2, 1); l.addt(2, 0, 3);
		l.removed[1] = (s[0] + s[1]) % 2; if (!c.thorough() && (s[3] + s[0]) % 2) return;
		c.test([&] { return dump(l); }, [&] { check_merge(c, l, 0.5, false); });
	});
	c.section("merge large", "lines of many separated vertices with coincident vertices far apart in the list, tolerances and sizes around powers of two");
	for (int n : { 30,63,64,65,127,128,129,255,256,257,511,512,513,1000,1023,1025,c.bound(2049,9000) }) for (int first : { 0,1,n / 2,n - 2 }) for (int gap : { 1,n / 3,n - 1 }) {
		int second = first + gap; if (second >= n) second = n;
		TriList l; for (int i = 0; i < n; i++) l.addv(i * 3, i % 5, 1);
		V a = l.v[first]; if (second < n) l.v[second] = { a.x + 0.1,a.y,a.z }; else l.addv(a.x, a.y - 0.1, a.z);
		l.addv(a.x, a.y, a.z + 0.1);
		for (int i = 0; i + 3 < n; i++) { l.addt(i, i + 3, (int)l.v.size() - 1 - i % 3); l.removed[i] = i % 40 == 7; }
		c.test([=] { return (S() << n << " vertices, vertices " << first << ", " << second << " and the last coincide").str(); }, [&] { check_merge(c, l, 0.5, false); });
	}
	c.section("places", "vertex pairs and clusters near every place: offsets of every fraction of the tolerance across thousands of tolerances along each axis and diagonal, both signs");
	for (int ti = 0; ti < 4; ti++) for (int ax = 0; ax < 5; ax++) for (int k = -c.bound(300, 3000); k <= c.bound(300, 3000); k++) {
		static const V X[5] = { {1,0,0},{0,1,0},{0,0,1},{1,1,1},{1,-1,0.5} }; double o = k * 0.37 + (k % 7 == 0 ? k * 1000. : 0); V at = X[ax] * (o * T[ti]);
		TriList l; for (int i = 0; i < 6; i++) { V p = place(i / 2, i % 2, T[ti]) + at; if (k % 2) p = p + V{ 0.015625,0.03125,-0.0625 } *T[ti]; l.addv(p.x, p.y, p.z); } V q = at + V{ 20,20,20 } *T[ti]; l.addv(q.x, q.y, q.z); q = q + V{ 0.6,-0.6,0.4 } *T[ti]; l.addv(q.x, q.y, q.z); q = q + V{ 9,0,0 } *T[ti]; l.addv(q.x, q.y, q.z); l.addt(0, 3, 5); l.addt(1, 2, 4); l.addt(6, 8, 7); l.addt(7, 5, 1); l.addt(0, 1, 8);
		c.test([&] { return (S() << "tolerance " << T[ti] << " around " << str(at)).str(); }, [&] { check_merge(c, l, T[ti], ti == 0); check_empty(c, l, T[ti], ti == 0); });
	}
	c.section("remove empty", "every triangle pair over 6 vertices of 3 clusters, every removed subset, several tolerances");
	std::vector<Tri> A; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) for (int k = 0; k < 6; k++) A.push_back({ i,j,k });
	for (int ti = 0; ti < 4; ti++) for (size_t a = 0; a < A.size(); a++) for (size_t b = 0; b < A.size(); b += (c.thorough() ? 1 : 5)) for (int r = 0; r < 4; r++) {
		TriList l; for (int i = 0; i < 6; i++) { V p = place(i / 2, i % 2, T[ti]); l.addv(p.x, p.y, p.z); }
		l.addt(A[a][0], A[a][1], A[a][2]); l.addt(A[b][0], A[b][1], A[b][2]); l.removed[0] = r & 1; l.removed[1] = r & 2; l.color = 7;
		c.test([&] { return (S() << "tolerance " << T[ti] << " " << dump(l)).str(); }, [&] { check_empty(c, l, T[ti], ti == 0); });
	}
	c.section("remove many", "meshes of every number of triangles to 24 with every pair of them empty (at any two corners), and of a ladder of numbers, with empty triangles at the ends, in the middle and everywhere, removed ones between them");
	{
		std::vector<int> ns; for (int n = 1; n <= 24; n++) ns.push_back(n); for (int n : ladder(25, c.bound(1030, 5000))) ns.push_back(n);
		for (int n : ns) { std::vector<std::pair<int, int>> pr; if (n <= 24) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) pr.push_back({ i,j }); else pr = { {0,n - 1},{1,n / 2},{n / 2,n - 2},{n - 1,n - 1},{0,0} }; pr.push_back({ -1,-1 });
			for (auto& q : pr) for (int w = 0; w < 3; w++) for (int rm = 0; rm < 2; rm++) c.test([=] { return (S() << n << " triangles, empty ones " << q.first << " and " << q.second << " (-1: every one), corner " << w << (rm ? ", every fifth removed" : "")).str(); }, [&, n, q, w, rm] {
				TriList l; for (int i = 0; i < n; i++) { V o = { 10. * i,i % 3 * 1.,-i * 2. }, p[3] = { o,o + V{ 3,0,1 },o + V{ 0,4,0 } }; bool e = q.first < 0 ? i % 4 != 3 : i == q.first || i == q.second; if (e) p[(w + 1) % 3] = p[w] + V{ 0.25,0,-0.25 }; for (auto& x : p) l.addv(x.x, x.y, x.z); l.addt(3 * i, 3 * i + 1, 3 * i + 2); l.removed[i] = rm && i % 5 == 2; }
				check_empty(c, l, 0.5, false); if (n < 200 || w == 0) check_merge(c, l, 0.5, false);
			});
		}
	}
	c.section("exact thresholds", "edges exactly as long as the tolerance, and by one last digit shorter or longer, along lattice directions of whole length, every power of two: only a shorter one is empty; a null tolerance merges and removes nothing else than what was removed");
	for (int e = -30; e <= 30; e += c.bound(2, 1)) for (int dir = 0; dir < 8; dir++) for (int rot = 0; rot < 6; rot++) for (int w = -1; w <= 1; w++) {
		static const double D[8][4] = { {1,0,0,1},{0,-1,0,1},{0,0,1,1},{3,4,0,5},{0,-4,3,5},{2,3,6,7},{-1,2,-2,3},{4,0,3,5} }; double s = std::ldexp(1., e); V d = V{ D[dir][0],D[dir][1],D[dir][2] } *s; double tol = D[dir][3] * s; tol = w < 0 ? tol * (1 - 1e-12) : w > 0 ? tol * (1 + 1e-12) : tol;
		static const int pm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} }; TriList l; V p[3] = { {},d,V{ 40,-50,60 } *s }; for (int k = 0; k < 3; k++) l.addv(p[pm[rot][k]].x, p[pm[rot][k]].y, p[pm[rot][k]].z); l.addt(0, 1, 2);
		c.test([&] { return (S() << "tolerance " << D[dir][3] * s << (w < 0 ? " slightly less " : w > 0 ? " slightly more " : " ") << dump(l)).str(); }, [&] { check_empty(c, l, tol, false); if (w) check_merge(c, l, tol, false); });
	}
	for (int k = 3; k <= 6; k++) for (int r = 0; r < 16; r++) for (int z = 0; z < 2; z++) {
		TriList l; for (int i = 0; i < k; i++) { V p = place(i % 5, i / 5, 1); if (z) p = p * 1e-9; l.addv(p.x, p.y, p.z); } for (int i = 0; i < 4; i++) { l.addt(i % k, (i + 1) % k, (i + 2) % k); l.removed[i] = r >> i & 1; } l.addt(0, 0, 1);
		c.test([&] { return "no tolerance " + dump(l); }, [&] { check_merge(c, l, 0, false); check_empty(c, l, 0, false); });
	}
	c.section("thresholds", "pairs of vertices at distances around the tolerance along every axis direction");
	for (int ti = 0; ti < 4; ti++) for (double f : { 0.,0.5,0.9,0.99,1.01,1.1,2.,10. }) for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) {
		if (!dx && !dy && !dz) continue; double L = std::sqrt((double)(dx * dx + dy * dy + dz * dz)), q = f * T[ti] / L;
		for (int rot = 0; rot < 3; rot++) {
			TriList l; l.addv(0, 0, 0); l.addv(dx * q, dy * q, dz * q); V far = V{ 7,-9,11 } *T[ti]; l.addv(far.x, far.y, far.z); Tri t = { rot,(rot + 1) % 3,(rot + 2) % 3 }; l.addt(t[0], t[1], t[2]);
			c.test([&] { return (S() << "tolerance " << T[ti] << " distance factor " << f << " " << dump(l)).str(); }, [&] { check_merge(c, l, T[ti], ti == 0); check_empty(c, l, T[ti], ti == 0); });
		}
	}
}
