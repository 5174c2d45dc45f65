// C03: every sequence of triangle splits, edge splits and flips from closed meshes keeps the surface.
#include "common.hpp"
#include "MeshMeasurements.h"
#include "MeshFactory.h"

namespace {
struct Op { int kind; Tri a, b; int split; std::string text; }; // 0 split triangle, 1 split edge (a contains edge a0->a1), 2 flip, 3 split triangle with existing vertex index
typedef std::vector<Op> Hist;

int find(const Mesh& m, Tri t)
{
	for (int i = 0; i < m.nb_triangles(); i++) { if (m.is_triangle_unlinked(i)) continue; Tri q; m.get_triangle_vertices(i, q[0], q[1], q[2]); if (same_tri(q, t)) return i; }
	return -1;
}
int find(const TriList& m, Tri t) { for (size_t i = 0; i < m.t.size(); i++) if (!m.removed[i] && same_tri(m.t[i], t)) return (int)i; return -1; }
V at(const V& a, const V& b, const V& c, int k)
{
	static const double w[3][3] = { {1 / 3.,1 / 3.,1 / 3.},{0.5,0.25,0.25},{0.125,0.125,0.75} };
	return a * w[k][0] + b * w[k][1] + c * w[k][2];
}
V edge_at(const V& a, const V& b, int k) { static const double w[3] = { 0.5,0.25,0.875 }; return a * (1 - w[k]) + b * w[k]; }
void apply_model(TriList& l, const Op& o)
{
	if (o.kind == 0) {
		int i = find(l, o.a); V p = at(l.v[o.a[0]], l.v[o.a[1]], l.v[o.a[2]], o.split); int s = l.addv(p.x, p.y, p.z); l.removed[i] = true;
		for (int k = 0; k < 3; k++) l.addt(o.a[k], o.a[(k + 1) % 3], s);
	}
	else if (o.kind == 1) {
		int i = find(l, o.a), j = find(l, o.b); V p = edge_at(l.v[o.a[0]], l.v[o.a[1]], o.split); int s = l.addv(p.x, p.y, p.z); l.removed[i] = l.removed[j] = true;
		l.addt(o.a[0], s, o.a[2]); l.addt(s, o.a[1], o.a[2]); l.addt(o.b[0], s, o.b[2]); l.addt(s, o.b[1], o.b[2]); // b = (a1,a0,x)
	}
	else { int i = find(l, o.a); l.removed[i] = true; l.addt(o.a[0], o.a[2], o.a[1]); }
}
std::vector<Op> options(const TriList& l, bool flips, int points, bool rotations)
{
	std::vector<Op> r;
	for (size_t i = 0; i < l.t.size(); i++) {
		if (l.removed[i]) continue; Tri t = l.t[i];
		for (int s = 0; s < points; s++) r.push_back({ 0,t,{},s,S() << "split triangle " << t[0] << "," << t[1] << "," << t[2] << " at point " << s });
		for (int k = 0; k < 3; k++) { // edge t[k]->t[k+1]
			Tri a = { t[k],t[(k + 1) % 3],t[(k + 2) % 3] };
			for (size_t j = 0; j < l.t.size(); j++) if (j != i && !l.removed[j]) for (int q = 0; q < 3; q++)
				if (l.t[j][q] == a[1] && l.t[j][(q + 1) % 3] == a[0])
					for (int s = 0; s < points; s++) r.push_back({ 1,a,{a[1],a[0],l.t[j][(q + 2) % 3]},s,S() << "split edge " << a[0] << "->" << a[1] << " at point " << s });
		}
		if (flips) r.push_back({ 2,t,{},0,S() << "flip triangle " << t[0] << "," << t[1] << "," << t[2] });
	}
	return r;
}
std::multiset<Tri> live(const TriList& l) { std::multiset<Tri> s; for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) s.insert(canon(l.t[i])); return s; }

void check(mc::Ctx& c, const TriList& start, const Hist& h, double s1 = 1) // s1: size of the shape, a power of two; everything is judged relative to it
{
	const double s2 = s1 * s1, s3 = s2 * s1;
	Mesh m; build_into(start, m); TriList l = start;
	double vol0 = start.volume(), area0 = start.area();
	for (auto& o : h) {
		int t = find(m, o.a); int before = m.nb_triangles(); 
		if (t < 0) { c.fail("lost-triangle", "triangle to edit is not in the mesh"); return; }
		if (o.kind == 0) {
			V p = at(l.v[o.a[0]], l.v[o.a[1]], l.v[o.a[2]], o.split);
			if (o.split == 1) { int s = m.add_vertex(P(p)); m.split_triangle_with_vertex(t, s); } else m.split_triangle_with_vertex(t, P(p));
		}
		else if (o.kind == 1) {
			int u = find(m, o.b); if (u < 0) { c.fail("lost-triangle", "neighbour is not in the mesh"); return; }
			V p = edge_at(l.v[o.a[0]], l.v[o.a[1]], o.split); int s = m.add_vertex(P(p)); m.split_edge_with_vertex(t, u, o.a[0], o.a[1], s);
		}
		else m.flip_triangle(t);
		c.step(); apply_model(l, o);
		TriList g = snapshot(m);
		if (g.t.size() != l.t.size()) { c.fail("count", S() << "triangle count went from " << before << " to " << g.t.size() << ", expected " << l.t.size() << " after " << o.text); return; }
		if (g.live() != l.live()) { c.fail("removed", S() << g.live() << " live triangles, expected " << l.live() << " after " << o.text); return; }
		if (!m.is_triangle_unlinked(t)) { c.fail("removed", "the edited triangle is still live after " + o.text); return; }
		if (g.v.size() != l.v.size()) { c.fail("vertices", "vertex count after " + o.text); return; }
		for (size_t i = 0; i < g.v.size(); i++) if (!near(P(g.v[i] * (1 / s1)), P(l.v[i] * (1 / s1)), 1e-12)) { c.fail("vertices", S() << "vertex " << i << " moved after " << o.text); return; }
		if (live(g) != live(l)) { c.fail("triangles", "live triangles differ from the expected ones after " + o.text); return; }
		int flips = 0; for (auto& x : h) { if (x.kind == 2) flips++; if (&x == &o) break; }
		if (!near(MeshMeasurements::surface(m) / s2, area0 / s2)) { c.fail("area", S() << "area " << MeshMeasurements::surface(m) << " was " << area0 << " after " << o.text); return; }
		if (!flips) {
			if (!near(MeshMeasurements::volume(m) / s3, vol0 / s3)) { c.fail("volume", S() << "volume " << MeshMeasurements::volume(m) << " was " << vol0 << " after " << o.text); return; }
			Topo q = topo(g, 1e-9 * s1);
			if (!q.closed() || q.degenerate) { c.fail("closed", "not closed and consistently oriented after " + o.text + ": " + q.why()); return; }
		}
		uint64_t hh = 0; for (auto& x : live(g)) hh += mc::mix(mc::mix(x[0], x[1]), x[2]); c.state(hh);
	}
}
void explore(const TriList& start, TriList l, Hist& h, int depth, bool flips, int points, const std::function<void(const Hist&)>& f)
{
	if (depth == 0) { f(h); return; }
	for (auto& o : options(l, flips, points, true)) { TriList n = l; apply_model(n, o); h.push_back(o); explore(start, n, h, depth - 1, flips, points, f); h.pop_back(); }
}
TriList shape(int k)
{
	TriList l; Mesh m;
	if (k == 0) { // tetrahedron, corners listed so that every rotation of an edge occurs
		l.addv(0, 0, 0); l.addv(2, 0, 0); l.addv(0, 3, 0); l.addv(0, 0, 4); l.addt(0, 2, 1); l.addt(3, 0, 1); l.addt(1, 2, 3); l.addt(2, 0, 3); return l;
	}
	if (k == 1) { // octahedron
		static const int s[6][3] = { {1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1} }; for (auto& p : s) l.addv(p[0] * 2, p[1] * 2, p[2] * 2);
		static const int f[8][3] = { {0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5} }; for (auto& t : f) l.addt(t[0], t[1], t[2]); return l;
	}
	if (k == 2) { // double pyramid over a triangle, with removed leftovers
		l.addv(0, 0, 0); l.addv(4, 0, 0); l.addv(0, 4, 0); l.addv(1, 1, 3); l.addv(1, 1, -3); l.addt(0, 1, 2); l.removed[0] = true;
		l.addt(0, 1, 3); l.addt(2, 3, 1); l.addt(3, 2, 0); l.addt(1, 0, 4); l.addt(4, 2, 1); l.addt(0, 2, 4); return l;
	}
	if (k == 3) MeshFactory::create_box(1, 2, 3, m); else MeshFactory::create_icosahedron(1, m);
	l = snapshot(m); return l;
}
std::string text(int k, const Hist& h) { S s; s << "shape " << k << ":"; for (auto& o : h) s << " " << o.text << ";"; return s; }
}
void run(mc::Ctx& c)
{
	struct B { int shape, depth, points; bool flips; };
	std::vector<B> plan = c.thorough() ? std::vector<B>{ {0,4,1,false},{0,3,3,true},{1,3,1,false},{1,2,3,true},{2,3,2,true},{3,2,3,true},{4,2,2,true} }
		: std::vector<B>{ {0,3,2,false},{0,3,1,true},{1,2,3,true},{2,3,1,true},{3,2,2,true},{4,1,3,true} };
	for (auto& b : plan) {
		TriList l = shape(b.shape);
		c.section(S() << "shape" << b.shape << (b.flips ? "-with-flips" : "-splits"), S() << "every sequence of " << b.depth << " edits, every live triangle and every edge in both directions, " << b.points << " split points");
		Hist h;
		explore(l, l, h, b.depth, b.flips, b.points, [&](const Hist& q) { int k = b.shape; c.test([=] { return text(k, q); }, [&] { check(c, l, q); }); });
	}
	c.section("flip-all", "every shape: flipping all triangles negates the volume and keeps the area; twice restores");
	for (int k = 0; k < 5; k++) c.test([=] { return S() << "flip all of shape " << k; }, [&, k] {
		TriList l = shape(k); Mesh m; build_into(l, m); double v = l.volume(), a = l.area();
		for (int r = 0; r < 3; r++) {
			int n = m.nb_triangles(); std::vector<int> ids; for (int i = 0; i < n; i++) if (!m.is_triangle_unlinked(i)) ids.push_back(i);
			for (int i : ids) { Triangle3 t0; m.get_triangle(i, t0); m.flip_triangle(i); c.step(); Triangle3 t1; m.get_triangle(m.nb_triangles() - 1, t1); MC_CHECK(c, near(t0.normal() * -1., t1.normal()), "flip-normal", "normal not reversed"); }
			double s = r % 2 ? 1 : -1; c.obs(MeshMeasurements::volume(m));
			MC_CHECK(c, near(MeshMeasurements::volume(m), s * v) && near(MeshMeasurements::surface(m), a), "flip-all", "volume " << MeshMeasurements::volume(m) << " area " << MeshMeasurements::surface(m));
		}
		});
	c.section("magnitudes", "every single edit of every shape at every power of two of size, and moved away from the origin");
	for (int k = 0; k < 5; k++) for (int e = -100; e <= 100; e += c.thorough() ? 1 : 4) {
		TriList l = shape(k); double s = std::ldexp(1., e); for (auto& p : l.v) p = p * s; if (e % 8 == 0) for (auto& p : l.v) p = p + V{ 3 * s,-5 * s,7 * s };
		Hist h; explore(l, l, h, 1, true, 2, [&](const Hist& q) { c.test([=] { return text(k, q) + (S() << " times 2^" << e).str(); }, [&] { check(c, l, q, s); }); });
	}
	c.section("large meshes", "every single edit of spheres, cylinders and tori of up to some hundred triangles, and of meshes whose edited part has indices beside every power of two");
	{
		std::vector<std::pair<std::string, TriList>> L; auto add = [&](const char* n, std::function<void(Mesh&)> f) { Mesh m; f(m); L.push_back({ n,snapshot(m) }); };
		add("uv sphere", [](Mesh& m) { MeshFactory::create_sphere_uv(1, 6, m); }); add("geodesic sphere", [](Mesh& m) { MeshFactory::create_sphere_geodesic(1, 3, m); }); add("torus", [](Mesh& m) { MeshFactory::create_torus(3, 1, 4, m); }); add("cylinder", [](Mesh& m) { MeshFactory::create_cylinder(2, 1, 11, m); }); add("dodecahedron", [](Mesh& m) { MeshFactory::create_dodecahedron(1, m); });
		for (auto& x : L) { TriList l = x.second; // vertices that coincide become one, so that all neighbours share indices
			{ TriList w; std::vector<int> id; for (auto& p : l.v) { int f = -1; for (size_t k = 0; k < w.v.size() && f < 0; k++) if (len(w.v[k] - p) < 1e-7) f = (int)k; if (f < 0) f = w.addv(p.x, p.y, p.z); id.push_back(f); } for (auto& t : l.t) if (id[t[0]] != id[t[1]] && id[t[1]] != id[t[2]] && id[t[0]] != id[t[2]]) w.addt(id[t[0]], id[t[1]], id[t[2]]); l = w; }
			Hist h; explore(l, l, h, 1, true, 1, [&](const Hist& q) { c.test([=] { return x.first + ": " + text(9, q); }, [&] { check(c, l, q); }); }); }
		for (int n : ladder(3, c.bound(65536, 1 << 18))) for (int k = 0; k < 2; k++) c.test([&] { return (S() << "shape " << k << " after " << n << " removed triangles and vertices").str(); }, [&] {
			// the shape behind many removed triangles; one split of each kind and a flip, judged by the live triangles
			TriList s = shape(k), l; Mesh m; for (int i = 0; i < n; i++) { l.addv(i, 1, 2); m.add_vertex(i, 1, 2); } for (int i = 0; i < n; i++) { l.addt(i % n, (i + 1) % n, (i + 2) % n); l.removed[i] = true; m.add_triangle(i % n, (i + 1) % n, (i + 2) % n); m.unlink_triangle(i); }
			for (auto& p : s.v) { l.v.push_back(p); m.add_vertex(P(p)); } for (auto& t : s.t) { l.addt(t[0] + n, t[1] + n, t[2] + n); m.add_triangle(t[0] + n, t[1] + n, t[2] + n); }
			for (int step = 0; step < 4; step++) {
				int t = (int)l.t.size() - 1; while (l.removed[t]) t--; Tri a = l.t[t]; Op o{ step == 3 ? 2 : step & 1,a,{},0,"" };
				if (o.kind == 1) for (size_t j = n; j < l.t.size(); j++) if (!l.removed[j]) for (int q = 0; q < 3; q++) if (l.t[j][q] == a[1] && l.t[j][(q + 1) % 3] == a[0]) o.b = { a[1],a[0],l.t[j][(q + 2) % 3] };
				int mt = -1, mu = -1; for (int i = n; i < m.nb_triangles(); i++) { if (m.is_triangle_unlinked(i)) continue; Tri q; m.get_triangle_vertices(i, q[0], q[1], q[2]); if (same_tri(q, a)) mt = i; if (o.kind == 1 && same_tri(q, o.b)) mu = i; }
				if (mt < 0 || (o.kind == 1 && mu < 0)) { c.fail("lost-triangle", "triangle to edit is not in the mesh"); return; }
				if (o.kind == 0) m.split_triangle_with_vertex(mt, P(at(l.v[a[0]], l.v[a[1]], l.v[a[2]], 0))); else if (o.kind == 1) { int sv = m.add_vertex(P(edge_at(l.v[a[0]], l.v[a[1]], 0))); m.split_edge_with_vertex(mt, mu, a[0], a[1], sv); } else m.flip_triangle(mt);
				c.step(); apply_model(l, o); TriList g = snapshot(m); MC_CHECK(c, g.t.size() == l.t.size() && g.live() == l.live() && g.v.size() == l.v.size(), "count", "counts after step " << step); MC_CHECK(c, live(g) == live(l), "triangles", "live triangles differ after step " << step);
				for (size_t i = 0; i < l.v.size() && i < g.v.size(); i++) if (!near(P(g.v[i]), P(l.v[i]), 1e-12)) { c.fail("vertices", S() << "vertex " << i << " moved"); return; }
			}
			c.obs((uint64_t)l.hash());
		});
	}
}
