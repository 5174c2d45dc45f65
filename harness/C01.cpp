// C01: every edit history of a mesh, in lockstep with a plain list of vertices and triangles.
#include "common.hpp"
#include "Transform.h"
#include <memory>

namespace {

struct Op { std::string name; std::function<bool(const TriList&)> ok; std::function<std::string(Mesh&, TriList&)> run; };

// Applies what the list says. New triangles of one edit are compared as a set (up to rotation) and the
// list then takes the mesh's order, so that only the documented content is imposed.
std::string expect_new(Mesh& m, TriList& l, std::vector<Tri> want)
{
	int n0 = (int)l.t.size();
	if (m.nb_triangles() != n0 + (int)want.size()) return S() << "expected " << want.size() << " new triangles after index " << n0 << ", triangle count is " << m.nb_triangles();
	for (size_t i = 0; i < want.size(); i++) {
		Tri t; m.get_triangle_vertices(n0 + (int)i, t[0], t[1], t[2]);
		bool found = false;
		for (size_t k = 0; k < want.size(); k++) if (want[k][0] >= 0 && same_tri(want[k], t)) { want[k] = { -1,-1,-1 }; found = true; break; }
		if (!found) return S() << "unexpected new triangle " << t[0] << "," << t[1] << "," << t[2];
		l.addt(t[0], t[1], t[2]);
	}
	return "";
}
double area(const V& a, const V& b, const V& c) { return len(cross(b - a, c - a)) / 2; }
int first_live(const TriList& l) { for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i]) return (int)i; return -1; }
int last_live(const TriList& l) { for (int i = (int)l.t.size() - 1; i >= 0; i--) if (!l.removed[i]) return i; return -1; }
// a live pair of triangles sharing an edge in opposite directions
bool shared_edge(const TriList& l, int& t1, int& t2, int& a, int& b, bool last)
{
	bool f = false;
	auto flat = [&](size_t i) { return l.t[i][0] == l.t[i][1] || l.t[i][1] == l.t[i][2] || l.t[i][0] == l.t[i][2]; };
	for (size_t i = 0; i < l.t.size(); i++) if (!l.removed[i] && !flat(i)) for (size_t j = 0; j < l.t.size(); j++) if (j != i && !l.removed[j] && !flat(j))
		for (int k = 0; k < 3; k++) for (int q = 0; q < 3; q++)
			if (l.t[i][k] == l.t[j][(q + 1) % 3] && l.t[i][(k + 1) % 3] == l.t[j][q] && l.t[i][k] != l.t[j][q]
				&& l.t[i][(k + 2) % 3] != l.t[j][(q + 2) % 3]) {
				t1 = (int)i; t2 = (int)j; a = l.t[i][k]; b = l.t[i][(k + 1) % 3]; f = true;
				if (!last) return true;
			}
	return f;
}
TriList other(int kind)
{
	TriList o;
	if (kind == 0) { o.addv(7, 7, 7); return o; }
	o.addv(0, 0, 5); o.addv(1, 0, 5); o.addv(0, 1, 5); o.addv(9, 9, 9); o.addv(1, 1, 5);
	o.addt(0, 1, 2); o.addt(2, 1, 4); o.addt(4, 1, 0); o.removed[kind == 1 ? 0 : 1] = true; o.color = kind == 1 ? 0x123456 : -1;
	return o;
}

std::vector<Op> ops()
{
	std::vector<Op> r;
	auto any = [](const TriList&) { return true; };
	auto nv = [](size_t n) { return [n](const TriList& l) { return l.v.size() >= n; }; };
	auto live = [](const TriList& l) { return first_live(l) >= 0; };
	auto idx = [](int got, int want) -> std::string { return got == want ? "" : (S() << "returned index " << got << ", expected " << want).str(); };
	r.push_back({ "add_vertex(Point3(1,2,3))", any, [=](Mesh& m, TriList& l) { return idx(m.add_vertex(Point3(1, 2, 3)), l.addv(1, 2, 3)); } });
	r.push_back({ "add_vertex(-1,0.5,4)", any, [=](Mesh& m, TriList& l) { return idx(m.add_vertex(-1, 0.5, 4), l.addv(-1, 0.5, 4)); } });
	r.push_back({ "set_vertex(last,(8,9,10))", nv(1), [=](Mesh& m, TriList& l) { m.set_vertex((int)l.v.size() - 1, Point3(8, 9, 10)); l.v.back() = { 8,9,10 }; return ""; } });
	r.push_back({ "set_vertex(0,(-3,-4,-5))", nv(1), [=](Mesh& m, TriList& l) { m.set_vertex(0, Point3(-3, -4, -5)); l.v[0] = { -3,-4,-5 }; return ""; } });
	r.push_back({ "add_triangle(0,1,2)", nv(3), [=](Mesh& m, TriList& l) { return idx(m.add_triangle(0, 1, 2), l.addt(0, 1, 2)); } });
	r.push_back({ "add_triangle(last,1,0)", nv(3), [=](Mesh& m, TriList& l) { int n = (int)l.v.size() - 1; return idx(m.add_triangle(n, 1, 0), l.addt(n, 1, 0)); } });
	r.push_back({ "add_triangle(points)", any, [=](Mesh& m, TriList& l) {
		int a = l.addv(0, 0, 0), b = l.addv(2, 0, 0), c = l.addv(0, 2, 0);
		return idx(m.add_triangle(Point3(0, 0, 0), Point3(2, 0, 0), Point3(0, 2, 0)), l.addt(a, b, c)); } });
	r.push_back({ "add_quad(last4 indices)", nv(4), [=](Mesh& m, TriList& l) {
		int n = (int)l.v.size(); m.add_quad(n - 4, n - 3, n - 2, n - 1); return expect_new(m, l, { {n - 4,n - 3,n - 2},{n - 2,n - 1,n - 4} }); } });
	for (int k = 0; k < 3; k++) // three point quads: diagonal 1-3 shorter, diagonal 2-4 shorter, no optimisation
		r.push_back({ S() << "add_quad(points, variant " << k << ")", any, [=](Mesh& m, TriList& l) {
			V q[4] = { {0,0,0},{2,0,0},{2,2,0},{0,2,0} };
			if (k == 0) { q[1].z = 3; q[3].z = 3; q[1].x = 4; } else { q[0].z = 3; q[2].z = 3; q[2].x = 4; }
			int n = (int)l.v.size(); for (auto& p : q) l.addv(p.x, p.y, p.z);
			m.add_quad(P(q[0]), P(q[1]), P(q[2]), P(q[3]), k != 2);
			double s13 = area(q[0], q[1], q[2]) + area(q[2], q[3], q[0]), s24 = area(q[1], q[2], q[3]) + area(q[3], q[0], q[1]);
			if (k == 2 || s13 <= s24) return expect_new(m, l, { {n,n + 1,n + 2},{n + 2,n + 3,n} });
			return expect_new(m, l, { {n + 1,n + 2,n + 3},{n + 3,n,n + 1} }); } });
	r.push_back({ "add_pentagon(first5)", nv(5), [=](Mesh& m, TriList& l) { m.add_pentagon(0, 1, 2, 3, 4); return expect_new(m, l, { {0,1,2},{2,3,4},{0,2,4} }); } });
	r.push_back({ "unlink(first live)", live, [=](Mesh& m, TriList& l) { int t = first_live(l); m.unlink_triangle(t); l.removed[t] = true; return ""; } });
	r.push_back({ "unlink(last)", [](const TriList& l) { return !l.t.empty(); }, [=](Mesh& m, TriList& l) { int t = (int)l.t.size() - 1; m.unlink_triangle(t); l.removed[t] = true; return ""; } });
	r.push_back({ "flip(first live)", live, [=](Mesh& m, TriList& l) { int t = first_live(l); Tri q = l.t[t]; m.flip_triangle(t); l.removed[t] = true; return expect_new(m, l, { {q[0],q[2],q[1]} }); } });
	r.push_back({ "flip(last, removed or not)", [](const TriList& l) { return !l.t.empty(); }, [=](Mesh& m, TriList& l) { int t = (int)l.t.size() - 1; Tri q = l.t[t]; m.flip_triangle(t); l.removed[t] = true; return expect_new(m, l, { {q[0],q[2],q[1]} }); } });
	r.push_back({ "split_triangle_with_vertex(last live,(0.5,0.25,0))", live, [=](Mesh& m, TriList& l) {
		int t = last_live(l); Tri q = l.t[t]; int s = l.addv(0.5, 0.25, 0); m.split_triangle_with_vertex(t, Point3(0.5, 0.25, 0)); l.removed[t] = true;
		return expect_new(m, l, { {q[0],q[1],s},{q[1],q[2],s},{q[2],q[0],s} }); } });
	r.push_back({ "split_triangle_with_vertex(first, removed or not,last vertex)", [](const TriList& l) { return !l.t.empty(); }, [=](Mesh& m, TriList& l) {
		int t = 0; Tri q = l.t[t]; int s = (int)l.v.size() - 1; m.split_triangle_with_vertex(t, s); l.removed[t] = true;
		return expect_new(m, l, { {q[0],q[1],s},{q[1],q[2],s},{q[2],q[0],s} }); } });
	for (int last = 0; last < 2; last++)
		r.push_back({ S() << "split_edge(" << (last ? "last" : "first") << " shared edge, new vertex)", [=](const TriList& l) { int a, b, c, d; return shared_edge(l, a, b, c, d, last); },
			[=](Mesh& m, TriList& l) {
				int t1, t2, a, b; shared_edge(l, t1, t2, a, b, last);
				V mid = (l.v[a] + l.v[b]) * 0.5; int s = l.addv(mid.x, mid.y, mid.z); m.add_vertex(P(mid));
				int c = l.t[t1][0] + l.t[t1][1] + l.t[t1][2] - a - b, d = l.t[t2][0] + l.t[t2][1] + l.t[t2][2] - a - b;
				m.split_edge_with_vertex(t1, t2, a, b, s); l.removed[t1] = l.removed[t2] = true;
				return expect_new(m, l, { {a,s,c},{s,b,c},{b,s,d},{s,a,d} }); } });
	for (int k = 0; k < 3; k++)
		r.push_back({ S() << "add_mesh(other " << k << ")", any, [=](Mesh& m, TriList& l) { static Mesh o[3]; static bool done[3]; if (!done[k]) { build_into(other(k), o[k]); done[k] = true; } m.add_mesh(o[k]); l.append(other(k)); return ""; } });
	r.push_back({ "set_color(0xabcdef)", any, [=](Mesh& m, TriList& l) { m.set_color(0xabcdef); l.color = 0xabcdef; return ""; } });
	r.push_back({ "apply_transform(translation)", any, [=](Mesh& m, TriList& l) { m.apply_transform(Translation(Point3(1, -2, 0.5))); for (auto& p : l.v) p = { p.x + 1,p.y - 2,p.z + 0.5 }; return ""; } });
	r.push_back({ "clear", any, [=](Mesh& m, TriList& l) { m.clear(); l.v.clear(); l.t.clear(); l.removed.clear(); return ""; } });
	return r;
}

std::string compare(const Mesh& m, const TriList& l)
{
	if (m.empty() != l.t.empty()) return S() << "empty() is " << m.empty() << " with " << l.t.size() << " triangles";
	std::string d = diff(snapshot(m), l);
	if (!d.empty()) return "mesh vs list: " + d;
	for (size_t i = 0; i < l.t.size(); i++) { // the other getters agree
		Tri q; m.get_triangle_vertices((int)i, q[0], q[1], q[2]);
		Triangle3 t; m.get_triangle((int)i, t); Point3 a, b, c; m.get_triangle_vertices((int)i, a, b, c);
		Point3 e[3] = { P(l.v[q[0]]),P(l.v[q[1]]),P(l.v[q[2]]) };
		if (!same(a, e[0]) || !same(b, e[1]) || !same(c, e[2])) return S() << "corner points of triangle " << i;
		if (!same(t.p1(), e[0]) || !same(t.p2(), e[1]) || !same(t.p3(), e[2])) return S() << "geometric triangle " << i;
	}
	return "";
}
TriList start(int k)
{
	TriList l;
	if (k == 0) return l;
	l.addv(0, 0, 0); l.addv(2, 0, 0); l.addv(0, 2, 0); l.addv(0, 0, 2); // tetrahedron
	l.addt(0, 2, 1); l.addt(0, 1, 3); l.addt(1, 2, 3); l.addt(2, 0, 3);
	if (k == 2) { l.removed[1] = true; l.color = 5; l.addv(4, 4, 4); }
	return l;
}
}

void run(mc::Ctx& c)
{
	std::vector<Op> o = ops();
	int depth[3] = { c.bound(4,5), c.bound(4,4), c.bound(3,4) };
	for (int st = 0; st < 3; st++) {
		c.section(st == 0 ? "histories-from-empty" : st == 1 ? "histories-from-tetrahedron" : "histories-from-mesh-with-removed-triangle",
			S() << "every sequence of " << depth[st] << " edits over " << o.size() << " edits, compared after each edit");
		sequences((int)o.size(), depth[st], [&](const std::vector<int>& s) {
			c.test([=, &o] { S d; d << "start " << dump(start(st)) << "\n"; for (int i : s) d << o[i].name << "; "; return d.str(); },
				[&] {
					TriList l = start(st); Mesh m; build_into(l, m);
					for (int i : s) {
						if (!o[i].ok(l)) return; // not applicable: the prefix was checked
						std::string e = o[i].run(m, l);
						c.step();
						if (e.empty()) e = compare(m, l);
						if (!e.empty()) { c.fail("edit:" + o[i].name.substr(0, o[i].name.find('(')), e); return; }
						c.state(l.hash());
					}
				});
		});
	}
	// coordinates are stored exactly, whatever their magnitude and however close the old and the new one are
	std::vector<double> pal = { 0.,-0.,1,1 + 1e-7,1 + 1e-10,1 - 1e-15,-1,0.1,1e-5,1e-9,1e-15,1e-100,5e-324,1e7,1e7 + 1e-3,123456789.123456789,1e100,1.7976931348623157e308,-1e300 };
	c.section("coordinate values", "every ordered pair (old, new) of a palette of magnitudes on every axis: adding, moving, appending, splitting keep each coordinate exactly");
	for (double a : pal) for (double b : pal) for (int ax = 0; ax < 3; ax++)
		c.test([=] { return (S() << "vertex coordinate " << ax << " " << a << " becomes " << b).str(); }, [&, a, b, ax] {
			auto pt = [&](double q) { V p{ 1,2,3 }; (ax == 0 ? p.x : ax == 1 ? p.y : p.z) = q; return p; };
			Mesh m; TriList l; V A = pt(a), B = pt(b);
			m.add_vertex(P(A)); l.addv(A.x, A.y, A.z); m.add_vertex(A.x, A.y, A.z); l.addv(A.x, A.y, A.z);
			m.add_triangle(P(A), P(B), Point3(5, 5, 5)); { int i = l.addv(A.x, A.y, A.z); l.addv(B.x, B.y, B.z); l.addv(5, 5, 5); l.addt(i, i + 1, i + 2); }
			m.set_vertex(0, P(B)); l.v[0] = B; c.step(4); std::string e = compare(m, l);
			if (e.empty()) { m.set_vertex(2, P(B)); l.v[2] = B; e = compare(m, l); }
			if (e.empty()) { m.split_triangle_with_vertex(0, P(A)); int s = l.addv(A.x, A.y, A.z); l.removed[0] = true; e = expect_new(m, l, { {2,3,s},{3,4,s},{4,2,s} }); if (e.empty()) e = compare(m, l); }
			if (e.empty()) { Mesh o; o.add_vertex(P(B)); TriList q; q.addv(B.x, B.y, B.z); m.add_mesh(o); l.append(q); e = compare(m, l); }
			MC_CHECK(c, e.empty(), "coordinate", e); c.obs(a); c.obs(b); c.obs(ax);
		});
	c.section("equal points", "point triangles and point quads over every equality pattern of their corners (also equal to vertices already there), both diagonal choices, after none, one or two of the same: each call adds its own vertices");
	sequences(5, 4, [&](const std::vector<int>& q) { for (int opt = 0; opt < 2; opt++) for (int pre = 0; pre < 3; pre++) c.test([&] { S s; s << "corners"; for (int k : q) s << " " << k; s << " diagonal choice " << opt << " after " << pre; return s.str(); }, [&] {
		static const V PT[5] = { {0,0,0},{2,0,0},{2,2,0.5},{0,2,0},{-1,0.5,3} }; Mesh m; TriList l; std::string e; V p[4]; for (int k = 0; k < 4; k++) p[k] = PT[q[k]];
		auto tri = [&](int a, int b, int d) { int n = l.addv(p[a].x, p[a].y, p[a].z); l.addv(p[b].x, p[b].y, p[b].z); l.addv(p[d].x, p[d].y, p[d].z); int w = l.addt(n, n + 1, n + 2), r = m.add_triangle(P(p[a]), P(p[b]), P(p[d])); if (r != w) e = "triangle index"; };
		auto quad = [&] { int n = (int)l.v.size(); for (auto& x : p) l.addv(x.x, x.y, x.z); m.add_quad(P(p[0]), P(p[1]), P(p[2]), P(p[3]), opt); double s13 = area(p[0], p[1], p[2]) + area(p[2], p[3], p[0]), s24 = area(p[1], p[2], p[3]) + area(p[3], p[0], p[1]);
			Tri t; if (m.nb_triangles() != (int)l.t.size() + 2) { e = "triangle count"; return; } m.get_triangle_vertices((int)l.t.size(), t[0], t[1], t[2]); bool first = same_tri(t, { n,n + 1,n + 2 }) || same_tri(t, { n + 2,n + 3,n }); if (!opt && !first) { e = "the given diagonal is not used"; return; }
			if (opt && std::fabs(s13 - s24) > 1e-9 && first != (s13 < s24)) { e = "the larger diagonal is used"; return; } e = first ? expect_new(m, l, { {n,n + 1,n + 2},{n + 2,n + 3,n} }) : expect_new(m, l, { {n + 1,n + 2,n + 3},{n + 3,n,n + 1} }); };
		for (int k = 0; k <= pre && e.empty(); k++) { tri(0, 1, 2); if (e.empty()) quad(); if (e.empty()) tri(3, 1, 0); if (e.empty()) e = compare(m, l); c.step(3); }
		MC_CHECK(c, e.empty(), "equal-points", e); c.obs((int)l.hash()); }); });
	c.section("index tuples", "triangles, quads and pentagons given by every tuple of indices over a few vertices, repeats included, then every one of them flipped, split and removed, also when it was removed before");
	for (int kind = 3; kind <= 5; kind++) sequences(kind == 5 ? c.bound(4, 5) : 5, kind, [&, kind](const std::vector<int>& q) { for (int pre = 0; pre < 2; pre++) c.test([&, kind] { S s; s << (kind == 3 ? "triangle" : kind == 4 ? "quad" : "pentagon") << " over"; for (int k : q) s << " " << k; s << (pre ? " after another" : ""); return s.str(); }, [&, kind] {
		Mesh m; TriList l; std::string e; static const V PT[5] = { {0,0,0},{2,0,0},{2,2,0.5},{0,2,0},{-1,0.5,3} }; for (auto& p : PT) { m.add_vertex(P(p)); l.addv(p.x, p.y, p.z); } if (pre) { m.add_triangle(0, 1, 2); l.addt(0, 1, 2); }
		if (kind == 3) { int r = m.add_triangle(q[0], q[1], q[2]), w = l.addt(q[0], q[1], q[2]); if (r != w) e = "triangle index"; }
		if (kind == 4) { m.add_quad(q[0], q[1], q[2], q[3]); e = expect_new(m, l, { {q[0],q[1],q[2]},{q[2],q[3],q[0]} }); }
		if (kind == 5) { m.add_pentagon(q[0], q[1], q[2], q[3], q[4]); e = expect_new(m, l, { {q[0],q[1],q[2]},{q[2],q[3],q[4]},{q[0],q[2],q[4]} }); }
		if (e.empty()) e = compare(m, l); c.step(); int n = (int)l.t.size();
		for (int i = 0; i < 2 * n && e.empty(); i++) { int t = i % n; Tri x = l.t[t]; if ((t + i / n) % 2 == 0) { m.flip_triangle(t); l.removed[t] = true; e = expect_new(m, l, { {x[0],x[2],x[1]} }); } else { int s = l.addv(1, 1, 1 + t); m.split_triangle_with_vertex(t, Point3(1, 1, 1 + t)); l.removed[t] = true; e = expect_new(m, l, { {x[0],x[1],s},{x[1],x[2],s},{x[2],x[0],s} }); } if (e.empty()) e = compare(m, l); c.step(); }
		if (e.empty() && (int)l.t.size() > n) { m.unlink_triangle(n); l.removed[n] = true; e = compare(m, l); }
		MC_CHECK(c, e.empty(), "index-tuples", e); c.obs((int)l.hash()); }); });
	c.section("quad magnitudes", "quads over every four distinct of six points, both diagonal choices, at every fourth power of two of size from 2^-120 to 2^120 and moved aside: the shorter surface is chosen whatever the size");
	for (int e = -120; e <= 120; e += 4) for (int off = 0; off < 2; off++) sequences(6, 4, [&, e, off](const std::vector<int>& q) { if (std::set<int>(q.begin(), q.end()).size() < 4) return; c.test([&, e, off] { S s; s << "corners"; for (int k : q) s << " " << k; s << " times 2^" << e << (off ? " moved" : ""); return s.str(); }, [&, e, off] {
		static const V PT[6] = { {0,0,0},{2,0,0},{2,2,0.5},{0,2,0},{-1,0.5,3},{1,-3,-1} }; double f = std::ldexp(1., e); V p[4]; for (int k = 0; k < 4; k++) p[k] = (PT[q[k]] + V{ off * 3.,off * -5.,off * 4. }) * f; std::string er;
		for (int opt = 0; opt < 2 && er.empty(); opt++) { Mesh m; TriList l; for (auto& x : p) l.addv(x.x, x.y, x.z); m.add_quad(P(p[0]), P(p[1]), P(p[2]), P(p[3]), opt); c.step(); double s13 = area(p[0], p[1], p[2]) + area(p[2], p[3], p[0]), s24 = area(p[1], p[2], p[3]) + area(p[3], p[0], p[1]);
			if (m.nb_triangles() != 2) { er = "triangle count"; break; } Tri t; m.get_triangle_vertices(0, t[0], t[1], t[2]); bool first = same_tri(t, { 0,1,2 }) || same_tri(t, { 2,3,0 }); if (!opt && !first) er = "the given diagonal is not used"; else if (opt && std::fabs(s13 - s24) > 1e-9 * (s13 + s24) && first != (s13 < s24)) er = "the larger diagonal is used";
			if (er.empty()) er = first ? expect_new(m, l, { {0,1,2},{2,3,0} }) : expect_new(m, l, { {1,2,3},{3,0,1} }); if (er.empty()) er = compare(m, l); }
		MC_CHECK(c, er.empty(), "quad-magnitude", er); c.obs(e); for (int k : q) c.obs(k); }); });
	// sizes: nothing may depend on how many vertices and triangles there are
	std::vector<int> sizes; for (int i = 3; i <= 40; i++) sizes.push_back(i);
	for (int k = 6; k <= c.bound(16, 18); k++) for (int d = -1; d <= 1; d++) sizes.push_back((1 << k) + d);
	c.section("sizes", S() << "meshes of " << sizes.size() << " sizes up to " << sizes.back() << " vertices (every size up to 40, every power of two and its neighbours), edited at both ends and in the middle");
	for (int n : sizes) for (int shape = 0; shape < 3; shape++)
		c.test([=] { return (S() << n << " vertices, " << (shape == 0 ? "a strip of triangles" : shape == 1 ? "three times as many triangles" : "a fan of few triangles using the last vertices")).str(); }, [&, n, shape] {
			Mesh m; TriList l; std::string e;
			for (int i = 0; i < n; i++) { m.add_vertex(i, i % 7, i % 5); l.addv(i, i % 7, i % 5); }
			int nt = shape == 0 ? n - 2 : shape == 1 ? 3 * n : 5;
			for (int i = 0; i < nt; i++) { int a = shape == 2 ? n - 1 : i % n, b = shape == 2 ? i % n : (i + 1) % n, d = shape == 2 ? n / 2 : (i + 2) % n; int r = m.add_triangle(a, b, d), w = l.addt(a, b, d); if (r != w) { c.fail("sizes", S() << "add_triangle returned " << r << " for index " << w); return; } }
			auto both = [&](int i) { m.unlink_triangle(i); l.removed[i] = true; };
			both(0); both(nt - 1); both(nt / 2); for (int i = 5; i < nt; i += 97) both(i);
			for (int i : std::initializer_list<int>{ 0,n / 3,n - 1 }) { m.set_vertex(i, Point3(-i, 1, 2)); l.v[i] = { -(double)i,1,2 }; }
			c.step(n + nt); e = compare(m, l);
			if (e.empty()) { int t = last_live(l); if (t >= 0) { Tri q = l.t[t]; m.flip_triangle(t); l.removed[t] = true; e = expect_new(m, l, { {q[0],q[2],q[1]} }); } }
			if (e.empty()) { int t = first_live(l); if (t >= 0) { Tri q = l.t[t]; int s = l.addv(0.5, 0.25, 9); m.split_triangle_with_vertex(t, Point3(0.5, 0.25, 9)); l.removed[t] = true; e = expect_new(m, l, { {q[0],q[1],s},{q[1],q[2],s},{q[2],q[0],s} }); } }
			if (e.empty()) e = compare(m, l);
			if (e.empty()) { Mesh o; TriList q; for (int i = 0; i < 300; i++) { o.add_vertex(i, 1, i); q.addv(i, 1, i); } for (int i = 0; i < 299; i++) { o.add_triangle(i, i + 1, 0); q.addt(i, i + 1, 0); } o.unlink_triangle(298); q.removed[298] = true; m.add_mesh(o); l.append(q); e = compare(m, l); }
			if (e.empty()) { Mesh k; k.add_mesh(m); TriList q; q.append(l); q.color = l.color; e = compare(k, q); if (!e.empty()) e = "appended to a fresh mesh: " + e; }
			if (e.empty()) { m.clear(); l.v.clear(); l.t.clear(); l.removed.clear(); e = compare(m, l); }
			MC_CHECK(c, e.empty(), "sizes", e); c.obs(n); c.obs(shape);
		});
}
