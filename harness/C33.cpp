// C33: every mesh kernel in lockstep with a plain list, over every operation sequence up to a depth.
#include "common.hpp"
#include "MeshKernelTIN.h"
#include "MeshKernelLinkedTriangles.h"
#include "MeshKernelHalfEdge.h"
#include <memory>
namespace {
struct Op { const char* name; int kind, a, b, d; }; // indices: >=0 absolute, -1 last, -2 last but one
const Op OPS[] = {
	{"add_vertex A",0,0,0,0},{"add_vertex B",0,1,0,0},{"set_vertex first",1,0,0,0},{"set_vertex last",1,-1,0,0},{"add_triangle 0,1,2",2,0,1,2},{"add_triangle last,0,last-1",2,-1,0,-2},{"add_triangle 2,1,0",2,2,1,0},{"add_triangle 0,0,last",2,0,0,-1},
	{"unlink first",3,0,0,0},{"unlink last",3,-1,0,0},{"clear",4,0,0,0} };
const int NOPS = 11;
int at(int i, int n) { return i >= 0 ? (i < n ? i : -1) : n + i; }
std::string compare(MeshKernel& k, const TriList& m)
{
	if (k.nb_vertices() != (int)m.v.size()) return S() << "nb_vertices " << k.nb_vertices() << " instead of " << m.v.size();
	if (k.nb_triangles() != (int)m.t.size()) return S() << "nb_triangles " << k.nb_triangles() << " instead of " << m.t.size();
	for (int i = 0; i < (int)m.v.size(); i++) { Point3 p(99, 99, 99); k.get_vertex(i, p); if (!same(p, P(m.v[i]))) return S() << "vertex " << i << " is " << str(p) << " instead of " << str(m.v[i]); }
	for (int i = 0; i < (int)m.t.size(); i++) {
		Tri t = { -9,-9,-9 }; k.get_triangle_vertices(i, t[0], t[1], t[2]); if (!same_tri(t, m.t[i])) return S() << "triangle " << i << " is " << t[0] << "," << t[1] << "," << t[2];
		if (k.is_triangle_unlinked(i) != m.removed[i]) return S() << "removed-flag of triangle " << i << " is " << !m.removed[i];
	}
	return "";
}
// false when the operation does not apply
bool apply(mc::Ctx& c, MeshKernel& k, TriList& m, const Op& o, int stamp, const std::string& name)
{
	int nv = (int)m.v.size(), nt = (int)m.t.size();
	V p = { stamp * 1.5 + o.a,o.a - stamp * 0.25,(double)(stamp * stamp) }; int r;
	switch (o.kind) {
	case 0: r = k.add_vertex(P(p)); m.v.push_back(p); MC_CHECK(c, r == nv, name + "-vertex-index", "add_vertex returned " << r << " instead of " << nv); break;
	case 1: { int i = at(o.a, nv); if (i < 0) return false; k.set_vertex(i, P(p)); m.v[i] = p; break; }
	case 2: { int a = at(o.a, nv), b = at(o.b, nv), d = at(o.d, nv); if (a < 0 || b < 0 || d < 0) return false; r = k.add_triangle(a, b, d); m.addt(a, b, d); MC_CHECK(c, r == nt, name + "-triangle-index", "add_triangle returned " << r << " instead of " << nt); break; }
	case 3: { int i = at(o.a, nt); if (i < 0) return false; k.unlink_triangle(i); m.removed[i] = true; break; }
	default: k.clear(); m = TriList(); }
	c.step(); return true;
}
MeshKernel* make(int k) { if (k == 0) return new MeshKernelLinkedTriangles; if (k == 1) return new MeshKernelTIN; return new MeshKernelHalfEdge; }
const char* NAME[] = { "linked","tin","halfedge" };
}
void run(mc::Ctx& c)
{
	// start states so that the short sequences already meet triangles
	for (int start = 0; start < 2; start++) {
		c.section(start ? "from two triangles" : "from empty", "every operation sequence up to the depth on the linked-triangles and TIN kernels, compared with the list after each operation");
		int depth = c.bound(start ? 5 : 6, start ? 6 : 7);
		sequences(NOPS, depth, [&](const std::vector<int>& s) {
			if (start == 0 && OPS[s[0]].kind != 0) return; // nothing else applies to an empty kernel
			c.test([&] { S o; for (int i : s) o << OPS[i].name << "; "; return o.str(); }, [&] {
				for (int k = 0; k < 2; k++) {
					std::unique_ptr<MeshKernel> m(make(k)); TriList l; int stamp = 1;
					if (start) { for (int i = 0; i < 4; i++) apply(c, *m, l, OPS[i & 1], stamp++, NAME[k]); apply(c, *m, l, OPS[4], stamp, NAME[k]); apply(c, *m, l, OPS[5], stamp, NAME[k]); }
					for (int i : s) { if (!apply(c, *m, l, OPS[i], stamp++, NAME[k])) continue; std::string d = compare(*m, l); if (d != "") { c.fail(S() << NAME[k] << "-differs", S() << NAME[k] << " kernel after " << OPS[i].name << ": " << d); return; } }
					if (k == 0) c.obs(l.hash());
				}
			});
		});
	}
	c.section("half-edge vertices", "every sequence of vertex operations and clear on the half-edge kernel");
	const int VO[] = { 0,1,2,3,10 };
	sequences(5, c.bound(6, 8), [&](const std::vector<int>& s) { c.test([&] { S o; for (int i : s) o << OPS[VO[i]].name << "; "; return o.str(); }, [&] {
		std::unique_ptr<MeshKernel> m(make(2)); TriList l; int stamp = 1; for (int i : s) { apply(c, *m, l, OPS[VO[i]], stamp++, NAME[2]); std::string d = compare(*m, l); if (d != "") { c.fail("halfedge-vertices-differ", d); return; } } c.obs(l.hash());
	}); });
	c.section("half-edge triangles", "one triangle added to the half-edge kernel (all longer histories go through this step)");
	c.test([&] { return std::string("three vertices, add_triangle 0,1,2"); }, [&] {
		MeshKernelHalfEdge k; for (int i = 0; i < 3; i++) k.add_vertex(Point3(i, i * i, 1)); int r = k.add_triangle(0, 1, 2); c.step(4);
		if (r != 0 || k.nb_triangles() != 1) { c.fail("halfedge-add_triangle", S() << "MeshKernelHalfEdge::add_triangle returned " << r << " and the kernel has " << k.nb_triangles() << " triangles"); return; }
		// once it stores triangles: everything in lockstep
		sequences(NOPS, c.bound(4, 6), [&](const std::vector<int>& s) {
			if (c.failed_current()) return; std::unique_ptr<MeshKernel> m(make(2)); TriList l; int stamp = 1;
			for (int i = 0; i < 4; i++) apply(c, *m, l, OPS[i & 1], stamp++, NAME[2]); apply(c, *m, l, OPS[4], stamp, NAME[2]);
			for (int i : s) { if (OPS[i].kind == 2 && OPS[i].b == 0 && OPS[i].a == 0) continue; if (!apply(c, *m, l, OPS[i], stamp++, NAME[2])) continue; std::string d = compare(*m, l); if (d != "") { S q; for (int j : s) q << OPS[j].name << "; "; c.fail("halfedge-differs", q.str() + ": " + d); return; } }
		});
	});
	c.section("sizes", "numbers of vertices and triangles beside every power of two, edited at both ends and in the middle, cleared and filled again with another number, on the linked-triangles and TIN kernels");
	for (int k = 0; k < 2; k++) for (int n : ladder(1, c.bound(65536, 1 << 19))) for (int part = 0; part < 3; part++) c.test([&] { return (S() << NAME[k] << ", " << n << (part == 0 ? " vertices and as many triangles" : part == 1 ? " vertices in triangles that join the ends" : " triangles on three vertices")).str(); }, [&] {
		std::unique_ptr<MeshKernel> m(make(k)); TriList l; auto pos = [](int i, int s) { return V{ i + s * 0.5,(double)(i % 1009) - s,i * -0.25 }; };
		auto fill = [&](int nv, int nt, int s) {
			for (int i = 0; i < nv; i++) { V p = pos(i, s); int r = m->add_vertex(P(p)); l.v.push_back(p); if (r != i) { c.fail(S() << NAME[k] << "-vertex-index", S() << "add_vertex returned " << r << " instead of " << i); return false; } }
			for (int i = 0; i < nt; i++) { Tri t = { i % nv,part == 1 ? nv - 1 - i % nv : (i + 1) % nv,(i / 2 + nv / 2) % nv }; int r = m->add_triangle(t[0], t[1], t[2]); l.addt(t[0], t[1], t[2]); if (r != i) { c.fail(S() << NAME[k] << "-triangle-index", S() << "add_triangle returned " << r << " instead of " << i); return false; } }
			return true;
		};
		auto equal = [&](const char* when) { std::string d = compare(*m, l); if (d != "") c.fail(S() << NAME[k] << "-size", S() << NAME[k] << " kernel " << when << ": " << d); return d == ""; };
		int nv = part == 2 ? 3 : n, nt = n; if (!fill(nv, nt, 0)) return; c.step(nv + nt); if (!equal("after filling")) return; c.obs(l.hash());
		for (int i : std::set<int>{ 0,nt / 3,nt / 2,nt - 1 }) { m->unlink_triangle(i); l.removed[i] = true; c.step(); } for (int i : std::set<int>{ 0,nv / 3,nv - 1 }) { V p = pos(-i - 7, 3); m->set_vertex(i, P(p)); l.v[i] = p; c.step(); } if (!equal("after removing triangles and moving vertices")) return; c.obs(l.hash());
		int r = m->add_triangle(nv - 1, 0, nv / 2); MC_CHECK(c, r == nt, S() << NAME[k] << "-triangle-index", "add_triangle returned " << r << " after removals"); l.addt(nv - 1, 0, nv / 2); r = m->add_vertex(Point3(1, 2, 3)); MC_CHECK(c, r == nv, S() << NAME[k] << "-vertex-index", "add_vertex returned " << r); l.v.push_back({ 1,2,3 }); if (!equal("after adding again")) return;
		m->clear(); l = TriList(); if (!equal("after clear")) return; int n2 = std::max(1, part == 0 ? n / 2 : n + 1); if (!fill(part == 2 ? 3 : n2, n2, 1)) return; c.step(n2); if (equal("after filling again")) c.obs(l.hash());
	});
	c.section("values", "vertices with coordinates of every power of two, both signs, and their neighbours, moved over one another on every kernel");
	for (int k = 0; k < 3; k++) for (int e = -1022; e <= 1023; e += (std::abs(e) < 60 ? 1 : 31)) for (int ax = 0; ax < 3; ax++) c.test([&] { return (S() << NAME[k] << " 2^" << e << " on axis " << ax).str(); }, [&] {
		std::unique_ptr<MeshKernel> m(make(k)); TriList l; double b = std::ldexp(1., e); for (double d : { b,-b,std::nextafter(b, 0.),std::nextafter(b, 1e308),0.,-0.,std::nextafter(-b, 0.) }) { double p[3] = { 1,-2,3 }; p[ax] = d; int r = m->add_vertex(Point3(p[0], p[1], p[2])); MC_CHECK(c, r == (int)l.v.size(), S() << NAME[k] << "-vertex-index", "add_vertex returned " << r); l.v.push_back({ p[0],p[1],p[2] }); c.step(); }
		std::string d = compare(*m, l); if (d != "") { c.fail(S() << NAME[k] << "-value", d); return; }
		for (int i = 0; i < (int)l.v.size(); i++) { V q = l.v[(i + 3) % l.v.size()]; m->set_vertex(i, P(q)); l.v[i] = q; c.step(); d = compare(*m, l); if (d != "") { c.fail(S() << NAME[k] << "-value", d); return; } } c.obs(l.hash());
	});
	c.section("several kernels", "every pair of short histories on two kernels of one kind, alternating: neither sees the other");
	for (int k = 0; k < 2; k++) sequences(NOPS * 2, c.bound(3, 4), [&](const std::vector<int>& s) { c.test([&] { S o; o << NAME[k] << ": "; for (int i : s) o << (i < NOPS ? "first " : "second ") << OPS[i % NOPS].name << "; "; return o.str(); }, [&] {
		std::unique_ptr<MeshKernel> m[2] = { std::unique_ptr<MeshKernel>(make(k)),std::unique_ptr<MeshKernel>(make(k)) }; TriList l[2]; int stamp = 1;
		for (int q = 0; q < 2; q++) { for (int i = 0; i < 3; i++) apply(c, *m[q], l[q], OPS[i & 1], stamp++, NAME[k]); apply(c, *m[q], l[q], OPS[4 + 2 * q], stamp, NAME[k]); }
		for (int i : s) { int q = i / NOPS; if (!apply(c, *m[q], l[q], OPS[i % NOPS], stamp++, NAME[k])) continue; for (int j = 0; j < 2; j++) { std::string d = compare(*m[j], l[j]); if (d != "") { c.fail(S() << NAME[k] << "-crosstalk", S() << (j ? "second" : "first") << " kernel after " << OPS[i % NOPS].name << " on the " << (q ? "second" : "first") << ": " << d); return; } } }
		c.obs(mc::mix(l[0].hash(), l[1].hash()));
	}); });
}
