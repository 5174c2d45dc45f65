// C02: value semantics and lifetime, every create/copy/assign/append/edit/clear history over a few objects.
#include <cstddef>
#include <cstdlib>
#include <new>
static long g_live = 0; // bytes currently allocated through operator new
static void* galloc(std::size_t n)
{
	std::size_t* p = (std::size_t*)std::malloc(n + 16);
	if (!p) throw std::bad_alloc();
	*p = n; g_live += (long)n;
	return (char*)p + 16;
}
static void gfree(void* q)
{
	if (!q) return;
	std::size_t* p = (std::size_t*)((char*)q - 16);
	g_live -= (long)*p; std::free(p);
}
void* operator new(std::size_t n) { return galloc(n); }
void* operator new[](std::size_t n) { return galloc(n); }
void operator delete(void* p) noexcept { gfree(p); }
void operator delete[](void* p) noexcept { gfree(p); }
void operator delete(void* p, std::size_t) noexcept { gfree(p); }
void operator delete[](void* p, std::size_t) noexcept { gfree(p); }

#include "common.hpp"
#include "Transform.h"
#include "Face.h"
#include "Solid.h"
#include "SmoothMesh.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "Image.h"
#include "MeshFactory.h"
#include <memory>
#include <list>

namespace {
typedef std::vector<double> Obs;
void put(Obs& o, const Point3& p) { o.push_back(p.x()); o.push_back(p.y()); o.push_back(p.z()); }
void put(Obs& o, const Mesh& m)
{
	TriList l = snapshot(m);
	o.push_back(l.color); o.push_back((double)l.v.size()); for (auto& p : l.v) put(o, P(p));
	o.push_back((double)l.t.size());
	for (size_t i = 0; i < l.t.size(); i++) { o.push_back(l.removed[i]); Tri t = canon(l.t[i]); for (int k : t) o.push_back(k); }
	o.push_back(m.empty());
}
void put(Obs& o, const std::vector<double>& v) { o.push_back((double)v.size()); for (double d : v) o.push_back(d); }
void put(Obs& o, const std::vector<Point3>& v) { o.push_back((double)v.size()); for (auto& p : v) put(o, p); }

// Every type: edit(x, e, k) is edit number e with a value k that makes its content recognisable.
struct TMesh {
	typedef Mesh T; static const bool append = true, clr = true; static const int edits = 5;
	static const char* name() { return "Mesh"; }
	static void edit(T& m, int e, int k)
	{
		if (e == 0) { m.add_triangle(Point3(k, 0, 1), Point3(k, 1, 2), Point3(k, 2, 0.5)); m.set_color(k); }
		else if (e == 1) { m.add_triangle(Point3(k, 5, 1), Point3(k, 6, 2), Point3(k, 7, 0.5)); m.add_triangle(m.nb_vertices() - 1, 0, m.nb_vertices() - 2); m.unlink_triangle(m.nb_triangles() - 2); }
		else if (e == 2) { if (m.nb_vertices() > 0) m.set_vertex(m.nb_vertices() - 1, Point3(-k, -k, k)); }
		else if (e == 3) m.add_vertex(k, -1, k);
		else m.set_color(k * 1000);
	}
	static void add(T& a, const T& b) { a.add_mesh(b); }
	static void observe(const T& x, Obs& o) { put(o, x); }
};
struct TSmooth {
	typedef SmoothMesh T; static const bool append = true, clr = true; static const int edits = 2;
	static const char* name() { return "SmoothMesh"; }
	static void edit(T& m, int e, int k)
	{
		if (e == 0) m.add_flat_triangle(Point3(k, 0, 1), Point3(k, 1, 2), Point3(k, 2, 0.5));
		else { QuadBezierTriangle q; q.set_points(Point3(k, 0, 0), Point3(0, k, 0), Point3(0, 0, k)); q.set_control_points(Point3(k, k, 0), Point3(k, 0, k), Point3(0, k, k)); q.set_weights(1, 2, k, 1, 1, 3); m.add_triangle(q); }
	}
	static void add(T& a, const T& b) { a.add_mesh(b); }
	static void observe(const T& x, Obs& o)
	{
		o.push_back(x.nb_triangles());
		for (int i = 0; i < x.nb_triangles(); i++) for (int s = 0; s <= 2; s++) for (int u = 0; u <= 2 - s; u++) put(o, x.triangle(i).eval(s / 2., u / 2.));
	}
};
template<class F> struct TMeshHolder {
	typedef F T; static const bool append = false, clr = false; static const int edits = 4;
	static const char* name() { return "holder"; }
	static void edit(T& f, int e, int k)
	{
		TMesh::edit(f.mesh(), e == 1 ? 1 : e == 3 ? 3 : 0, k); if (e == 2) { extra(f, k); }
	}
	static void extra(Face& f, int k) { f.set_color(k); }
	static void extra(Solid& s, int k) { Face f; f.mesh().add_triangle(Point3(k, 0, 0), Point3(0, k, 0), Point3(0, 0, k)); s.add_face(f); }
	static void add(T&, const T&) {}
	static void observe(const T& x, Obs& o) { put(o, const_cast<T&>(x).mesh()); }
};
struct TCurve {
	typedef NurbsCurve T; static const bool append = false, clr = true; static const int edits = 3;
	static const char* name() { return "NurbsCurve"; }
	static void edit(T& n, int e, int k)
	{
		if (e == 0) { n.set_degree(2); n.set_points({ Point3(k,0,0),Point3(0,k,1),Point3(1,1,k),Point3(k,k,k) }); n.set_uniform(); n.set_weights({ 1,2.,k + 1.,1 }); }
		else if (e == 1) { n.set_degree(1); n.set_points({ Point3(k,0,0),Point3(0,k,1) }); n.set_uniform(); n.set_equals_weights(); }
		else if (n.nb_points() > 0) { n.points()[0] = Point3(k, -k, k); if (n.nb_points() < 9) n.insert_knot(0.3); }
	}
	static void add(T&, const T&) {}
	static void observe(const T& x, Obs& o)
	{
		o.push_back(x.degree()); put(o, x.knots()); put(o, x.weights()); put(o, x.points()); o.push_back(x.nb_points());
		if (x.nb_points() > 0) { o.push_back(x.is_closed()); for (int i = 0; i <= 4; i++) { Point3 p; x.evaluate(i / 4., p); put(o, p); } }
	}
};
struct TSurf {
	typedef NurbsSurface T; static const bool append = false, clr = true; static const int edits = 3;
	static const char* name() { return "NurbsSurface"; }
	static void edit(T& n, int e, int k)
	{
		if (e == 0) { n.set_degree(2, 1); std::vector<Point3> p; std::vector<double> w; for (int i = 0; i < 6; i++) { p.push_back(Point3(i % 3, i / 3, k * i)); w.push_back(1 + i % 2 * k); } n.set_points(p, 3, 2); n.set_uniform_u(); n.set_uniform_v(); n.set_weights(w); n.set_closed_u(k % 2); }
		else if (e == 1) { n.set_degree(1, 1); n.set_points({ Point3(0,0,k),Point3(1,0,0),Point3(0,1,0),Point3(1,k,1) }, 2, 2); n.set_uniform_u(); n.set_uniform_v(); n.set_weights({ 1,1,1,1 }); n.set_closed_v(k % 2); }
		else if (n.nb_points_u() > 0) { n.points()[0] = Point3(k, -k, k); n.weights()[0] = 2; if (n.nb_points_u() < 6) n.insert_knot_u(0.3); }
	}
	static void add(T&, const T&) {}
	static void observe(const T& x, Obs& o)
	{
		o.push_back(x.degree_u()); o.push_back(x.degree_v()); put(o, x.knots_u()); put(o, x.knots_v()); put(o, x.weights()); put(o, x.points()); o.push_back(x.nb_points_u()); o.push_back(x.nb_points_v());
		o.push_back(x.is_closed_u()); o.push_back(x.is_closed_v());
		if (x.nb_points_u() > 0) for (int i = 0; i <= 2; i++) for (int j = 0; j <= 2; j++) { Point3 p; x.evaluate(i / 2., j / 2., p); put(o, p); }
	}
};
struct TNSolid {
	typedef NurbsSolid T; static const bool append = false, clr = true; static const int edits = 3;
	static const char* name() { return "NurbsSolid"; }
	static void edit(T& n, int e, int k)
	{
		if (e < 2) { NurbsSurface s; TSurf::edit(s, e, k); n.add_surface(s); }
		else if (!n.surfaces().empty()) { n.surfaces()[0].points()[0] = Point3(k, k, -k); if (n.surfaces().size() < 4) n.add_surface(n.surfaces()[0]); }
	}
	static void add(T&, const T&) {}
	static void observe(const T& x, Obs& o) { o.push_back((double)x.surfaces().size()); for (auto& s : x.surfaces()) TSurf::observe(s, o); }
};
struct TImage {
	typedef Image T; static const bool append = false, clr = false; static const int edits = 3;
	static const char* name() { return "Image"; }
	static void edit(T& n, int e, int k)
	{
		if (e < 2) { n.resize(e + 2, 2, e ? 3 : 1); for (int i = 0; i < n.size(); i++) n.data()[i] = (unsigned char)(k * 16 + i); }
		else if (n.size() > 0) n(n.width() - 1, n.height() - 1, n.planes() - 1) = (unsigned char)(200 + k);
	}
	static void add(T&, const T&) {}
	static void observe(const T& x, Obs& o) { o.push_back(x.width()); o.push_back(x.height()); o.push_back(x.planes()); o.push_back(x.size()); for (int j = 0; j < x.height(); j++) for (int i = 0; i < x.width(); i++) for (int p = 0; p < x.planes(); p++) o.push_back(x(i, j, p)); }
};
void clr(Mesh& m) { m.clear(); m.set_color(-1); } void clr(SmoothMesh& m) { m.clear(); } void clr(NurbsCurve& m) { m.clear(); } void clr(NurbsSurface& m) { m.clear(); }
void clr(NurbsSolid& m) { m.clear(); } template<class T> void clr(T&) {}

// a content is described by the edits that make it, replayed on a fresh object: no copy is involved
struct Content { std::vector<std::array<int, 2>> e; std::vector<std::shared_ptr<Content>> app; };
struct Node { int kind; int a, b; std::shared_ptr<std::vector<Node>> sub; };
typedef std::vector<Node> Hist;
template<class X> void rebuild(const Hist& h, typename X::T& t)
{
	for (auto& n : h) {
		if (n.kind == 0) X::edit(t, n.a, n.b);
		else { typename X::T o; rebuild<X>(*n.sub, o); X::add(t, o); }
	}
}
std::string show(const Obs& a, const Obs& b)
{
	if (a.size() != b.size()) return S() << "observations of length " << a.size() << " vs expected " << b.size();
	for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return S() << "observation " << i << ": " << a[i] << " vs expected " << b[i];
	return "";
}

template<class X> void explore(mc::Ctx& c, const char* tname, int nobj, int depth)
{
	typedef typename X::T T;
	struct Op { int kind, i, j; }; // 0 edit j, 1 assign i=j, 2 replace i by copy of j, 3 append, 4 clear, 5 by-value pass through a vector
	std::vector<Op> ops;
	for (int i = 0; i < nobj; i++) for (int e = 0; e < X::edits; e++) ops.push_back({ 0,i,e });
	for (int i = 0; i < nobj; i++) for (int j = 0; j < nobj; j++) { ops.push_back({ 1,i,j }); ops.push_back({ 2,i,j }); if (X::append) ops.push_back({ 3,i,j }); }
	if (X::clr) for (int i = 0; i < nobj; i++) ops.push_back({ 4,i,0 });
	ops.push_back({ 5,0,nobj - 1 });
	static const char* on[] = { "edit","assign","copy-construct","append","clear","store-in-vector" };
	c.section(S() << tname << "-" << nobj << "-objects", S() << "every sequence of " << depth << " operations over " << ops.size() << " operations on " << nobj << " objects");
	sequences((int)ops.size(), depth, [&](const std::vector<int>& s) {
		c.test([=] { S d; d << tname << ": "; for (int x : s) d << on[ops[x].kind] << "(" << ops[x].i << "," << ops[x].j << "); "; return d.str(); },
			[&] {
				std::string err, key; uint64_t h = 1;
				// warm-up of anything lazily allocated once per process happens in the first case
				long before = g_live;
				{
					std::vector<T*> o; std::vector<Hist> m(nobj);
					for (int i = 0; i < nobj; i++) o.push_back(new T());
					int k = 1;
					for (int x : s) {
						const Op& op = ops[x]; k++;
						if (op.kind == 0) { X::edit(*o[op.i], op.j, k); m[op.i].push_back({ 0,op.j,k,nullptr }); }
						else if (op.kind == 1) { T& r = (*o[op.i] = *o[op.j]); if (&r != o[op.i]) { err = "assignment does not return its target"; } Hist hh = m[op.j]; m[op.i] = hh; }
						else if (op.kind == 2) { T* n = new T(*o[op.j]); delete o[op.i]; o[op.i] = n; Hist hh = m[op.j]; m[op.i] = hh; }
						else if (op.kind == 3) { X::add(*o[op.i], *o[op.j]); auto sub = std::make_shared<Hist>(m[op.j]); m[op.i].push_back({ 1,0,0,sub }); }
						else if (op.kind == 4) { clr(*o[op.i]); m[op.i].clear(); }
						else { std::vector<T> vec; for (int i = 0; i < 3; i++) vec.push_back(*o[op.j]); vec.erase(vec.begin()); *o[op.i] = vec[1]; Hist hh = m[op.j]; m[op.i] = hh; }
						c.step();
						for (int i = 0; i < nobj && err.empty(); i++) {
							Obs got, want; X::observe(*o[i], got);
							T f; rebuild<X>(m[i], f); X::observe(f, want);
							err = show(got, want);
							if (!err.empty()) err = S() << "after " << on[op.kind] << "(" << op.i << "," << op.j << ") object " << i << ": " << err;
							for (double d : got) { uint64_t u; memcpy(&u, &d, 8); h = mc::mix(h, u); }
						}
						if (!err.empty()) { key = on[op.kind]; break; }
					}
					for (T* p : o) delete p;
				}
				long leak = 0; 
				{ std::string e2; e2.swap(err); leak = g_live - before - (e2.capacity() > 15 ? (long)e2.capacity() + 1 : 0) - (key.capacity() > 15 ? (long)key.capacity() + 1 : 0); err.swap(e2); }
				if (!err.empty()) c.fail(S() << "value:" << tname << ":" << key, err);
				else if (leak != 0) c.fail(S() << "leak:" << tname, S() << leak << " bytes still allocated after every object was destroyed");
				c.state(h);
			});
	});
}

// every ordered pair of contents: what the target held must not matter, nor may it share anything with the source
template<class X> void pairs(mc::Ctx& c, const char* tname, const std::vector<std::pair<std::string, std::function<void(typename X::T&)>>>& L)
{
	typedef typename X::T T;
	c.section(S() << tname << "-contents", S() << "every ordered pair of " << L.size() << " contents, many of equal counts: assign, copy-construct, then edit either object in every way");
	for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < L.size(); j++) c.test([&] { return (S() << tname << ": " << L[i].first << " = " << L[j].first).str(); }, [&] {
		long before = g_live; std::string err; uint64_t h = 1;
		{
			Obs want; { T f; L[j].second(f); X::observe(f, want); }
			auto same = [&](const T& x, const char* what) { Obs g; X::observe(x, g); if (err.empty()) { err = show(g, want); if (!err.empty()) err = std::string(what) + ": " + err; } for (double d : g) { uint64_t u; memcpy(&u, &d, 8); h = mc::mix(h, u); } };
			for (int e = 0; e < X::edits; e++) for (int who = 0; who < 2; who++) {
				T a, b; L[i].second(a); L[j].second(b); a = b; c.step(); same(a, "target"); same(b, "source"); T d(a); same(d, "copy"); a = a; same(a, "after self-assignment");
				X::edit(who ? a : b, e, 77); c.step(); same(who ? b : a, "after an edit of the other object"); same(d, "copy after an edit"); a = d; b = d; same(a, "target assigned again"); same(b, "source assigned again");
			}
		}
		long leak = g_live - before - (err.capacity() > 15 ? (long)err.capacity() + 1 : 0);
		if (!err.empty()) c.fail(S() << "value:" << tname << ":contents", err); else if (leak) c.fail(S() << "leak:" << tname, S() << leak << " bytes still allocated after every object was destroyed");
		c.state(h);
	});
}
template<class T> using Pool = std::vector<std::pair<std::string, std::function<void(T&)>>>;
Pool<Mesh> mesh_pool(bool thorough)
{
	Pool<Mesh> L; L.push_back({ "empty",[](Mesh&) {} }); L.push_back({ "empty coloured",[](Mesh& m) { m.set_color(7); } }); L.push_back({ "vertices only",[](Mesh& m) { for (int i = 0; i < 8; i++) m.add_vertex(i, 1, 2); } });
	for (int k = 0; k < 14; k++) L.push_back({ S() << "box variant " << k,[k](Mesh& m) { Mesh b; MeshFactory::create_box(1, 2, 3, b); TriList l = snapshot(b); if (k == 1) l.removed[0] = true; if (k == 2) l.removed[11] = true; if (k == 3) l.removed.assign(12, true); if (k == 4) std::swap(l.t[5][0], l.t[5][1]); if (k == 5) std::swap(l.t[0], l.t[11]); if (k == 6) std::swap(l.v[0], l.v[7]); if (k == 7) for (auto& p : l.v) p = p * 2; if (k == 8) l.v[3].z += 1e-13; if (k == 9) l.t[11][2] = 0; if (k == 10) l.v[0] = V{ 0,0,0 }; if (k == 11) l.color = 0xff; if (k == 12) { l.t[7] = l.t[8]; l.removed[7] = true; } if (k == 13) { l.addv(1, 1, 1); }
		build_into(l, m); m.set_color(k == 11 ? 0xff : -1); } });
	for (int n : { 1,2,3,4,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,1024,1025 }) { if (n > 300 && !thorough) continue; L.push_back({ S() << n << " triangles",[n](Mesh& m) { for (int i = 0; i < n; i++) m.add_triangle(Point3(i, 0, 1), Point3(i, 1, 2), Point3(n, i, 5)); if (n > 2) m.unlink_triangle(n / 2); } }); L.push_back({ S() << n << " other triangles",[n](Mesh& m) { for (int i = 0; i < 3 * n; i++) m.add_vertex(-i, n, 2); for (int i = 0; i < n; i++) m.add_triangle(i, n + i, 3 * n - 1); m.unlink_triangle(n - 1); } }); }
	return L;
}
Pool<NurbsCurve> curve_pool()
{
	Pool<NurbsCurve> L; L.push_back({ "empty",[](NurbsCurve&) {} });
	for (int k = 0; k < 9; k++) L.push_back({ S() << "curve variant " << k,[k](NurbsCurve& n) { std::vector<Point3> p = { Point3(0,0,0),Point3(1,2,0),Point3(2,0,1),Point3(3,1,1),Point3(0,4,0) }; std::vector<double> w(5, 1.); int d = 2; std::vector<double> kn = { 0,0,0,1,2,3,3,3 }; if (k == 1) w[2] = 3; if (k == 2) kn = { 0,0,0,1,1,2,2,2 }; if (k == 3) { d = 3; kn = { 0,0,0,0,1,2,2,2,2 }; } if (k == 4) p[4] = p[0]; if (k == 5) std::swap(p[1], p[3]); if (k == 6) { d = 1; kn = { 0,0,1,2,3,4,4 }; } if (k == 7) { p.resize(3); w.resize(3); kn = { 0,0,0,1,1,1 }; } if (k == 8) { w.assign(5, 2.); w[0] = 1; }
		n.set_degree(d); n.set_points(p); n.set_weights(w); n.set_knots(kn); if (k == 8) { Point3 q; n.evaluate(0.5, q); } } });
	for (int m : { 9,17,33,65 }) L.push_back({ S() << m << " points",[m](NurbsCurve& n) { std::vector<Point3> p; std::vector<double> w; for (int i = 0; i < m; i++) { p.push_back(Point3(i, i * i % 7, 0)); w.push_back(1 + i % 3); } n.set_degree(3); n.set_points(p); n.set_weights(w); n.set_uniform(); } });
	return L;
}
void surf(NurbsSurface& n, int k)
{
	int nu = 3, nv = 2, du = 2, dv = 1; if (k == 1) { nu = 2; nv = 3; du = 1; dv = 2; } if (k == 2) { nu = 6; nv = 1; } if (k == 2) { nu = 3; nv = 2; du = 1; dv = 1; } std::vector<Point3> p; std::vector<double> w; for (int i = 0; i < nu * nv; i++) { p.push_back(Point3(i % nu, i / nu, k == 3 ? 1 - i : i * i % 5)); w.push_back(k == 4 ? 1 + i : 1); }
	n.set_degree(du, dv); n.set_points(p, nu, nv); n.set_uniform_u(); n.set_uniform_v(); n.set_weights(w); if (k == 5) n.set_closed_u(true); if (k == 6) n.set_closed_v(true); if (k == 7) { n.set_closed_u(true); n.set_closed_v(true); } if (k == 8) n.insert_knot_u(0.5); if (k == 9) n.insert_knot_u(0.25); if (k == 10) n.insert_knot_v(0.5); if (k == 11) { Point3 q; n.evaluate(0.3, 0.7, q); n.points()[0] = Point3(9, 9, 9); } if (k == 12) std::swap(n.points()[0], n.points()[5]);
}
Pool<NurbsSurface> surf_pool() { Pool<NurbsSurface> L; L.push_back({ "empty",[](NurbsSurface&) {} }); for (int k = 0; k < 13; k++) L.push_back({ S() << "surface variant " << k,[k](NurbsSurface& n) { surf(n, k); } }); return L; }
Pool<NurbsSolid> nsolid_pool() { Pool<NurbsSolid> L; L.push_back({ "empty",[](NurbsSolid&) {} }); for (int k = 0; k < 13; k++) for (int m = 0; m < 3; m++) L.push_back({ S() << "solid variant " << k << " " << m,[k, m](NurbsSolid& n) { NurbsSurface a, b; surf(a, k); surf(b, 0); if (m == 0) n.add_surface(a); else { n.add_surface(m == 1 ? a : b); n.add_surface(m == 1 ? b : a); } } }); return L; }
Pool<SmoothMesh> smooth_pool(bool thorough)
{
	Pool<SmoothMesh> L; L.push_back({ "empty",[](SmoothMesh&) {} }); for (int k = 0; k < 8; k++) L.push_back({ S() << "patches variant " << k,[k](SmoothMesh& m) { for (int i = 0; i < 4; i++) { QuadBezierTriangle q; q.set_points(Point3(i, 0, 0), Point3(0, 1, 0), Point3(0, 0, 1)); if (i == 2) { if (k == 1) q.set_control_points(Point3(1, 1, 0), Point3(1, 0, 1), Point3(0, 1, 1)); if (k == 2) q.set_weights(1, 1, 2, 1, 1, 1); if (k == 3) q.set_weights(1, 1, 1, 1, 1, 2); if (k == 4) q.set_points(Point3(0, 1, 0), Point3(i, 0, 0), Point3(0, 0, 1)); } if (k == 5 && i == 3) continue; if (k == 6) q.set_points(Point3(3 - i, 0, 0), Point3(0, 1, 0), Point3(0, 0, 1)); m.add_triangle(q); } if (k == 7) m.add_flat_triangle(Point3(1, 2, 3), Point3(3, 2, 1), Point3(2, 2, 5)); } });
	for (int n : { 16,17,64,65,128,129,256,257 }) { if (n > 70 && !thorough) continue; L.push_back({ S() << n << " patches",[n](SmoothMesh& m) { for (int i = 0; i < n; i++) m.add_flat_triangle(Point3(i, 0, 1), Point3(i, 1, 2), Point3(n, i, 5)); } }); } return L;
}
Pool<Image> image_pool() { Pool<Image> L; static const int Z[][3] = { {0,0,1},{4,6,1},{6,4,1},{2,4,3},{4,2,3},{3,2,4},{24,1,1},{1,24,1},{8,1,3},{1,6,4},{1,1,1},{16,16,1},{17,16,1},{16,16,3},{300,7,1},{7,300,1} }; for (auto& z : Z) for (int k = 0; k < 2; k++) L.push_back({ S() << z[0] << "x" << z[1] << "x" << z[2] << " content " << k,[&z, k](Image& m) { m.resize(z[0], z[1], z[2]); for (int i = 0; i < m.size(); i++) m.data()[i] = (unsigned char)mc::mix(i, k); } }); return L; }
}

// an object handed a part of itself takes that part as it was
template<class X> void own_parts(mc::Ctx& c, const char* tname, const Pool<typename X::T>& L, const char* name, std::function<int(const typename X::T&)> count, std::function<void(typename X::T&, int, bool)> give)
{
	typedef typename X::T T; c.section(S() << tname << "-own-" << name, "every content, handed its own first, middle or last part, up to twelve times in a row: as when handed a copy of that part");
	for (size_t i = 0; i < L.size(); i++) for (int which = 0; which < 3; which++) for (int times : { 1,2,3,5,12 }) c.test([&, i, which, times] { return (S() << tname << " " << L[i].first << ", part " << which << " of " << name << ", " << times << " times").str(); }, [&, i, which, times] {
		T a, b; L[i].second(a); L[i].second(b); for (int k = 0; k < times; k++) { int n = count(a); if (!n) return; int part = which == 0 ? 0 : which == 1 ? n / 2 : n - 1; give(a, part, true); give(b, part, false); c.step(2); Obs oa, ob; X::observe(a, oa); X::observe(b, ob); if (oa != ob) { c.fail("own-part", S() << tname << " after being handed its own " << name << " " << part << ": " << show(oa, ob)); return; } for (double x : oa) c.obs(x); }
	});
}
// an object built from a mesh holds a copy of it
template<class T> void from_mesh(mc::Ctx& c, const char* tname)
{
	auto L = mesh_pool(c.thorough()); c.section(S() << tname << "-from-mesh", "built from every mesh of the pool, copied and assigned, then any of the meshes is edited");
	for (size_t i = 0; i < L.size(); i++) for (int who = 0; who < 4; who++) for (int e = 0; e < 5; e++) c.test([&, i, who, e] { return (S() << tname << " of " << L[i].first << ", edit " << e << " of " << (who == 0 ? "the mesh" : who == 1 ? "the object" : who == 2 ? "the copy" : "the assigned")).str(); }, [&, i, who, e] {
		Mesh m; L[i].second(m); TriList want = snapshot(m); T f(m), g(f), h; h = f; c.step(3);
		Mesh* ms[4] = { &m,&f.mesh(),&g.mesh(),&h.mesh() }; for (int k = 0; k < 4; k++) { std::string d = diff(snapshot(*ms[k]), want); MC_CHECK(c, d == "", std::string("from-mesh:") + tname, (k == 0 ? "the mesh" : k == 1 ? "the object" : k == 2 ? "the copy" : "the assigned object") << ": " << d); }
		Mesh& x = *ms[who]; if (e == 0) x.add_triangle(Point3(5, 0, 0), Point3(0, 5, 0), Point3(0, 0, 5)); if (e == 1) x.clear(); if (e == 2) x.set_color(0x345678); if (e == 3 && x.nb_triangles()) x.unlink_triangle(x.nb_triangles() / 2); if (e == 4 && x.nb_vertices()) x.set_vertex(x.nb_vertices() / 2, Point3(9, 8, 7));
		for (int k = 0; k < 4; k++) if (k != who) { std::string d = diff(snapshot(*ms[k]), want); MC_CHECK(c, d == "", std::string("from-mesh:") + tname, "after the edit, " << (k == 0 ? "the mesh" : k == 1 ? "the object" : k == 2 ? "the copy" : "the assigned object") << ": " << d); }
		c.obs((int)want.t.size()); c.obs(who * 5 + e);
	});
}

template<class X> void memory(mc::Ctx& c, const char* tname)
{
	typedef typename X::T T; c.section(S() << tname << "-memory", "objects built without arguments, as a copy of every content and of a copy, over memory filled with each of five patterns, then edited and assigned: as over cleared memory");
	for (int f : MEMORY) for (int e = -1; e < X::edits; e++) for (int e2 = -1; e2 < X::edits; e2++) c.test([=] { return (S() << tname << " over memory filled with " << f << ", content " << e << " then " << e2).str(); }, [=, &c] {
		Over<T> a(f), z(0); Obs oa, oz; X::observe(*a, oa); X::observe(*z, oz); c.step(2); if (oa != oz) { c.fail("memory-default", S() << "a default object: " << show(oa, oz)); return; }
		for (T* t : { a.p,z.p }) { if (e >= 0) X::edit(*t, e, 3); if (e2 >= 0) X::edit(*t, e2, 2); } oa.clear(); oz.clear(); X::observe(*a, oa); X::observe(*z, oz); if (oa != oz) { c.fail("memory-edited", S() << "an edited object: " << show(oa, oz)); return; }
		Over<T> b(f, *z); Over<T> d(f, *b); Obs ob, od, ob2; X::observe(*b, ob); X::observe(*d, od); c.step(2); if (ob != oz || od != oz) { c.fail("memory-copy", S() << "a copy: " << show(ob, oz) << "; its copy: " << show(od, oz)); return; }
		if (e2 >= 0) { X::edit(*b, e2, 4); X::edit(*z, e2, 4); ob.clear(); oz.clear(); X::observe(*b, ob); X::observe(*z, oz); if (ob != oz) { c.fail("memory-copy-edited", S() << "an edited copy: " << show(ob, oz)); return; } }
		Over<T> g(f); *g = *b; Obs og; X::observe(*g, og); if (og != ob) { c.fail("memory-assigned", S() << "an assigned object: " << show(og, ob)); return; } for (double x : og) c.obs(x);
	});
}
void run(mc::Ctx& c)
{
	memory<TMesh>(c, "Mesh"); memory<TSmooth>(c, "SmoothMesh"); memory<TMeshHolder<Face>>(c, "Face"); memory<TMeshHolder<Solid>>(c, "Solid"); memory<TCurve>(c, "NurbsCurve"); memory<TSurf>(c, "NurbsSurface"); memory<TNSolid>(c, "NurbsSolid"); memory<TImage>(c, "Image");
	int d = c.bound(4, 5), d3 = c.bound(3, 4);
	explore<TMesh>(c, "Mesh", 2, d - (c.thorough() ? 1 : 0));
	explore<TSmooth>(c, "SmoothMesh", 2, d);
	explore<TMeshHolder<Face>>(c, "Face", 2, d);
	explore<TMeshHolder<Solid>>(c, "Solid", 2, d);
	explore<TCurve>(c, "NurbsCurve", 2, c.bound(3, 4));
	explore<TSurf>(c, "NurbsSurface", 2, c.bound(3, 4));
	explore<TNSolid>(c, "NurbsSolid", 2, c.bound(3, 4));
	explore<TImage>(c, "Image", 2, d);
	explore<TMesh>(c, "Mesh", 3, d3);
	explore<TSmooth>(c, "SmoothMesh", 3, d3);
	explore<TMeshHolder<Face>>(c, "Face", 3, d3);
	explore<TMeshHolder<Solid>>(c, "Solid", 3, d3);
	explore<TNSolid>(c, "NurbsSolid", 3, c.bound(2, 3));
	pairs<TMesh>(c, "Mesh", mesh_pool(c.thorough())); pairs<TCurve>(c, "NurbsCurve", curve_pool()); pairs<TSurf>(c, "NurbsSurface", surf_pool()); pairs<TNSolid>(c, "NurbsSolid", nsolid_pool()); pairs<TSmooth>(c, "SmoothMesh", smooth_pool(c.thorough())); pairs<TImage>(c, "Image", image_pool());
	{ Pool<Face> F; Pool<Solid> Q; for (auto& x : mesh_pool(c.thorough())) { auto f = x.second; F.push_back({ x.first,[f](Face& g) { f(g.mesh()); } }); Q.push_back({ x.first,[f](Solid& g) { f(g.mesh()); } }); } pairs<TMeshHolder<Face>>(c, "Face", F); pairs<TMeshHolder<Solid>>(c, "Solid", Q); }
	own_parts<TSmooth>(c, "SmoothMesh", smooth_pool(c.thorough()), "patch", [](const SmoothMesh& m) { return m.nb_triangles(); }, [](SmoothMesh& m, int i, bool own) { if (own) { m.add_triangle(m.triangle(i)); return; } QuadBezierTriangle q = m.triangle(i); m.add_triangle(q); });
	own_parts<TNSolid>(c, "NurbsSolid", nsolid_pool(), "surface", [](const NurbsSolid& m) { return (int)m.surfaces().size(); }, [](NurbsSolid& m, int i, bool own) { if (own) { m.add_surface(m.surfaces()[i]); return; } NurbsSurface q = m.surfaces()[i]; m.add_surface(q); });
	own_parts<TCurve>(c, "NurbsCurve", curve_pool(), "arrays", [](const NurbsCurve& n) { return (int)n.points().size(); }, [](NurbsCurve& n, int, bool own) { if (own) { n.set_points(n.points()); n.set_weights(n.weights()); n.set_knots(n.knots()); return; } auto p = n.points(); auto w = n.weights(), k = n.knots(); n.set_points(p); n.set_weights(w); n.set_knots(k); });
	own_parts<TSurf>(c, "NurbsSurface", surf_pool(), "arrays", [](const NurbsSurface& n) { return (int)n.points().size(); }, [](NurbsSurface& n, int, bool own) { int u = n.nb_points_u(), v = n.nb_points_v(); if (own) { n.set_points(n.points(), u, v); n.set_weights(n.weights()); n.set_knots_u(n.knots_u()); n.set_knots_v(n.knots_v()); return; } auto p = n.points(); auto w = n.weights(), k = n.knots_u(), l = n.knots_v(); n.set_points(p, u, v); n.set_weights(w); n.set_knots_u(k); n.set_knots_v(l); });
	from_mesh<Face>(c, "Face"); from_mesh<Solid>(c, "Solid");
}
