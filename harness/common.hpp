#pragma once
#include <locale>
#include <cstring>
#include <new>
#include "mc.hpp"
#include <array>
#include "Geometry.h"
#include "Mesh.h"

using mc::S;

inline bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1. + std::fabs(a) + std::fabs(b)); }
inline bool near(const Point3& a, const Point3& b, double tol = 1e-9)
{
	double s = 1. + std::fabs(a.x()) + std::fabs(a.y()) + std::fabs(a.z()) + std::fabs(b.x()) + std::fabs(b.y()) + std::fabs(b.z());
	return std::fabs(a.x() - b.x()) <= tol * s && std::fabs(a.y() - b.y()) <= tol * s && std::fabs(a.z() - b.z()) <= tol * s;
}
inline bool same(const Point3& a, const Point3& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
inline std::string str(const Point3& p) { return S() << "(" << p.x() << "," << p.y() << "," << p.z() << ")"; }
inline bool finite(const Point3& p) { return std::isfinite(p.x()) && std::isfinite(p.y()) && std::isfinite(p.z()); }

// own arithmetic: the oracle never uses the library's
struct V { double x = 0, y = 0, z = 0; };
inline V v(const Point3& p) { return V{ p.x(),p.y(),p.z() }; }
inline V operator+(const V& a, const V& b) { return { a.x + b.x,a.y + b.y,a.z + b.z }; }
inline V operator-(const V& a, const V& b) { return { a.x - b.x,a.y - b.y,a.z - b.z }; }
inline V operator*(const V& a, double k) { return { a.x * k,a.y * k,a.z * k }; }
inline double dot(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(const V& a, const V& b) { return { a.y * b.z - a.z * b.y,a.z * b.x - a.x * b.z,a.x * b.y - a.y * b.x }; }
inline double len(const V& a) { return std::sqrt(dot(a, a)); }
inline Point3 P(const V& a) { return Point3(a.x, a.y, a.z); }
inline bool near(const Point3& a, const V& b, double tol = 1e-9) { return near(a, P(b), tol); }
inline std::string str(const V& p) { return str(P(p)); }

typedef std::array<int, 3> Tri;
inline Tri canon(Tri t) // up to rotation, orientation kept
{
	while (t[0] > t[1] || t[0] > t[2] ) { Tri r = { t[1],t[2],t[0] }; t = r; if (t[0] <= t[1] && t[0] <= t[2]) break; }
	return t;
}
inline bool same_tri(const Tri& a, const Tri& b)
{
	return a == b || (a[0] == b[1] && a[1] == b[2] && a[2] == b[0]) || (a[0] == b[2] && a[1] == b[0] && a[2] == b[1]);
}

// the reference model of a mesh: a plain list
struct TriList
{
	std::vector<V> v; std::vector<Tri> t; std::vector<bool> removed; int color = -1;
	int addv(double x, double y, double z) { v.push_back({ x,y,z }); return (int)v.size() - 1; }
	int addt(int a, int b, int c) { t.push_back({ a,b,c }); removed.push_back(false); return (int)t.size() - 1; }
	int live() const { int n = 0; for (bool r : removed) if (!r) n++; return n; }
	void append(const TriList& o)
	{
		int n = (int)v.size(); auto ov = o.v; auto ot = o.t; auto orr = o.removed;
		for (auto& p : ov) v.push_back(p);
		for (size_t i = 0; i < ot.size(); i++) if (!orr[i]) addt(ot[i][0] + n, ot[i][1] + n, ot[i][2] + n);
		color = o.color;
	}
	double area() const { double s = 0; for (size_t i = 0; i < t.size(); i++) if (!removed[i]) s += len(cross(v[t[i][1]] - v[t[i][0]], v[t[i][2]] - v[t[i][0]])) / 2; return s; }
	double volume() const { double s = 0; for (size_t i = 0; i < t.size(); i++) if (!removed[i]) s += dot(v[t[i][0]], cross(v[t[i][1]], v[t[i][2]])) / 6; return s; }
	uint64_t hash() const
	{
		uint64_t h = 17; for (auto& p : v) { double d[3] = { p.x + 0.,p.y + 0.,p.z + 0. }; for (double e : d) { uint64_t u; memcpy(&u, &e, 8); h = mc::mix(h, u); } }
		for (size_t i = 0; i < t.size(); i++) { for (int k = 0; k < 3; k++) h = mc::mix(h, t[i][k]); h = mc::mix(h, removed[i]); }
		return mc::mix(h, color);
	}
};

// read a mesh through its public getters
inline TriList snapshot(const Mesh& m)
{
	TriList r; r.color = m.get_color();
	for (int i = 0; i < m.nb_vertices(); i++) { Point3 p; m.get_vertex(i, p); r.v.push_back(v(p)); }
	for (int i = 0; i < m.nb_triangles(); i++) {
		Tri t; m.get_triangle_vertices(i, t[0], t[1], t[2]);
		r.t.push_back(t); r.removed.push_back(m.is_triangle_unlinked(i));
	}
	return r;
}
// "" when equal, else what differs. Live triangles up to rotation of their corners.
inline std::string diff(const TriList& a, const TriList& b, double tol = 0, bool color = true)
{
	if (a.v.size() != b.v.size()) return S() << "vertex count " << a.v.size() << " vs " << b.v.size();
	if (a.t.size() != b.t.size()) return S() << "triangle count " << a.t.size() << " vs " << b.t.size();
	for (size_t i = 0; i < a.v.size(); i++) {
		bool eq = tol == 0 ? (a.v[i].x == b.v[i].x && a.v[i].y == b.v[i].y && a.v[i].z == b.v[i].z) : near(P(a.v[i]), P(b.v[i]), tol);
		if (!eq) return S() << "vertex " << i << " " << str(a.v[i]) << " vs " << str(b.v[i]);
	}
	for (size_t i = 0; i < a.t.size(); i++) {
		if (a.removed[i] != b.removed[i]) return S() << "removed flag of triangle " << i << ": " << a.removed[i] << " vs " << b.removed[i];
		if (!same_tri(a.t[i], b.t[i])) return S() << "triangle " << i << ": " << a.t[i][0] << "," << a.t[i][1] << "," << a.t[i][2] << " vs " << b.t[i][0] << "," << b.t[i][1] << "," << b.t[i][2];
	}
	if (color && a.color != b.color) return S() << "colour " << a.color << " vs " << b.color;
	return "";
}
inline Mesh build_mesh(const TriList& l)
{
	Mesh m; for (auto& p : l.v) m.add_vertex(Point3(p.x, p.y, p.z));
	for (auto& t : l.t) m.add_triangle(t[0], t[1], t[2]);
	for (size_t i = 0; i < l.t.size(); i++) if (l.removed[i]) m.unlink_triangle((int)i);
	m.set_color(l.color); return m;
}
inline void build_into(const TriList& l, Mesh& m)
{
	m.clear(); for (auto& p : l.v) m.add_vertex(Point3(p.x, p.y, p.z));
	for (auto& t : l.t) m.add_triangle(t[0], t[1], t[2]);
	for (size_t i = 0; i < l.t.size(); i++) if (l.removed[i]) m.unlink_triangle((int)i);
	m.set_color(l.color);
}

// merge coincident vertices of live triangles (grid hash with tolerance; clusters must be well separated)
struct Topo
{
	std::vector<V> v; std::vector<Tri> t; int degenerate = 0;
	std::map<std::pair<int, int>, int> edges; // directed
	bool closed() const // every directed edge exactly once, with its reverse exactly once
	{
		for (auto& e : edges) {
			if (e.second != 1) return false;
			auto r = edges.find({ e.first.second,e.first.first });
			if (r == edges.end() || r->second != 1) return false;
		}
		return true;
	}
	std::string why() const
	{
		for (auto& e : edges) {
			auto r = edges.find({ e.first.second,e.first.first });
			int rc = r == edges.end() ? 0 : r->second;
			if (e.second != 1 || rc != 1) return S() << "edge " << str(v[e.first.first]) << "->" << str(v[e.first.second]) << " used " << e.second << " times, reverse " << rc << " times";
		}
		return "";
	}
	int euler() const { return (int)v.size() - (int)edges.size() / 2 + (int)t.size(); }
	int components() const
	{
		std::vector<int> p(v.size()); for (size_t i = 0; i < p.size(); i++) p[i] = (int)i;
		std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; };
		for (auto& a : t) { p[f(a[0])] = f(a[1]); p[f(a[1])] = f(a[2]); }
		std::set<int> s; for (auto& a : t) s.insert(f(a[0])); return (int)s.size();
	}
	bool vertex_manifold() const // the triangles around each vertex form one fan
	{
		std::map<int, std::vector<int>> inc; for (size_t i = 0; i < t.size(); i++) for (int k = 0; k < 3; k++) inc[t[i][k]].push_back((int)i);
		for (auto& kv : inc) {
			std::map<int, int> nxt; for (int i : kv.second) for (int k = 0; k < 3; k++) if (t[i][k] == kv.first) nxt[t[i][(k + 1) % 3]] = t[i][(k + 2) % 3];
			int s = nxt.begin()->first, c = s; size_t n = 0;
			do { auto it = nxt.find(c); if (it == nxt.end()) return false; c = it->second; n++; } while (c != s && n <= nxt.size());
			if (n != kv.second.size()) return false;
		}
		return true;
	}
};
inline Topo topo(const TriList& m, double tol)
{
	Topo r; std::vector<int> id(m.v.size(), -1);
	std::map<std::array<long long, 3>, std::vector<int>> grid;
	auto cell = [&](const V& p) { return std::array<long long, 3>{ (long long)std::floor(p.x / (4 * tol)), (long long)std::floor(p.y / (4 * tol)), (long long)std::floor(p.z / (4 * tol)) }; };
	auto get = [&](int i) {
		if (id[i] >= 0) return id[i];
		auto c = cell(m.v[i]);
		for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) {
			auto it = grid.find({ c[0] + dx,c[1] + dy,c[2] + dz });
			if (it == grid.end()) continue;
			for (int k : it->second) if (len(r.v[k] - m.v[i]) <= tol) return id[i] = k;
		}
		r.v.push_back(m.v[i]); grid[c].push_back((int)r.v.size() - 1);
		return id[i] = (int)r.v.size() - 1;
	};
	for (size_t i = 0; i < m.t.size(); i++) {
		if (m.removed[i]) continue;
		Tri t = { get(m.t[i][0]),get(m.t[i][1]),get(m.t[i][2]) };
		if (t[0] == t[1] || t[1] == t[2] || t[0] == t[2]) { r.degenerate++; continue; }
		r.t.push_back(t);
		for (int k = 0; k < 3; k++) r.edges[{ t[k], t[(k + 1) % 3] }]++;
	}
	return r;
}

inline std::string dump(const TriList& m)
{
	S s; s << "vertices:"; for (auto& p : m.v) s << " " << str(p);
	s << " triangles:"; for (size_t i = 0; i < m.t.size(); i++) s << " [" << m.t[i][0] << "," << m.t[i][1] << "," << m.t[i][2] << (m.removed[i] ? " removed]" : "]");
	if (m.color != -1) s << " colour " << m.color;
	return s;
}

// enumerate all sequences of length 1..depth over n symbols: f(sequence)
template<class F> void sequences(int n, int depth, F f, bool exactDepthOnly = true)
{
	std::vector<int> s;
	for (int d = exactDepthOnly ? depth : 1; d <= depth; d++) {
		s.assign(d, 0);
		while (true) {
			f(s);
			int k = d - 1;
			while (k >= 0 && ++s[k] == n) { s[k] = 0; k--; }
			if (k < 0) break;
		}
	}
}
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
inline bool exists(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
inline double maxc(const std::vector<V>& p) { double m = 0; for (auto& q : p) m = std::max({ m,std::fabs(q.x),std::fabs(q.y),std::fabs(q.z) }); return m; }
// an object built over memory which holds a pattern: what its constructor forgets shows
static const int MEMORY[] = { 0,0x5a,0xff,0x3f,0x01 };
// the program's locale, while in scope: 0 classic, then other decimal points and groupings of digits
const int NB_LOCALES = 5;
struct Loc {
	struct Punct : std::numpunct<char> { char d, t; std::string g; Punct(char a, char b, const char* c) : d(a), t(b), g(c) {} char do_decimal_point() const override { return d; } char do_thousands_sep() const override { return t; } std::string do_grouping() const override { return g; } };
	static std::locale make(int k) { const std::locale& c = std::locale::classic(); return k == 0 ? c : k == 1 ? std::locale(c, new Punct(',', '.', "\3")) : k == 2 ? std::locale(c, new Punct('.', ',', "\3")) : k == 3 ? std::locale(c, new Punct(',', ' ', "")) : std::locale(c, new Punct('.', '\'', "\1\2")); }
	std::locale old; explicit Loc(int k) : old(std::locale::global(make(k))) {} ~Loc() { std::locale::global(old); } Loc(const Loc&) = delete;
};
template<class T> struct Over {
	alignas(16) unsigned char b[sizeof(T)]; T* p;
	template<class... A> explicit Over(int f, A&&... a) { memset(b, f, sizeof b); asm volatile("" : : "r"(b) : "memory"); p = new (b) T(std::forward<A>(a)...); }
	~Over() { p->~T(); } Over(const Over&) = delete;
	T& operator*() { return *p; } T* operator->() { return p; }
};
inline std::vector<int> ladder(int lo, int top, int dense = 0)
{
	static const int EXTRA[] = { 26,28,30,35,37,40,42,44,48,50,54,55,56,60,66,70,72,75,77,80,84,88,90,96,99,100,110,120,121,144,150,168,180,192,200,240,250,300,320,360,384,400,500,600,640,700,720,770,800,900,960,999,1000,1001,1200,1500,2000,2500,3000,3600,5000,7200,10000,20000,50000,100000,200000 };
	std::set<int> r; for (int k = lo; k <= std::max(dense, std::min(top, 25)); k++) r.insert(k); for (int k = 1; k <= top; k *= 2) for (int d = -1; d <= 1; d++) if (k + d >= lo) r.insert(k + d); for (int k : EXTRA) if (k >= lo && k <= top) r.insert(k); return std::vector<int>(r.begin(), r.end());
}
inline bool nearx(const Point3& p, const V& e, double scale, double tol = 1e-9) { return len(v(p) - e) <= tol * scale; } // relative to the size of the object
