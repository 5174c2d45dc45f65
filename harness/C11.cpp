// C11: splitting two meshes against each other over all relative lattice placements keeps both surfaces.
#include "common.hpp"
#include "MeshBoolean.h"
#include "MeshFactory.h"

namespace {
bool inside(const V& p, const V& a, const V& b, const V& d, double& margin) // p in the plane; margin: distance-like to the nearest edge
{
	V n = cross(b - a, d - a); double m = 1e300; const V* q[] = { &a,&b,&d };
	for (int k = 0; k < 3; k++) { V e = *q[(k + 1) % 3] - *q[k]; double l = len(e); if (l == 0) return margin = -1, false; m = std::min(m, dot(cross(e, p - *q[k]), n) / (l * len(n))); }
	margin = m; return m > 0;
}
void preserved(mc::Ctx& c, const TriList& in, const TriList& out, const std::string& what, bool samples)
{
	double big = 1; for (auto& p : in.v) big = std::max(big, len(p));
	MC_CHECK(c, near(in.area(), out.area(), 1e-8), "area", what << ": area " << out.area() << ", before " << in.area());
	MC_CHECK(c, near(in.volume(), out.volume(), 1e-8), "volume", what << ": volume " << out.volume() << ", before " << in.volume());
	// every output triangle lies in an input triangle with the same orientation
	std::vector<std::vector<int>> kids(in.t.size());
	for (size_t i = 0; i < out.t.size(); i++) {
		if (out.removed[i]) continue; V a = out.v[out.t[i][0]], b = out.v[out.t[i][1]], d = out.v[out.t[i][2]], n = cross(b - a, d - a); if (len(n) < 1e-9) continue;
		V g = (a + b + d) * (1 / 3.); bool ok = false;
		for (size_t k = 0; k < in.t.size(); k++) {
			if (in.removed[k]) continue; V A = in.v[in.t[k][0]], B = in.v[in.t[k][1]], D = in.v[in.t[k][2]]; double m;
			if (g.x < std::min({ A.x,B.x,D.x }) - 1e-6 * big || g.x > std::max({ A.x,B.x,D.x }) + 1e-6 * big || g.y < std::min({ A.y,B.y,D.y }) - 1e-6 * big || g.y > std::max({ A.y,B.y,D.y }) + 1e-6 * big || g.z < std::min({ A.z,B.z,D.z }) - 1e-6 * big || g.z > std::max({ A.z,B.z,D.z }) + 1e-6 * big) continue;
			V N = cross(B - A, D - A); if (len(N) == 0 || dot(N, n) <= 0) continue;
			bool in3 = true; for (auto& p : { a,b,d }) { inside(p, A, B, D, m); if (m < -1e-7 || std::fabs(dot(N, p - A)) > 1e-7 * len(N) * big) in3 = false; }
			if (in3 && dot(N, n) > 0 && inside(g, A, B, D, m)) { kids[k].push_back((int)i); ok = true; }
		}
		if (!ok) { c.fail("stray", S() << what << ": output triangle " << str(a) << str(b) << str(d) << " is not part of the input surface"); return; }
	}
	if (!samples) return;
	for (size_t k = 0; k < in.t.size(); k++) {
		if (in.removed[k]) continue; V A = in.v[in.t[k][0]], B = in.v[in.t[k][1]], D = in.v[in.t[k][2]]; if (len(cross(B - A, D - A)) == 0) continue;
		for (int u = 0; u < 7; u++) for (int w = 0; u + w < 7; w++) {
			double x = (u + 0.31) / 7.9, y = (w + 0.27) / 7.9; if (x + y >= 1) continue; V p = A * (1 - x - y) + B * x + D * y; int n = 0; bool edge = false;
			for (int i : kids[k]) { double m; if (inside(p, out.v[out.t[i][0]], out.v[out.t[i][1]], out.v[out.t[i][2]], m)) n++; if (std::fabs(m) < 1e-7) edge = true; }
			if (!edge && n != 1) { c.fail(n ? "covered-twice" : "uncovered", S() << what << ": point " << str(p) << " of input triangle " << k << " is covered " << n << " times"); return; }
		}
	}
}
TriList moved(TriList l, V o, double s = 1) { for (auto& p : l.v) p = p * s + o; return l; }
void check(mc::Ctx& c, const TriList& a, const TriList& b, bool samples, double size = 1)
{
	Mesh A, B, oa, ob, x, y; build_into(a, A); build_into(b, B);
	MeshBoolean mb; mb.split_meshes(A, B, oa, ob, x, y); c.step();
	MC_CHECK(c, diff(snapshot(A), a) == "" && diff(snapshot(B), b) == "", "input-modified", "an input changed: " << diff(snapshot(A), a) << diff(snapshot(B), b));
	TriList ra = snapshot(oa), rb = snapshot(ob);
	auto unit = [&](const TriList& l) { return moved(l, V{}, 1 / size); }; // size is a power of two: nothing is rounded
	if (size == 1) { preserved(c, a, ra, "first", samples); preserved(c, b, rb, "second", samples); } else { preserved(c, unit(a), unit(ra), "first", samples); preserved(c, unit(b), unit(rb), "second", samples); }
	V lo[2], hi[2]; const TriList* l[] = { &a,&b }; for (int k = 0; k < 2; k++) { lo[k] = { 1e300,1e300,1e300 }; hi[k] = { -1e300,-1e300,-1e300 }; for (size_t i = 0; i < l[k]->t.size(); i++) if (!l[k]->removed[i]) for (int q : l[k]->t[i]) { V p = l[k]->v[q]; lo[k] = { std::min(lo[k].x,p.x),std::min(lo[k].y,p.y),std::min(lo[k].z,p.z) }; hi[k] = { std::max(hi[k].x,p.x),std::max(hi[k].y,p.y),std::max(hi[k].z,p.z) }; } }
	bool apart = lo[0].x > hi[1].x || lo[1].x > hi[0].x || lo[0].y > hi[1].y || lo[1].y > hi[0].y || lo[0].z > hi[1].z || lo[1].z > hi[0].z;
	if (apart) {
		TriList ea, eb; Mesh ta(A), tb(B); ea = snapshot(ta); eb = snapshot(tb);
		MC_CHECK(c, diff(ra, ea) == "" && diff(rb, eb) == "", "apart", "inputs that do not meet changed: " << diff(ra, ea) << diff(rb, eb));
	}
	c.obs((int)ra.hash()); c.obs((int)rb.hash());
}
}
void run(mc::Ctx& c)
{
	static const V SH[][3] = { {{0,0,0},{2,0,0},{0,2,0}}, {{0,0,0},{0,2,0},{0,0,2}}, {{0,0,0},{2,1,0},{1,0,2}}, {{1,0,0},{0,1,0},{0,0,1}}, {{-1,-1,1},{2,0,-1},{0,2,1}}, {{0,1,2},{3,0,1},{-1,-1,0}}, {{0.5,0.5,-1},{0.5,0.5,3},{3,3,0}}, {{0,-2,-2},{0,2,-2},{0,0,3}} };
	const int NS = 8;
	std::vector<double> st; for (int k = -4; k <= 4; k++) st.push_back(c.thorough() ? k * 0.5 : k * 0.5);
	c.section("triangle pairs", "every pair of eight triangle shapes, every half-lattice offset, several vertex orders");
	for (int i = 0; i < NS; i++) for (int j = 0; j < NS; j++) for (double x : st) for (double y : st) for (double z : st) {
		int n = c.thorough() ? 6 : 1;
		for (int r = 0; r < n; r++) {
			int rr = n == 1 ? (int)std::lround((x + y + z) * 2 + 60) % 6 : r; static const int pm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
			TriList a, b; for (int k = 0; k < 3; k++) { a.addv(SH[i][k].x, SH[i][k].y, SH[i][k].z); b.addv(SH[j][k].x + x, SH[j][k].y + y, SH[j][k].z + z); } a.addt(0, 1, 2); b.addt(pm[rr][0], pm[rr][1], pm[rr][2]);
			c.test([&] { return "first " + dump(a) + " second " + dump(b); }, [&] { check(c, a, b, true); });
		}
	}
	c.section("solid pairs", "tetrahedra, boxes and octahedra at every lattice and quarter-lattice offset and two scales");
	TriList so[4]; { Mesh m; MeshFactory::create_tetrahedron(1, m); so[0] = snapshot(m); MeshFactory::create_box(2, 2, 2, m); so[1] = snapshot(m); MeshFactory::create_octahedron(1, m); so[2] = snapshot(m); MeshFactory::create_box(0.5, 3, 1, m); so[3] = snapshot(m); }
	std::vector<double> of = { -2.5,-1,-0.5,-0.25,0,0.25,0.5,1,2 };
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (double x : of) for (double y : of) for (double z : of) for (double s : { 1.,0.5 }) {
		if (!c.thorough() && ((int)std::lround(x * 4 + y * 8 + z * 16 + 1000) + i + j) % 3) continue;
		TriList a = so[i], b = moved(so[j], { x,y,z }, s);
		c.test([&] { return (S() << "solid " << i << " and solid " << j << " scaled " << s << " moved " << str(V{ x,y,z })).str(); }, [&] { check(c, a, b, c.thorough() || x == of[3]); });
	}
	c.section("with removed triangles", "a triangle against two others, every removed subset of both");
	for (int i = 0; i < NS; i++) for (int j = 0; j < NS; j++) for (int k = 0; k < NS; k++) for (int r = 0; r < 8; r++) {
		TriList a, b; for (int q = 0; q < 3; q++) a.addv(SH[i][q].x, SH[i][q].y, SH[i][q].z); for (int q = 0; q < 3; q++) { b.addv(SH[j][q].x + 0.25, SH[j][q].y, SH[j][q].z - 0.5); } for (int q = 0; q < 3; q++) b.addv(SH[k][q].x, SH[k][q].y + 0.25, SH[k][q].z + 0.25);
		a.addt(0, 1, 2); b.addt(0, 1, 2); b.addt(3, 4, 5); a.removed[0] = r & 1; b.removed[0] = r & 2; b.removed[1] = r & 4;
		c.test([&] { return "first " + dump(a) + " second " + dump(b); }, [&] { check(c, a, b, true); });
	}
	c.section("magnitudes", "pairs of triangle shapes and of solids at several offsets, the whole scene at every power of two of size, and far away from the origin by every power of two to 2^16");
	{
		std::vector<V> off = { {0.25,0.5,-0.5},{0,0,0},{1,0.5,0.25},{-0.5,-1,0.75},{0.125,-0.25,0.375} };
		std::vector<int> ks; for (int k = -60; k <= 60; k += (std::abs(k) < 20 && !(k & 1)) || c.thorough() ? 1 : 2) ks.push_back(k);
		for (int k : ks) for (int i = 0; i < NS; i++) for (int j = 0; j < NS; j++) for (auto& o : off) c.test([&] { return (S() << "shapes " << i << " and " << j << " moved " << str(o) << " times 2^" << k).str(); }, [&] {
			TriList a, b; for (int q = 0; q < 3; q++) { a.addv(SH[i][q].x, SH[i][q].y, SH[i][q].z); b.addv(SH[j][q].x + o.x, SH[j][q].y + o.y, SH[j][q].z + o.z); } a.addt(0, 1, 2); b.addt(0, 1, 2); double s = std::ldexp(1., k); check(c, moved(a, {}, s), moved(b, {}, s), true, s);
		});
		for (int k : ks) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (auto& o : off) { if (!c.thorough() && k % 4) continue; c.test([&] { return (S() << "solids " << i << " and " << j << " moved " << str(o) << " times 2^" << k).str(); }, [&] { double s = std::ldexp(1., k); check(c, moved(so[i], {}, s), moved(moved(so[j], o, 0.5), {}, s), i != j, s); }); }
		for (int k = 0; k <= 16; k++) for (int i = 0; i < NS; i++) for (int j = 0; j < NS; j++) for (auto& o : off) for (int ax = 0; ax < 3; ax++) c.test([&] { return (S() << "shapes " << i << " and " << j << " moved " << str(o) << ", both 2^" << k << " away on axis " << ax).str(); }, [&] {
			V f; (ax == 0 ? f.x : ax == 1 ? f.y : f.z) = std::ldexp(1., k); TriList a, b; for (int q = 0; q < 3; q++) { a.addv(SH[i][q].x, SH[i][q].y, SH[i][q].z); b.addv(SH[j][q].x + o.x, SH[j][q].y + o.y, SH[j][q].z + o.z); } a.addt(0, 1, 2); b.addt(0, 1, 2);
			// judged near the origin, where the measures are exact enough
			a = moved(a, f); b = moved(b, f); Mesh A, B, oa, ob, x, y; build_into(a, A); build_into(b, B); MeshBoolean mb; mb.split_meshes(A, B, oa, ob, x, y); c.step(); TriList ra = snapshot(oa), rb = snapshot(ob); c.obs(mc::mix(ra.hash(), rb.hash()));
			preserved(c, moved(a, f * -1), moved(ra, f * -1), "first", true); preserved(c, moved(b, f * -1), moved(rb, f * -1), "second", true);
		});
	}
	c.section("larger solids", "every ordered pair of eight solids of up to several hundred triangles, at several offsets and relative sizes");
	{
		std::vector<TriList> L; auto add = [&](std::function<void(Mesh&)> f) { Mesh m; f(m); L.push_back(snapshot(m)); };
		add([](Mesh& m) { MeshFactory::create_sphere_uv(1, 12, m); }); add([](Mesh& m) { MeshFactory::create_sphere_geodesic(1, 4, m); }); add([](Mesh& m) { MeshFactory::create_cylinder(2, 1, 17, m); }); add([](Mesh& m) { MeshFactory::create_torus(3, 1, 8, m); });
		add([](Mesh& m) { MeshFactory::create_icosahedron(1, m); }); add([](Mesh& m) { MeshFactory::create_dodecahedron(1, m); }); add([](Mesh& m) { MeshFactory::create_box(1, 2, 3, m); }); add([](Mesh& m) { MeshFactory::create_octahedron(1, m); for (int i : { 0,5 }) m.unlink_triangle(i); });
		for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < L.size(); j++) for (auto& o : std::vector<V>{ {0.3,0.2,0.1},{1,0,0},{0,0,0},{0.5,-0.5,0.25},{0,0.9,1.1} }) for (double s : { 1.,0.37 }) {
			if (!c.thorough() && (s != 1) != (o.x == 0.3)) continue;
			c.test([&] { return (S() << "solids " << i << " and " << j << " scaled " << s << " moved " << str(o)).str(); }, [&] { check(c, L[i], moved(L[j], o, s), c.thorough() || o.x == 0.3); });
		}
	}
	c.section("nothing to cut", "empty meshes, vertices only, all triangles removed against each other and a real mesh, into fresh and used outputs");
	for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int u = 0; u < 3; u++) c.test([&] { return (S() << "first " << i << " second " << j << " outputs " << u).str(); }, [&] {
		auto mk = [&](int q, TriList& l) { if (q > 0) for (auto& p : SH[q]) l.addv(p.x, p.y, p.z); if (q > 1) l.addt(0, 1, 2); if (q == 2) l.removed[0] = true; if (q == 4) l = so[1]; }; TriList a, b; mk(i, a); mk(j, b); Mesh A, B, oa, ob, x, y; build_into(a, A); build_into(b, B);
		if (u) { MeshFactory::create_box(1, 2, 3, oa); ob = oa; ob.set_color(3); x = y = ob; } if (u == 2) { oa.unlink_triangle(0); ob.clear(); ob.add_vertex(1, 2, 3); }
		MeshBoolean mb; mb.split_meshes(A, B, oa, ob, x, y); c.step(); TriList ra = snapshot(oa), rb = snapshot(ob); MC_CHECK(c, diff(snapshot(A), a) == "" && diff(snapshot(B), b) == "", "input-modified", "an input changed");
		preserved(c, a, ra, "first", true); preserved(c, b, rb, "second", true); if (!a.live() || !b.live()) MC_CHECK(c, diff(ra, a) == "" && diff(rb, b) == "", "nothing", "with nothing to cut: " << diff(ra, a) << " and " << diff(rb, b)); c.obs((int)ra.hash()); c.obs((int)rb.hash()); });
	c.section("histories", "every ordered pair of splits with one splitter object and the same outputs: the second result is that of a fresh splitter");
	for (int i = 0; i < NS * 2; i++) for (int j = 0; j < NS * 2; j++) c.test([&] { return (S() << "pair " << i << " then pair " << j).str(); }, [&] {
		auto mk = [&](int q, TriList& a, TriList& b) { a = b = TriList(); for (int k = 0; k < 3; k++) { V p = SH[q % NS][k], r = SH[(q * 3 + 1) % NS][k]; a.addv(p.x, p.y, p.z); b.addv(r.x + (q < NS ? 0.25 : 0), r.y - 0.5, r.z + 0.125); } a.addt(0, 1, 2); b.addt(0, 1, 2); };
		TriList a, b; MeshBoolean one; Mesh oa, ob, x, y; std::vector<TriList> got; for (int q : { i,j }) { mk(q, a, b); Mesh A, B; build_into(a, A); build_into(b, B); one.split_meshes(A, B, oa, ob, x, y); c.step(); got = { snapshot(oa),snapshot(ob) }; }
		Mesh A, B, fa, fb, u, w; build_into(a, A); build_into(b, B); MeshBoolean fresh; fresh.split_meshes(A, B, fa, fb, u, w); std::string d = diff(got[0], snapshot(fa)) + diff(got[1], snapshot(fb)); MC_CHECK(c, d == "", "history", "a used splitter gives another result: " << d); c.obs(mc::mix(got[0].hash(), got[1].hash()));
	});
}
