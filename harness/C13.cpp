// C13: transforming then evaluating/tessellating equals evaluating/tessellating then transforming, for every transform history.
#include "common.hpp"
#include "nurbs.hpp"
#include "Transform.h"
#include "MeshFactory.h"
#include "MeshTessellate.h"
#include "NurbsFactory.h"
#include "NurbsSolid.h"
#include "NurbsUtil.h"
#include "QuadBezierTriangle.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include <memory>

namespace {
std::vector<Transform*> TR; /* never deleted: Transform has no virtual destructor */ std::vector<std::string> TN;
V img(V p, const std::vector<int>& h)
{
	for (int x : h) switch (x) { // own arithmetic for each transform
	case 0: p = p + V{ 1,-2,0.5 }; break;
	case 1: p = { p.x * 2,p.y * 0.5,p.z * -3 }; break;
	case 2: p = { p.z,p.x,p.y }; break; // 120 degrees about (1,1,1)
	case 3: p = { -p.y,p.x,p.z }; break;  // 90 about z
	case 4: p = { p.x,-p.y,p.z }; p = { p.z,p.y,-p.x }; break; // yaw 90: y mirrored
	default: p = p * 1e-3; }
	return p;
}
std::string hist(const std::vector<int>& h) { S s; for (int x : h) s << TN[x] << "; "; return s.str(); }
void nurbs_same(mc::Ctx& c, const NurbsSurface& a, const NurbsSurface& b, const std::vector<int>& h, const char* w)
{
	MC_CHECK(c, a.degree_u() == b.degree_u() && a.degree_v() == b.degree_v() && a.knots_u() == b.knots_u() && a.knots_v() == b.knots_v() && a.weights() == b.weights() && a.nb_points_u() == b.nb_points_u() && a.nb_points_v() == b.nb_points_v() && a.is_closed_u() == b.is_closed_u() && a.is_closed_v() == b.is_closed_v(), std::string(w) + "-data", "degrees, knots, weights, counts or closedness changed");
	for (int i = 0; i <= 6; i++) for (int j = 0; j <= 6; j++) { Point3 p, q; a.evaluate(i / 6., j / 6., p); b.evaluate(i / 6., j / 6., q); c.step(2); V e = img(v(p), h); if (!near(q, e)) { c.fail(w, S() << "at " << i / 6. << "," << j / 6. << ": " << str(q) << ", transforming the point gives " << str(e)); return; } c.obsp(q); }
}
void mesh_same(mc::Ctx& c, const Mesh& before, const Mesh& after, const std::vector<int>& h, const char* w)
{
	TriList l = snapshot(before); for (auto& p : l.v) p = img(p, h); std::string d = diff(snapshot(after), l, 1e-9); MC_CHECK(c, d == "", w, "transformed (got vs expected): " << d); c.obs((int)l.v.size()); for (size_t i = 0; i < l.v.size(); i += 7) c.obsp(P(l.v[i]));
}
}
void run(mc::Ctx& c)
{
	TR.push_back(new Translation(Point3(1, -2, 0.5))); TN.push_back("translate 1,-2,0.5"); TR.push_back(new Scale(2, 0.5, -3)); TN.push_back("scale 2,0.5,-3");
	TR.push_back(new RotationAngleAxis(120, P(V{ 1,1,1 } *(1 / std::sqrt(3.))))); TN.push_back("rotate 120 about 1,1,1");
	{ auto q = new RotationQuaternion; q->from_angle_axis(90, Point3(0, 0, 1)); TR.push_back(q); TN.push_back("rotate 90 about z"); }
	TR.push_back(new RotationEulerAngles(90, 0, 0)); TN.push_back("yaw 90"); TR.push_back(new Scale(1e-3, 1e-3, 1e-3)); TN.push_back("scale 0.001");
	std::vector<std::vector<int>> H; int D = c.bound(3, 4); for (int d = 1; d <= D; d++) sequences(6, d, [&](const std::vector<int>& s) { H.push_back(s); });

	c.section("meshes", "factory and irregular meshes with removed triangles, every transform sequence up to a depth");
	for (int m = 0; m < 4; m++) for (auto& h : H) c.test([&] { return (S() << "mesh " << m << ": " << hist(h)).str(); }, [&] {
		Mesh a; if (m == 0) MeshFactory::create_box(1, 2, 3, a); else if (m == 1) { MeshFactory::create_icosahedron(2, a); a.unlink_triangle(3); a.unlink_triangle(19); a.set_color(0x112233); a.add_vertex(5, 6, 7); } else if (m == 2) { a.add_vertex(1, 2, 3); } else { MeshFactory::create_cylinder(2, 1, 1, a); a.split_triangle_with_vertex(0, Point3(0.5, 0.5, 0.1)); a.flip_triangle(2); }
		Mesh b = a; for (int x : h) { b.apply_transform(*TR[x]); c.step(); } mesh_same(c, a, b, h, "mesh");
		if (m < 2) { Mesh ta, tb; MeshTessellate mt; mt.compute(a, 3, ta); mt.compute(b, 3, tb); int col = ta.get_color(); tb.set_color(col); mesh_same(c, ta, tb, h, "mesh-tessellated"); }
	});
	c.section("nurbs surfaces", "rational and polynomial surfaces, every transform sequence up to a depth");
	for (int m = 0; m < 5; m++) for (auto& h : H) c.test([&] { return (S() << "surface " << m << ": " << hist(h)).str(); }, [&] {
		NurbsSurface a; if (m == 0) make_surf(2, 3, { 1 }, { 2 }, 1, 4).build(a); else if (m == 1) make_surf(1, 1, {}, { 1,1 }, 0, 2).build(a); else if (m == 2) NurbsFactory::create_sphere(2, a); else if (m == 3) NurbsFactory::create_torus(3, 1, a); else make_surf(3, 2, {}, { 1 }, 1, 5).build(a, 1);
		if (m == 1) a.set_closed_v(true);
		NurbsSurface b = a; Point3 q; if (m % 2) b.evaluate(0.3, 0.7, q); for (int x : h) { b.apply_transform(*TR[x]); if (m % 2) b.evaluate(0.6, 0.1, q); c.step(); } nurbs_same(c, a, b, h, "surface");
		if (h.size() < 3) { Mesh ma, mb; NurbsUtil::to_mesh(a, ma, 2); NurbsUtil::to_mesh(b, mb, 2); mesh_same(c, ma, mb, h, "surface-mesh"); }
	});
	c.section("closed flags", "surfaces flagged closed in every combination whose ends meet, nearly meet or differ, alone and within a solid, every transform sequence up to two: points, flags and evaluation");
	for (int fl = 0; fl < 4; fl++) for (int ends = 0; ends < 4; ends++) for (int m = 0; m < 4; m++) for (auto& h : H) { if (h.size() > 2) continue; c.test([&] { return (S() << "flags " << fl << " ends " << ends << " surface " << m << ": " << hist(h)).str(); }, [&] {
		SurfSpec s = m == 0 ? make_surf(2, 1, { 1 }, { 1 }, 1, 4) : m == 1 ? make_surf(1, 1, {}, {}, 0, 0) : m == 2 ? make_surf(1, 2, { 1,1 }, {}, 0, 1) : make_surf(3, 3, {}, { 1 }, 1, 5); double gap = ends == 0 ? 0 : ends == 1 ? 1e-7 : ends == 2 ? 1e-3 : -1;
		if (gap >= 0) { for (int j = 0; j < s.nv; j++) { s.pt[s.nu - 1 + s.nu * j] = s.pt[s.nu * j] + V{ gap,0,-gap }; } if (fl & 2) for (int i = 0; i < s.nu; i++) s.pt[i + s.nu * (s.nv - 1)] = s.pt[i] + V{ 0,gap,0 }; }
		NurbsSurface a; s.build(a); a.set_closed_u(fl & 1); a.set_closed_v(fl & 2); NurbsSurface b = a; NurbsSolid so; so.add_surface(a); for (int x : h) { b.apply_transform(*TR[x]); so.apply_transform(*TR[x]); c.step(2); } nurbs_same(c, a, b, h, "closed"); if (so.surfaces().size() == 1) nurbs_same(c, a, so.surfaces()[0], h, "closed-solid"); else c.fail("closed-solid", "surface count");
		auto p = a.points(), q = b.points(); for (size_t i = 0; i < p.size() && i < q.size(); i++) if (!(len(v(q[i]) - img(v(p[i]), h)) <= 1e-12 * (1 + 3 * len(v(q[i]))))) { c.fail("closed-point", S() << "control point " << (int)i << " becomes " << str(q[i]) << ", expected " << str(img(v(p[i]), h))); return; } }); }
	c.section("nurbs solids", "solids of several surfaces, every transform sequence up to a depth");
	for (int m = 0; m < 5; m++) for (auto& h : H) { if (m && h.size() > 2 && !c.thorough()) continue; c.test([&] { return (S() << "solid " << m << ": " << hist(h)).str(); }, [&] {
		NurbsSolid a; if (m == 0) NurbsFactory::create_box(1, 2, 3, a); else if (m == 1) { for (int k = 0; k < 3; k++) { NurbsSurface s; make_surf(1 + k, 3 - k, { 1 }, {}, k % 2, k).build(s); a.add_surface(s); } } else if (m == 2) NurbsFactory::create_cylinder(2, 1, a); else { NurbsSurface s, t; SurfSpec sp = make_surf(2, 1, { 1 }, {}, 0, 0); sp.pt.back() = sp.pt.front(); sp.build(s); t = s; t.set_closed_u(true); for (int k = 0; k < 2; k++) { a.add_surface(m == 3 ? s : k ? t : s); a.add_surface(s); } NurbsFactory::create_torus(2, 1, t); a.add_surface(t); a.add_surface(t); }
		NurbsSolid b = a; for (int x : h) { b.apply_transform(*TR[x]); c.step(); }
		MC_CHECK(c, a.surfaces().size() == b.surfaces().size(), "solid-count", "number of surfaces changed");
		for (size_t i = 0; i < a.surfaces().size() && i < b.surfaces().size(); i++) nurbs_same(c, a.surfaces()[i], b.surfaces()[i], h, "solid");
	}); }
	c.section("bezier triangles and smooth meshes", "patches with every control pattern and smooth primitives, every transform sequence up to a depth");
	for (int m = 0; m < 6; m++) for (auto& h : H) c.test([&] { return (S() << "object " << m << ": " << hist(h)).str(); }, [&] {
		if (m < 2) {
			QuadBezierTriangle a; a.set_points(P(some_point(1)), P(some_point(2)), P(some_point(3))); if (m) a.set_control_points(P(some_point(4)), P(some_point(5)), P(some_point(6))), a.set_weights(0.5, 2, 0.75, 3, 1, 0.25);
			QuadBezierTriangle b = a; for (int x : h) { b.apply_transform(*TR[x]); c.step(); }
			for (int i = 0; i <= 6; i++) for (int j = 0; i + j <= 6; j++) { Point3 p = a.eval(i / 6., j / 6.), q = b.eval(i / 6., j / 6.); c.step(2); V e = img(v(p), h); if (!near(q, e)) { c.fail("bezier", S() << "at " << i / 6. << "," << j / 6. << ": " << str(q) << " expected " << str(e)); return; } c.obsp(q); }
		}
		else {
			SmoothMesh a; if (m == 2) SmoothMeshFactory::create_sphere(2, a); else if (m == 3) SmoothMeshFactory::create_dodecahedron(2, a); else if (m == 4) SmoothMeshFactory::create_box(1, 2, 3, a); else SmoothMeshFactory::create_icosahedron(1, a);
			SmoothMesh b = a; for (int x : h) { b.apply_transform(*TR[x]); c.step(); }
			Mesh ma, mb; a.add_to_mesh(ma, 2); b.add_to_mesh(mb, 2); mesh_same(c, ma, mb, h, "smooth");
		}
	});
	// relative comparison with what the object is made of
	struct Aff { double m[9]; V t; V operator()(const V& p) const { return V{ m[0] * p.x + m[1] * p.y + m[2] * p.z,m[3] * p.x + m[4] * p.y + m[5] * p.z,m[6] * p.x + m[7] * p.y + m[8] * p.z } + t; } double size() const { double s = 0; for (double d : m) s = std::max(s, std::fabs(d)); return s; } };
	struct Shear : Transform { Aff a; void apply(Point3& p) const override { p = P(a(v(p))); } }; // a user's own transform
	auto cmpmesh = [&](const Mesh& b, const Mesh& a, const Aff& f, const char* w) {
		TriList l = snapshot(b), g = snapshot(a); double sc = f.size() * maxc(l.v) * 3 + len(f.t); for (auto& p : l.v) p = f(p); c.obs((int)l.v.size());
		if (l.v.size() != g.v.size() || l.t.size() != g.t.size() || l.t != g.t || l.removed != g.removed || l.color != g.color) { c.fail(std::string(w) + "-data", S() << "triangles, flags, colour or counts differ"); return; }
		for (size_t i = 0; i < l.v.size(); i++) if (!(len(l.v[i] - g.v[i]) <= 1e-11 * sc)) { c.fail(w, S() << "vertex " << (int)i << " is " << str(g.v[i]) << ", expected " << str(l.v[i])); return; }
	};
	auto mkaff = [&](int kind, double f) { Aff a; double I[9] = { f,0,0,0,f,0,0,0,f }; memcpy(a.m, I, sizeof I); a.t = V{}; if (kind == 1) { a.m[0] = a.m[4] = a.m[8] = 1; a.t = V{ 1,-1.5,1.25 } *f; } if (kind == 2) { a.m[1] = 0.5 * f; a.m[5] = -0.25 * f; a.m[6] = 2 * f; a.t = V{ f,2 * f,-f }; } if (kind == 3) { a.m[4] = -0.5 * f; a.m[8] = 0; } return a; };
	auto mktr = [&](int kind, double f) -> Transform* { Aff a = mkaff(kind, f); if (kind == 0) return new Scale(f, f, f); if (kind == 1) return new Translation(P(a.t)); if (kind == 3) return new Scale(f, -0.5 * f, 0); auto s = new Shear; s->a = a; return s; };
	static const char* KN[] = { "scale","translation","user's shear","flattening scale" };
	std::vector<std::pair<int, int>> KJ; for (int k = -120; k <= 120; k += c.bound(8, 2)) for (int j : { -100,-30,-10,-1,0,1,10,30,100 }) KJ.push_back({ k,j });
	c.section("magnitudes", "objects of every kind and of sizes over all powers of two, transforms (also a user's own and one that flattens) of every power of two, compared relatively");
	for (auto& kj : KJ) for (int kind = 0; kind < 4; kind++) c.test([&] { return (S() << KN[kind] << " of 2^" << kj.first << " on objects of size 2^" << kj.second).str(); }, [&] {
		double f = std::ldexp(1., kj.first), s = std::ldexp(1., kj.second); Aff a = mkaff(kind, f); std::unique_ptr<Transform> own; Transform* T = mktr(kind, f); c.step();
		Mesh m; MeshFactory::create_icosahedron(s, m); m.unlink_triangle(2); m.add_vertex(s, 2 * s, 3 * s); m.set_color(5); Mesh n = m; n.apply_transform(*T); cmpmesh(m, n, a, "mesh-magnitude");
		SurfSpec sp = make_surf(2, 1, { 1 }, { 1 }, 1, 4); for (auto& q : sp.pt) q = q * s; NurbsSurface x; sp.build(x); NurbsSurface y = x; y.apply_transform(*T); double sc = 3 * a.size() * maxc(sp.pt) + len(a.t);
		NurbsSolid ss; ss.add_surface(x); ss.add_surface(x); ss.apply_transform(*T);
		for (int i = 0; i <= 4; i++) for (int j = 0; j <= 4; j++) { Point3 q; y.evaluate(i / 4., j / 4., q); V e = a(sp.eval(i / 4., j / 4.)); c.step(); MC_CHECK(c, nearx(q, e, sc), "surface-magnitude", "at " << i / 4. << "," << j / 4. << ": " << str(q) << " expected " << str(e)); for (auto& z : ss.surfaces()) { z.evaluate(i / 4., j / 4., q); MC_CHECK(c, nearx(q, e, sc), "solid-magnitude", "at " << i / 4. << "," << j / 4. << ": " << str(q) << " expected " << str(e)); } }
		MC_CHECK(c, y.weights() == x.weights() && y.knots_u() == x.knots_u() && y.knots_v() == x.knots_v(), "surface-magnitude-data", "weights or knots changed");
		QuadBezierTriangle b; b.set_points(P(some_point(1) * s), P(some_point(2) * s), P(some_point(3) * s)); b.set_control_points(P(some_point(4) * s), P(some_point(5) * s), P(some_point(6) * s)); b.set_weights(0.5, 2, 0.75, 3, 1, 0.25); QuadBezierTriangle d = b; d.apply_transform(*T);
		for (int i = 0; i <= 4; i++) for (int j = 0; i + j <= 4; j++) { V e = a(v(b.eval(i / 4., j / 4.))); Point3 q = d.eval(i / 4., j / 4.); c.step(); MC_CHECK(c, nearx(q, e, 3 * a.size() * 8 * s + len(a.t)), "bezier-magnitude", "at " << i / 4. << "," << j / 4. << ": " << str(q) << " expected " << str(e)); }
		SmoothMesh sm; SmoothMeshFactory::create_box(s, 2 * s, 3 * s, sm); SmoothMesh sn = sm; sn.apply_transform(*T); Mesh ma, mb; sm.add_to_mesh(ma, 2); sn.add_to_mesh(mb, 2); cmpmesh(ma, mb, a, "smooth-magnitude");
		if (kind == 2) delete (Shear*)T; else if (kind == 1) delete (Translation*)T; else delete (Scale*)T;
	});
	c.section("large", "meshes, nets, solids and smooth meshes of every size of a ladder");
	Aff A = mkaff(2, 1);
	for (int n : ladder(0, c.bound(65536, 1 << 19))) c.test([&] { return (S() << "mesh of " << n << " vertices").str(); }, [&] {
		Mesh m; for (int i = 0; i < n; i++) m.add_vertex(Point3(i, i % 7, 0.5 * (i % 100))); for (int i = 0; i + 2 < n; i++) { m.add_triangle(i, i + 1, i + 2); if (i % 3 == 1) m.unlink_triangle(i); } Shear T; T.a = A; Mesh b = m; b.apply_transform(T); c.step(); cmpmesh(m, b, A, "mesh-large");
	});
	for (int n : ladder(2, c.bound(512, 4096))) for (int tr = 0; tr < 2; tr++) c.test([&] { return (S() << "net " << (tr ? 3 : n) << "x" << (tr ? n : 3)).str(); }, [&] {
		int nu = tr ? 3 : n, nv = tr ? n : 3; NurbsSurface s; s.set_degree(1, 1); std::vector<Point3> p; for (int i = 0; i < nu * nv; i++) p.push_back(Point3(i, i % 5, i % 11)); s.set_points(p, nu, nv); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights(); Shear T; T.a = A; NurbsSurface t = s; t.apply_transform(T); c.step(); c.obs(n);
		auto g = t.points(); MC_CHECK(c, (int)g.size() == nu * nv, "surface-large", "has " << g.size() << " points"); for (size_t i = 0; i < g.size() && i < p.size(); i++) if (!nearx(g[i], A(v(p[i])), 10 * (i + 20.))) { c.fail("surface-large", S() << "point " << (int)i << " is " << str(g[i]) << ", expected " << str(A(v(p[i])))); break; }
	});
	for (int n : ladder(0, c.bound(256, 1024))) c.test([&] { return (S() << "solid of " << n << " surfaces").str(); }, [&] {
		NurbsSolid s; NurbsSurface x; x.set_degree(1, 1); for (int i = 0; i < n; i++) { x.set_points({ Point3(i,0,0),Point3(i + 1,0,0),Point3(i,1,0),Point3(i,1,1) }, 2, 2); x.set_uniform_u(); x.set_uniform_v(); x.set_equals_weights(); s.add_surface(x); }
		NurbsSolid t = s; Shear T; T.a = A; t.apply_transform(T); c.step(); MC_CHECK(c, (int)t.surfaces().size() == n, "solid-large", t.surfaces().size() << " surfaces of " << n);
		for (size_t i = 0; i < t.surfaces().size() && i < s.surfaces().size(); i++) for (int k = 0; k < 4; k++) if (!nearx(t.surfaces()[i].points()[k], A(v(s.surfaces()[i].points()[k])), 10 * (i + 10.))) { c.fail("solid-large", S() << "surface " << (int)i << " point " << k); return; } c.obs(n);
	});
	for (int n : ladder(0, c.bound(1024, 8192))) c.test([&] { return (S() << "smooth mesh of " << n << " patches").str(); }, [&] {
		SmoothMesh s; for (int i = 0; i < n; i++) { QuadBezierTriangle q; q.set_points(Point3(i, 0, 0), Point3(i + 1, 0, 0), Point3(i, 1, 1)); q.set_control_points(Point3(i, 0, 2), Point3(i + 0.5, 1, 0), Point3(i, 0.5, 0.25)); q.set_weights(1, 2, 1, 0.5, 1, 1); s.add_triangle(q); }
		SmoothMesh t = s; Shear T; T.a = A; t.apply_transform(T); c.step(); Mesh ma, mb; s.add_to_mesh(ma, 1); t.add_to_mesh(mb, 1); cmpmesh(ma, mb, A, "smooth-large");
	});
}
