#pragma once
// one task for every public operation of the library, on objects of its own
#include "builders.hpp"
#include "Face.h"
#include "Solid.h"
#include "StepFile.h"
#include "Renderer.h"
#include "MeshMeasurements.h"
#include "GeometryUtil.h"
#include "Geometry.h"
#include "BezierUtil.h"
#include "MeshKernelTIN.h"
#include "MeshKernelHalfEdge.h"
#include "MeshKernelLinkedTriangles.h"
#include "Transform.h"
namespace {
struct Task { std::string name; std::function<O(int)> f; }; // the argument is the number of the thread
std::string base(const std::string& n) { return n.substr(0, n.find('(')); }
template<class T> void tasks(std::vector<Task>& t, const std::string& type, const std::vector<Op<T>>& ops, std::function<void(T&)> prep, std::set<std::string>& seen)
{
	for (auto& o : ops) if (seen.insert(type + base(o.name)).second) t.push_back({ type + "." + o.name,[=](int) { T a; if (prep) prep(a); g_result = true; o.f(a); O r = observe(a); r.push_back(g_result); return r; } });
}
O bytes(const std::string& f) { O o; for (unsigned char ch : slurp(f)) o.push_back(ch); return o; }
struct Out { O o; void operator()(double d) { o.push_back(d); } void operator()(const Point3& p) { put(o, p); } };
template<class K> O kernel() { K k; Out o; for (auto& p : { Point3(0, 0, 0),Point3(1, 0, 0),Point3(1, 1, 0),Point3(0, 1, 0),Point3(5, 5, 5) }) o(k.add_vertex(p)); o(k.add_triangle(0, 1, 2)); o(k.add_triangle(0, 2, 3)); o(k.add_triangle(3, 2, 4)); int a = -9, b = -9, d = -9; for (int i = 0; i < k.nb_triangles(); i++) { k.get_triangle_vertices(i, a, b, d); o(a); o(b); o(d); k.get_near_triangles(i, a, b, d); o(a); o(b); o(d); } a = b = -9; o(k.get_triangles_near_edge(0, 2, a, b)); o(a); o(b); k.set_vertex(4, Point3(1, 2, 3)); k.unlink_triangle(2); o(k.is_triangle_unlinked(2)); Point3 p; k.get_vertex(4, p); o(p); o(k.nb_vertices()); k.clear(); o(k.nb_triangles()); return o.o; }
std::vector<Task> all_tasks(const std::string& dir, const Builders& B)
{
	std::vector<Task> t; std::set<std::string> seen;
	tasks<Mesh>(t, "mesh", B.mo, nullptr, seen); tasks<Mesh>(t, "mesh", B.md, [](Mesh& m) { m = mesh(1); }, seen);
	tasks<SmoothMesh>(t, "smooth", B.so, nullptr, seen); tasks<SmoothMesh>(t, "smooth", B.sd, [](SmoothMesh& m) { SmoothMeshFactory::create_box(1, 2, 3, m); }, seen);
	tasks<NurbsCurve>(t, "curve", { B.co[7],B.co[14] }, nullptr, seen); tasks<NurbsCurve>(t, "curve", { B.cd[1],B.cd[2],B.cd[3] }, [](NurbsCurve& m) { m = curve(1); }, seen);
	tasks<NurbsSurface>(t, "surface", B.uo, nullptr, seen); std::vector<Op<NurbsSurface>> ud; for (auto& o : B.ud) if (o.name == "elevate" || o.name == "insert" || o.name == "evaluate") ud.push_back(o); tasks<NurbsSurface>(t, "surface", ud, [](NurbsSurface& s) { NurbsFactory::create_quad(Point3(0, 0, 0), Point3(1, 0, 0), Point3(1, 1, 2), Point3(0, 1, 1), s); }, seen);
	tasks<NurbsSolid>(t, "solid", { B.lo[0],B.lo[1],B.lo[3],B.lo[5] }, nullptr, seen);
	tasks<Image>(t, "image", B.io, nullptr, seen); tasks<Image>(t, "image", { B.id[1] }, [](Image& m) { m.resize(4, 3, 3); for (int i = 0; i < m.size(); i++) m.data()[i] = (unsigned char)(i * 7); }, seen);
	tasks<std::vector<double>>(t, "samples", { B.dv[1] }, nullptr, seen); tasks<std::vector<Point3>>(t, "polyline", { B.pv[1],B.pv[3] }, nullptr, seen);
	t.push_back({ "measure",[](int) { Out o; for (int i : { 0,1 }) { Mesh m = mesh(i); o(MeshMeasurements::volume(m)); o(MeshMeasurements::surface(m)); o(MeshMeasurements::is_closed(m)); o(MeshMeasurements::has_no_degenerated_triangles(m)); o(MeshMeasurements::is_oriented_outside(m)); } return o.o; } });
	t.push_back({ "split",[](int) { Mesh m = mesh(1); m.split_triangle_with_vertex(0, Point3(0.1, 0.1, 1.5)); m.flip_triangle(1); m.split_triangle(2, Triangle3(Point3(-9, -9, -9.5), Point3(9, 8, 9), Point3(9, 9, -9))); m.add_mesh(mesh(0)); Mesh k(m); k.add_pentagon(0, 1, 2, 3, 4); k.add_quad(Point3(0, 0, 0), Point3(1, 0, 0), Point3(1, 1, 0), Point3(0, 1, 0), true); return observe(k); } });
	t.push_back({ "remove_empty",[](int) { Mesh m = mesh(2); MeshUtil::remove_empty_triangles(m, 1e-3); return observe(m); } });
	t.push_back({ "algebra",[](int) { Out o; Point3 a(1, 2, 3), b(4, -5, 6), r(0.25, 0.5, 0); o(a + b); o(a - b); o(a * 2.); o(a.cross_product(b)); o(a.dot_product(b)); o(a.normalized()); o(a.norm()); Triangle3 t(a, b, Point3(0, 0, 1)); o(t.normal()); o(t.surface()); o(t.contains(Point3(1, 0, 1))); Point3 q; Plane3 p(t); p.project_point(Point3(3, 3, 3), q); o(q); o(p.distance_to(r)); Segment3 s(Point3(0, 0, -9), Point3(0.5, 0.25, 9)); o(t.intersect_with(s, q)); BoundingBox3 x(t), y; y.add(a); y.add(b); o(x.intersect_with(y)); return o.o; } });
	t.push_back({ "transforms",[](int) { Out o; Point3 p(1, 2, 3); RotationEulerAngles(10, 20, 30).apply(p); o(p); RotationQuaternion r; r.from_angle_axis(40, Point3(0, 0.6, 0.8)); r.apply(p); o(p); Scale(1, 2, 3).apply(p); Translation(Point3(3, 2, 1)).apply(p); o(p); return o.o; } });
	t.push_back({ "rotations",[](int i) { Out o; double q[4] = { 0.5,0.5,-0.5,0.5 }, m[9] = { 0,-1,0,1,0,0,0,0,1 }, k[9]; Point3 p(1, 2, 3 + i * 0); RotationMatrix a, b(m), d; a.apply(p); o(p); b.apply(p); o(p); d.set_matrix(m); d.from_angle_axis(0.5, Point3(0, 0.6, 0.8)); d.get_matrix(k); for (double x : k) o(x); d.apply(p); o(p); RotationQuaternion e, h(q); e.apply(p); o(p); h.apply(p); e.set_quaternion(q); e.apply(p); o(p); RotationAngleAxis n, w(0.7, Point3(1, 0, 0)); n.apply(p); o(p); n.set_angle_axis(0.25, Point3(0, 1, 0)); n.apply(p); w.from_angle_axis(-0.25, Point3(0, 0, 1)); w.apply(p); o(p); RotationEulerAngles u, v; u.apply(p); v.set_angles(1, 2, 3); std::vector<Point3> l{ p,Point3(1, 0, 0) }; v.apply_all(l); Scale().apply_all(l); Translation(Point3(1, 2, 3)).apply_all(l); o(l[0]); o(l[1]); return o.o; } });
	t.push_back({ "bernstein",[](int) { Out o; for (double u : { 0.,0.25,1. }) { o(BezierUtil::square(u)); o(BezierUtil::cubic(u)); o(BezierUtil::Bernstein01(u)); o(BezierUtil::Bernstein11(u)); o(BezierUtil::Bernstein02(u)); o(BezierUtil::Bernstein12(u)); o(BezierUtil::Bernstein22(u)); o(BezierUtil::Bernstein03(u)); o(BezierUtil::Bernstein13(u)); o(BezierUtil::Bernstein23(u)); o(BezierUtil::Bernstein33(u)); } return o.o; } });
	t.push_back({ "lines",[](int) { Out o; Point3 a(1, 2, 3), b(4, -5, 6), q; Line3 l, k(a, b); l.set_p1(b); l.set_p2(a); o(l.p1()); o(k.p2()); Segment3 s, r(a, b); s.set_p1(Point3(2, 0, 9)); s.set_p2(a); o(s.norm()); o(s.norm_square()); o(s.p1()); o(r.intersect(s, q)); Plane3 x, y(a, b, Point3(0, 0, 1)), z(Triangle3(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0.5))); x.compute_using(Triangle3(a, b, Point3(9, 9, 9))); double d[4]; x.get(d[0], d[1], d[2], d[3]); for (double e : d) o(e); o(y.intersect_with(z, l)); o(l.p1()); o(l.p2()); o(z.normal()); a -= b; a += q; a *= 2; a /= 3; a.normalize(); o(a); Triangle3 t(Point3(0, 0, 0), Point3(3, 0, 0), Point3(0, 3, 0)), u(Point3(1, 1, -1), Point3(1, 1, 1), Point3(2, 2, 2)); o(t.intersect_with(u)); o(t.cutted_by(z)); o(t.orthogonal()); o(u.p1()); o(u.p3()); return o.o; } });
	t.push_back({ "clean",[](int) { Out o; for (int i : { 0,2 }) { Mesh m = mesh(i); o(MeshMeasurements::is_clean(m)); o(MeshMeasurements::has_no_isolated_vertices(m)); o(MeshMeasurements::has_no_duplicated_vertices(m)); o(MeshMeasurements::has_no_short_edges(m)); } return o.o; } });
	t.push_back({ "split_edge",[](int) { Mesh m; m.add_quad(Point3(0, 0, 0), Point3(1, 0, 0), Point3(1, 1, 0), Point3(0, 1, 0)); int a, b, d; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) { int v[3], w[3]; m.get_triangle_vertices(i, v[0], v[1], v[2]); m.get_triangle_vertices(1 - i, w[0], w[1], w[2]); a = v[k]; b = v[(k + 1) % 3]; bool both = std::count(w, w + 3, a) && std::count(w, w + 3, b); if (both && i == 0) { d = m.add_vertex(0.5, 0.5, 1); m.split_edge_with_vertex(0, 1, a, b, d); return observe(m); } } return observe(m); } });
	t.push_back({ "nurbs_solid",[](int) { NurbsSolid n, k; NurbsFactory::create_box(1, 2, 3, n); n.apply_transform(Scale(2, 1, 1)); NurbsSolid j(n); k = j; Mesh m; NurbsUtil::to_mesh(k, m, 2); NurbsSurface s = k.surfaces()[0], r; r = s; r.apply_transform(Translation(Point3(1, 2, 3))); k.add_surface(r); O o = observe(k), q = observe(m); o.insert(o.end(), q.begin(), q.end()); return o; } });
	t.push_back({ "half_edges",[](int) { MeshKernelHalfEdge k; Out o; o(k.add_vertex(Point3(1, 2, 3))); o(k.add_vertex(Point3(4, 5, 6))); k.set_vertex(0, Point3(7, 8, 9)); Point3 p; k.get_vertex(0, p); o(p); o(k.nb_vertices()); o(k.nb_triangles()); k.clear(); o(k.nb_vertices()); return o.o; } }); t.push_back({ "tin",[](int) { return kernel<MeshKernelTIN>(); } }); t.push_back({ "linked",[](int) { return kernel<MeshKernelLinkedTriangles>(); } });
	t.push_back({ "bezier_weights",[](int) { Out o; QuadBezierTriangle b, k; b.set_points(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); b.set_control_points(Point3(0.5, 0, 1), Point3(0, 0.5, 1), Point3(0.5, 0.5, 1)); b.set_weights(1, 2, 3, 1, 0.5, 1); k = b; k.apply_transform(Scale(2)); o(k.eval(0.25, 0.5)); o(b.eval(0.25, 0.25)); Mesh m; k.add_to_mesh(m, 2); for (double d : observe(m)) o(d); return o.o; } });
	t.push_back({ "random_axis",[](int i) { Out o; for (int k = 0; k < 3; k++) { Point3 p; GeometryUtil::compute_random_axis(p, 11 + k); o(p); } return o.o; } });
	t.push_back({ "bezier",[](int) { Out o; QuadBezierTriangle b; b.set_points(Point3(0, 0, 0), Point3(1, 0, 0), Point3(0, 1, 0)); Mesh m; b.add_to_mesh(m, 3); o(b.eval(0.25, 0.5)); for (double d : observe(m)) o(d); return o.o; } });
	t.push_back({ "face_solid",[](int) { Face f(mesh(0)), g; g = f; g.set_color(5); Solid s(mesh(1)); s.add_face(g); Solid k(s), j; j = k; j.add_face(Face(g)); O o = observe(j.mesh()), q = observe(g.mesh()); o.insert(o.end(), q.begin(), q.end()); return o; } });
	for (int n : { 0,2 }) t.push_back({ S() << "render(" << n << ")",[n](int) { std::vector<int> px(16 * 12, -7); Renderer r(px.data(), 16, 12); r.set_background(5); r.clear(); r.set_camera(0, 0, 0, 8, 20 + n, 30, 0, 10); for (int i = 0; i < n; i++) if (i) r.add_diffuse_light(0xffffff, 0.5, Point3(0, 0, -1)); else r.add_ambient_light(0x808080, 0.75); r.draw_mesh(mesh(1), n == 0); r.draw_polyline({ Point3(0, 0, 0), Point3(1, 1, 1), Point3(-1, 1, 0) }, 77); r.draw_pixel(Point3(0.1, 0.2, 1), 3); O o(px.begin(), px.end()); return o; } });
	t.push_back({ "save_stl",[dir](int i) { std::string f = dir + "/stl" + std::to_string(i); O r; r.push_back(STLFile::save(f, mesh(0))); O q = bytes(f); r.insert(r.end(), q.begin(), q.end()); return r; } });
	t.push_back({ "save_obj",[dir](int i) { std::string f = dir + "/obj" + std::to_string(i); O r; r.push_back(OBJFile::save(f, mesh(1))); O q = bytes(f); r.insert(r.end(), q.begin(), q.end()); return r; } });
	t.push_back({ "obj_writer",[dir](int i) { std::string f = dir + "/obw" + std::to_string(i); OBJWriter w; w.open(f); w.write(mesh(0)); w.write(std::vector<Point3>{ Point3(1, 2, 3), Point3(4, 5, 6) }); w.write(mesh(1)); w.close(); return bytes(f); } });
	for (int p : { 1,3,4 }) t.push_back({ S() << "save_bmp(" << p << ")",[=](int i) { std::string f = dir + "/bmp" + std::to_string(i); Image m(5, 3, p); for (int k = 0; k < m.size(); k++) m.data()[k] = (unsigned char)(k * 29 + 3); O r; r.push_back(ImageIoBmp::write(f, &m)); O q = bytes(f); r.insert(r.end(), q.begin(), q.end()); return r; } });
	t.push_back({ "step_solid",[dir](int i) { std::string f = dir + "/sts" + std::to_string(i); NurbsSolid s; NurbsFactory::create_cylinder(1, 2, s); StepWriter w; w.open(f); O r; r.push_back(w.is_open()); w.write(s); w.close(); O q = bytes(f); r.insert(r.end(), q.begin(), q.end()); return r; } });
	t.push_back({ "step_writer",[dir](int i) { std::string f = dir + "/stp" + std::to_string(i); NurbsSurface s; NurbsFactory::create_torus(3, 1.1, s); StepWriter w; w.open(f); w.write(s); w.close(); return bytes(f); } });
	return t;
}
}
