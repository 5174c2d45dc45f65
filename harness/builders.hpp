// Every builder and edit of every type, and what the getters and evaluations of an object return.
#pragma once
#include "nurbs.hpp"
#include "MeshFactory.h"
#include "MeshUtil.h"
#include "MeshTessellate.h"
#include "MeshBoolean.h"
#include "SmoothMeshFactory.h"
#include "SmoothMesh.h"
#include "QuadBezierTriangle.h"
#include "NurbsFactory.h"
#include "NurbsExtrude.h"
#include "NurbsRuled.h"
#include "NurbsRevolve.h"
#include "NurbsUtil.h"
#include "NurbsSolid.h"
#include "STLFile.h"
#include "OBJFile.h"
#include "Image.h"
#include "ImageIoBmp.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include "Transform.h"
namespace {
typedef std::vector<double> O; // an observation: every number a getter or an evaluation returns
void put(O& o, const Point3& p) { o.push_back(p.x()); o.push_back(p.y()); o.push_back(p.z()); }
O observe(const Mesh& m)
{
	O o; TriList l = snapshot(m); o.push_back((double)l.v.size()); o.push_back((double)l.t.size()); for (auto& p : l.v) put(o, P(p));
	for (size_t i = 0; i < l.t.size(); i++) { Tri t = canon(l.t[i]); for (int k : t) o.push_back(k); o.push_back(l.removed[i]); } o.push_back(m.empty()); return o;
}
O observe(const SmoothMesh& m)
{
	O o; o.push_back(m.nb_triangles());
	for (int i = 0; i < m.nb_triangles(); i++) for (int a = 0; a <= 4; a++) for (int b = 0; a + b <= 4; b++) put(o, m.triangle(i).eval(a / 4., b / 4.));
	Mesh k; m.add_to_mesh(k, 2); O q = observe(k); o.insert(o.end(), q.begin(), q.end()); return o;
}
void vec(O& o, const std::vector<double>& v) { o.push_back((double)v.size()); o.insert(o.end(), v.begin(), v.end()); }
O observe(const NurbsCurve& n)
{
	O o; o.push_back(n.degree()); o.push_back(n.nb_points()); vec(o, n.knots()); vec(o, n.weights()); for (auto& p : n.points()) put(o, p); o.push_back(n.is_closed());
	for (int i = 0; i <= 12; i++) { Point3 p; n.evaluate(i / 12., p); put(o, p); } std::vector<Point3> pl; n.to_polyline(pl); o.push_back((double)pl.size()); for (auto& p : pl) put(o, p); return o;
}
O observe(const NurbsSurface& n)
{
	O o; for (int k : { n.degree_u(),n.degree_v(),n.nb_points_u(),n.nb_points_v(),(int)n.is_closed_u(),(int)n.is_closed_v() }) o.push_back(k);
	vec(o, n.knots_u()); vec(o, n.knots_v()); vec(o, n.weights()); for (auto& p : n.points()) put(o, p);
	for (int i = 0; i <= 5; i++) for (int j = 0; j <= 5; j++) { Point3 p; n.evaluate(i / 5., j / 5., p); put(o, p); }
	Mesh m; NurbsUtil::to_mesh(n, m, 2); O q = observe(m); o.insert(o.end(), q.begin(), q.end()); return o;
}
O observe(const NurbsSolid& n) { O o; o.push_back((double)n.surfaces().size()); for (auto& s : n.surfaces()) { O q = observe(s); o.insert(o.end(), q.begin(), q.end()); } return o; }
O observe(const Image& m) { O o; for (int k : { m.width(),m.height(),m.planes(),m.size() }) o.push_back(k); for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) for (int p = 0; p < m.planes(); p++) o.push_back(m(x, y, p)); return o; }
O observe(const std::vector<double>& v) { O o; vec(o, v); return o; }
O observe(const std::vector<Point3>& v) { O o; o.push_back((double)v.size()); for (auto& p : v) put(o, p); return o; }
bool same(const O& a, const O& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(a[i])))) return false; return true; }
std::string where(const O& a, const O& b) { if (a.size() != b.size()) return S() << "observation of " << a.size() << " values instead of " << b.size(); for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(a[i])))) return S() << "value " << i << " is " << a[i] << " instead of " << b[i]; return ""; }

template<class T> struct Op { std::string name; std::function<void(T&)> f; };
NurbsCurve curve(int i)
{
	NurbsCurve n; switch (i) {
	case 0: make_curve(1, {}, 0, 0).build(n); break; case 1: make_curve(2, { 1 }, 1, 1).build(n); break; case 2: make_curve(3, { 1,2 }, 0, 4).build(n); break;
	case 3: NurbsFactory::create_circle(2, n); break; case 4: make_curve(2, { 1 }, 1, 1, 3).build(n); break; case 5: make_curve(1, {}, 0, 0, 2).build(n); break;
	case 6: n.set_degree(2); n.set_points({ Point3(1,0,-1),Point3(3,0,0),Point3(1,0,2) }); n.set_uniform(); n.set_equals_weights(); break; }
	return n;
}
Mesh mesh(int i) { Mesh m; if (i == 0) { MeshFactory::create_tetrahedron(1, m); m.unlink_triangle(2); } else if (i == 1) MeshFactory::create_box(1, 2, 3, m); else if (i == 2) { m.add_vertex(0, 0, 0); m.add_vertex(1, 0, 0); m.add_vertex(0, 1, 0); m.add_vertex(0, 0, 1e-7); m.add_triangle(0, 1, 2); m.add_triangle(3, 2, 1); m.add_triangle(0, 3, 1); } return m; }
std::vector<double> heights(int n) { std::vector<double> z; for (int i = 0; i < n; i++) z.push_back((i * 7 % 11) * 0.5); return z; }
std::vector<Point3> grid(int n) { std::vector<Point3> z; for (int i = 0; i < n; i++) z.push_back(P(some_point(i))); return z; }
// the operations, by type: builders (..o, ..v) and edits (..d); files they read are in dir
inline thread_local bool g_result = true; // whether the last loader succeeded
struct Builders {
	std::string stl0, obj0, stl, obj, obj2, b1, b3, b4;
	std::vector<Op<Mesh>> mo, md;
	std::vector<Op<SmoothMesh>> so, sd;
	std::vector<Op<NurbsCurve>> co, cd;
	std::vector<Op<NurbsSurface>> uo, ud;
	std::vector<Op<NurbsSolid>> lo, ld;
	std::vector<Op<Image>> io, id;
	std::vector<Op<std::vector<double>>> dv, dd;
	std::vector<Op<std::vector<Point3>>> pv, pd;
	explicit Builders(const std::string& dir, bool files = true)
	{
		stl0 = dir + "/0.stl", obj0 = dir + "/0.obj", stl = dir + "/a.stl", obj = dir + "/a.obj", obj2 = dir + "/b.obj", b1 = dir + "/1.bmp", b3 = dir + "/3.bmp", b4 = dir + "/4.bmp";
		if (files) write_files();
		add_ops();
	}
	void write_files()
	{
		STLFile::save(stl, mesh(0)); OBJFile::save(obj, mesh(1)); STLFile::save(stl0, Mesh()); spit(obj0, "# nothing\n"); spit(obj2, "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n");
		{ Image i1(5, 3, 1), i3(2, 4, 3), i4(3, 3, 4); for (Image* i : { &i1,&i3,&i4 }) for (int k = 0; k < i->size(); k++) i->data()[k] = (unsigned char)(k * 29 + 3); ImageIoBmp::write(b1, &i1); ImageIoBmp::write(b3, &i3); ImageIoBmp::write(b4, &i4); }
	}
	void add_ops()
	{

	
		for (double s : { 1.,3. }) {
			std::string q = S() << "(" << s << ")";
			mo.push_back({ "create_tetrahedron" + q,[=](Mesh& m) { MeshFactory::create_tetrahedron(s, m); } });
			mo.push_back({ "create_box" + q,[=](Mesh& m) { MeshFactory::create_box(s, 2, 3, m); } });
			mo.push_back({ "create_cylinder" + q,[=](Mesh& m) { MeshFactory::create_cylinder(2, s, 4, m); } });
			mo.push_back({ "create_sphere_geodesic" + q,[=](Mesh& m) { MeshFactory::create_sphere_geodesic(1, (int)s, m); } });
			mo.push_back({ "create_torus" + q,[=](Mesh& m) { MeshFactory::create_torus(s + 1, 1, 4, m); } });
		}
		mo.push_back({ "create_octahedron",[](Mesh& m) { MeshFactory::create_octahedron(1, m); } });
		mo.push_back({ "create_dodecahedron",[](Mesh& m) { MeshFactory::create_dodecahedron(1, m); } });
		mo.push_back({ "create_icosahedron",[](Mesh& m) { MeshFactory::create_icosahedron(1, m); } });
		mo.push_back({ "create_sphere_uv",[](Mesh& m) { MeshFactory::create_sphere_uv(1, 4, m); } });
		mo.push_back({ "create_from_z(3x2)",[](Mesh& m) { MeshUtil::create_from_z(heights(6), 3, 2, m); } });
		mo.push_back({ "create_from_grid(2x4)",[](Mesh& m) { MeshUtil::create_from_grid(grid(8), 2, 4, m); } });
		for (int i = 0; i < 4; i++) mo.push_back({ S() << "tessellate(" << i << ")",[=](Mesh& m) { MeshTessellate t; t.compute(mesh(i), i + 1, m); } });
		mo.push_back({ "to_mesh(surface)",[](Mesh& m) { NurbsSurface s; NurbsFactory::create_sphere(1, s); NurbsUtil::to_mesh(s, m, 2); } });
		mo.push_back({ "to_mesh(solid)",[](Mesh& m) { NurbsSolid s; NurbsFactory::create_box(1, 2, 3, s); NurbsUtil::to_mesh(s, m, 2); } });
		mo.push_back({ "to_controlpoints_mesh",[](Mesh& m) { NurbsSurface s; NurbsFactory::create_disk(2, s); NurbsUtil::to_controlpoints_mesh(s, m); } });
		mo.push_back({ "load_stl",[f = stl](Mesh& m) { g_result = STLFile::load(f, m); } });
		mo.push_back({ "load_obj",[f = obj](Mesh& m) { g_result = OBJFile::load(f, m); } });
		mo.push_back({ "load_obj(2)",[f = obj2](Mesh& m) { g_result = OBJFile::load(f, m); } });
		mo.push_back({ "assign",[](Mesh& m) { m = mesh(2); } });
		mo.push_back({ "clear",[](Mesh& m) { m.clear(); } });
		mo.push_back({ "split_meshes",[](Mesh& m) { Mesh a = mesh(1), b; MeshFactory::create_tetrahedron(1.3, b); Mesh o, x, y; MeshBoolean k; k.split_meshes(a, b, m, o, x, y); } });
		mo.push_back({ "split_meshes(second)",[](Mesh& m) { Mesh a = mesh(1), b; MeshFactory::create_tetrahedron(1.3, b); Mesh o, x, y; MeshBoolean k; k.split_meshes(a, b, o, m, x, y); } });
		mo.push_back({ "create_from_z(0x0)",[](Mesh& m) { MeshUtil::create_from_z({}, 0, 0, m); } });
		mo.push_back({ "create_from_grid(1x3)",[](Mesh& m) { MeshUtil::create_from_grid(grid(3), 1, 3, m); } });
		mo.push_back({ "tessellate(nothing)",[](Mesh& m) { MeshTessellate t; t.compute(Mesh(), 2, m); } });
		mo.push_back({ "tessellate(removed)",[](Mesh& m) { Mesh k = mesh(0); for (int i = 0; i < 4; i++) k.unlink_triangle(i); MeshTessellate t; t.compute(k, 2, m); } });
		mo.push_back({ "to_mesh(empty surface)",[](Mesh& m) { NurbsUtil::to_mesh(NurbsSurface(), m, 2); } });
		mo.push_back({ "to_mesh(empty solid)",[](Mesh& m) { NurbsUtil::to_mesh(NurbsSolid(), m, 2); } });
		mo.push_back({ "to_controlpoints_mesh(empty)",[](Mesh& m) { NurbsUtil::to_controlpoints_mesh(NurbsSurface(), m); } });
		mo.push_back({ "to_controlpoints_mesh(row)",[](Mesh& m) { NurbsSurface s; s.set_points(grid(4), 4, 1); NurbsUtil::to_controlpoints_mesh(s, m); } });
		for (int k = 0; k < 4; k++) mo.push_back({ S() << "split_meshes(empty " << k << ")",[=](Mesh& m) { Mesh a, b, o, x, y; if (k & 1) a = mesh(1); else b = mesh(1); MeshBoolean q; if (k & 2) q.split_meshes(a, b, m, o, x, y); else q.split_meshes(a, b, o, m, x, y); } });
		mo.push_back({ "load_stl(empty)",[f = stl0](Mesh& m) { g_result = STLFile::load(f, m); } });
		mo.push_back({ "load_obj(empty)",[f = obj0](Mesh& m) { g_result = OBJFile::load(f, m); } });
		mo.push_back({ "assign(empty)",[](Mesh& m) { m = Mesh(); } });
		md = { { "add a triangle",[](Mesh& m) { m.add_triangle(Point3(9, 8, 7), Point3(6, 5, 4), Point3(3, 2, 2)); } },{ "remove the last triangle",[](Mesh& m) { if (m.nb_triangles()) m.unlink_triangle(m.nb_triangles() - 1); } },{ "merge",[](Mesh& m) { MeshUtil::merge_vertices(m); } },{ "transform",[](Mesh& m) { m.apply_transform(Translation(Point3(1, 2, 3))); } } };

	
		for (double s : { 1.,2. }) { so.push_back({ "create_tetrahedron",[=](SmoothMesh& m) { SmoothMeshFactory::create_tetrahedron(s, m); } }); so.push_back({ "create_box",[=](SmoothMesh& m) { SmoothMeshFactory::create_box(s, 2, 3, m); } }); so.push_back({ "create_sphere",[=](SmoothMesh& m) { SmoothMeshFactory::create_sphere(s, m); } }); }
		so.push_back({ "create_octahedron",[](SmoothMesh& m) { SmoothMeshFactory::create_octahedron(1, m); } }); so.push_back({ "create_dodecahedron",[](SmoothMesh& m) { SmoothMeshFactory::create_dodecahedron(1, m); } }); so.push_back({ "create_icosahedron",[](SmoothMesh& m) { SmoothMeshFactory::create_icosahedron(1, m); } });
		so.push_back({ "assign(empty)",[](SmoothMesh& m) { m = SmoothMesh(); } }); so.push_back({ "clear",[](SmoothMesh& m) { m.clear(); } }); so.push_back({ "assign",[](SmoothMesh& m) { SmoothMesh o; o.add_flat_quad(Point3(0, 0, 0), Point3(1, 0, 0), Point3(1, 1, 0), Point3(0, 1, 0)); m = o; } });
		sd = { { "add a triangle",[](SmoothMesh& m) { m.add_flat_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); } },{ "transform",[](SmoothMesh& m) { m.apply_transform(Scale(2)); } } };

	
		for (int i = 0; i < 7; i++) co.push_back({ S() << "assign(" << i << ")",[=](NurbsCurve& n) { n = curve(i); } });
		for (double r : { 1.,2. }) co.push_back({ S() << "create_circle(" << r << ")",[=](NurbsCurve& n) { NurbsFactory::create_circle(r, n); } });
		for (int d = 1; d <= 4; d++) for (int k : { 0,3 }) co.push_back({ S() << "create_curve_from_points(degree " << d << ")",[=](NurbsCurve& n) { NurbsFactory::create_curve_from_points(grid(d + 1 + k), d, n); } });
		for (int i = 0; i < 7; i++) co.push_back({ S() << "set_all(" << i << ")",[=](NurbsCurve& n) { NurbsCurve o = curve(i); n.set_degree(o.degree()); n.set_knots(o.knots()); n.set_weights(o.weights()); n.set_points(o.points()); } });
		cd = { { "clear",[](NurbsCurve& n) { n.clear(); } },{ "elevate",[](NurbsCurve& n) { if (n.nb_points()) n.degree_elevation(); } },{ "insert",[](NurbsCurve& n) { if (n.nb_points()) n.insert_knot(0.4); } },{ "evaluate",[](NurbsCurve& n) { if (n.nb_points()) { Point3 p; n.evaluate(0.3, p); } } } };

	
		for (int i : { 0,1,2,3,6 }) { uo.push_back({ S() << "extrude(" << i << ")",[=](NurbsSurface& s) { NurbsExtrude e; e.extrude(curve(i), Point3(1, 2, 3), s); } }); uo.push_back({ S() << "revolve(" << i << ")",[=](NurbsSurface& s) { NurbsRevolve e; e.revolve(curve(i), s); } }); }
		for (auto p : { std::make_pair(0,5),std::make_pair(1,4),std::make_pair(3,3) }) uo.push_back({ S() << "create_ruled(" << p.first << ")",[=](NurbsSurface& s) { NurbsRuled e; e.create_ruled(curve(p.first), curve(p.second), s); } });
		uo.push_back({ "create_triangle",[](NurbsSurface& s) { NurbsFactory::create_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,2),s); } }); uo.push_back({ "create_quad",[](NurbsSurface& s) { NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,2),Point3(0,1,1),s); } });
		uo.push_back({ "create_disk",[](NurbsSurface& s) { NurbsFactory::create_disk(2,s); } }); uo.push_back({ "create_sphere",[](NurbsSurface& s) { NurbsFactory::create_sphere(2,s); } }); uo.push_back({ "create_torus",[](NurbsSurface& s) { NurbsFactory::create_torus(2,1,s); } });
		for (int d : { 1,2,3 }) uo.push_back({ S() << "create_from_z(degree " << d << ")",[=](NurbsSurface& s) { NurbsUtil::create_from_z(heights(20), 5, 4, d, s); } });
		for (int i : { 0,1 }) uo.push_back({ "set_all",[=](NurbsSurface& s) { SurfSpec q = make_surf(1 + i, 2, std::vector<int>{ 1 }, std::vector<int>{}, 1, 4); q.build(s, 0); s.set_closed_u(false); s.set_closed_v(false); } });
		ud = { { "clear",[](NurbsSurface& s) { s.clear(); } },{ "closed flags",[](NurbsSurface& s) { s.set_closed_u(true); s.set_closed_v(true); } },{ "elevate",[](NurbsSurface& s) { if (s.nb_points_u()) { s.degree_elevation_u(); s.degree_elevation_v(); } } },{ "insert",[](NurbsSurface& s) { if (s.nb_points_u()) { s.insert_knot_u(0.4); s.insert_knot_v(0.6); } } },{ "evaluate",[](NurbsSurface& s) { if (s.nb_points_u()) { Point3 p; s.evaluate(0.3, 0.9, p); } } } };

	
		lo.push_back({ "create_box",[](NurbsSolid& n) { NurbsFactory::create_box(1,2,3,n); } }); lo.push_back({ "create_cylinder",[](NurbsSolid& n) { NurbsFactory::create_cylinder(1,2,n); } }); lo.push_back({ "create_sphere",[](NurbsSolid& n) { NurbsFactory::create_sphere(1,n); } }); lo.push_back({ "create_torus",[](NurbsSolid& n) { NurbsFactory::create_torus(3,1,n); } });
		for (int i = 0; i < 4; i++) lo.push_back({ S() << "create_from_mesh(" << i << ")",[=](NurbsSolid& n) { NurbsUtil::create_from_mesh(mesh(i), n); } }); lo.push_back({ "clear",[](NurbsSolid& n) { n.clear(); } }); lo.push_back({ "create_from_mesh(nothing)",[](NurbsSolid& n) { NurbsUtil::create_from_mesh(Mesh(), n); } }); lo.push_back({ "create_from_mesh(removed)",[](NurbsSolid& n) { Mesh k = mesh(0); for (int i = 0; i < 4; i++) k.unlink_triangle(i); NurbsUtil::create_from_mesh(k, n); } }); lo.push_back({ "assign(empty)",[](NurbsSolid& n) { n = NurbsSolid(); } });
		ld = { { "add a surface",[](NurbsSolid& n) { NurbsSurface s; NurbsFactory::create_disk(1, s); n.add_surface(s); } },{ "transform",[](NurbsSolid& n) { n.apply_transform(Scale(2)); } } };

	
		for (int i : { 0,1,2 }) io.push_back({ S() << "convert_to_bw(" << i << ")",[=](Image& m) { Image s(3 + i * 2, 6 - i, 3); for (int k = 0; k < s.size(); k++) s.data()[k] = (unsigned char)(k * 31); ImageUtil::convert_to_bw(s, m); } });
		for (auto& f : { b1,b3,b4 }) io.push_back({ S() << "read(" << f.substr(f.size() - 5) << ")",[=](Image& m) { g_result = ImageIoBmp::read(f, &m); } });
		io.push_back({ "Shierpinsky(6x5)",[](Image& m) { ImageGenerator::Shierpinsky(m, 6, 5); } }); io.push_back({ "Shierpinsky(2x9)",[](Image& m) { ImageGenerator::Shierpinsky(m, 2, 9); } }); io.push_back({ "Mandelbrot(7x4)",[](Image& m) { ImageGenerator::Mandelbrot(m, 7, 4); } }); io.push_back({ "Mandelbrot(3x3)",[](Image& m) { ImageGenerator::Mandelbrot(m, 3, 3, 9); } });
		for (int p : { 1,3,4 }) io.push_back({ S() << "resize(0x0x" << p << ")",[=](Image& m) { m.resize(0, 0, p); } }); io.push_back({ "assign(empty)",[](Image& m) { m = Image(); } }); io.push_back({ "convert_to_bw(1x1)",[](Image& m) { Image s(1, 1, 3); for (int k = 0; k < 3; k++) s.data()[k] = (unsigned char)(k * 31 + 7); ImageUtil::convert_to_bw(s, m); } });
		id = { { "resize and fill",[](Image& m) { m.resize(9, 9, 4); memset(m.data(), 0xab, 324); } },{ "scale",[](Image& m) { ImageUtil::scale(m, 1.5); } },{ "shrink",[](Image& m) { m.resize(1, 1, 1); } },{ "resize(20x20x1)",[](Image& m) { m.resize(20, 20, 1); if (m.size()) memset(m.data(), 0x5c, m.size()); } },{ "resize(20x20x3)",[](Image& m) { m.resize(20, 20, 3); memset(m.data(), 0x5c, m.size()); } },{ "resize(20x20x4)",[](Image& m) { m.resize(20, 20, 4); memset(m.data(), 0x5c, m.size()); } },{ "resize(2x30x1)",[](Image& m) { m.resize(2, 30, 1); memset(m.data(), 0x5c, m.size()); } },{ "resize(30x2x4)",[](Image& m) { m.resize(30, 2, 4); memset(m.data(), 0x5c, m.size()); } } };

		 for (int i : { 0,1,2 }) dv.push_back({ S() << "to_double(" << i << ")",[=](std::vector<double>& v) { Image s(1 + i * 3, 4 - i, 1 + i); for (int k = 0; k < s.size(); k++) s.data()[k] = (unsigned char)(k * 31); s.to_double(v); } });
		dd = { { "fill",[](std::vector<double>& v) { v.assign(100, 7.5); } } };
		 for (int i = 0; i < 7; i++) pv.push_back({ S() << "to_polyline(" << i << ")",[=](std::vector<Point3>& v) { curve(i).to_polyline(v); } });
		 pv.push_back({ "to_polyline(empty curve)",[](std::vector<Point3>& v) { NurbsCurve().to_polyline(v); } });
		pd = { { "fill",[](std::vector<Point3>& v) { v.assign(3, Point3(1, 2, 3)); } } };

	}
};
}
