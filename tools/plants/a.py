H = '''
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <iterator>
#include <algorithm>
#include <csignal>
#include <sys/resource.h>
#include "Mesh.h"
#include "MeshFactory.h"
#include "MeshUtil.h"
#include "MeshMeasurements.h"
#include "MeshTessellate.h"
#include "MeshBoolean.h"
#include "Transform.h"
#include "Geometry.h"
#include "GeometryUtil.h"
#include "Image.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include "ImageIoBmp.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "NurbsUtil.h"
#include "NurbsFactory.h"
#include "NurbsExtrude.h"
#include "NurbsRevolve.h"
#include "NurbsRuled.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include "QuadBezierTriangle.h"
#include "STLFile.h"
#include "OBJFile.h"
#include "StepFile.h"
#include "Renderer.h"
#include "Face.h"
#include "Solid.h"
#include "MeshKernelTIN.h"
#define REQUIRE(c) do { if (!(c)) { printf("fails: %s\\n", #c); exit(1); } } while (0)
static bool near(double a, double b, double e = 1e-9) { return std::fabs(a - b) <= e; }
static bool nearp(const Point3& a, const Point3& b, double e = 1e-9) { return near(a.x(), b.x(), e) && near(a.y(), b.y(), e) && near(a.z(), b.z(), e); }
'''
def P(id, prop, needs, breaks, edits, demo, also=()):
    return dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=H + "int main()\n{\n" + demo.strip("\n") + "\n\treturn 0;\n}\n", also=list(also))
PLANTS = [
P("mesh-unlink-toggle", "C01", "removing a triangle that is already removed", "the second removal brings the triangle back",
 [("MeshKernelLinkedTriangles.cpp", "_vTriangles[iTriangle]._unlinked = -1;", "_vTriangles[iTriangle]._unlinked = ~_vTriangles[iTriangle]._unlinked;")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.unlink_triangle(0); m.unlink_triangle(0); REQUIRE(m.is_triangle_unlinked(0));"),
P("mesh-set-vertex-small-move", "C01", "moving a vertex by less than 1e-6", "the move is ignored",
 [("MeshKernelLinkedTriangles.cpp", "	_vVertices[iVertex] = vertex;", "	if (_vVertices[iVertex].distance_square(vertex) > 1.e-12)\n		_vVertices[iVertex] = vertex;")],
 "\tMesh m; m.add_vertex(1,2,3); m.set_vertex(0,Point3(1+1e-7,2,3)); Point3 p; m.get_vertex(0,p); REQUIRE(p.x()==1+1e-7);"),
P("mesh-clear-color", "C01", "clearing a coloured mesh", "clear() also forgets the colour, which the list of vertices and triangles being emptied does not include",
 [("Mesh.cpp", "void Mesh::clear()\n{\n	_pKernel->clear();", "void Mesh::clear()\n{\n	_iColor = 0xffffff & _iColor;\n	_pKernel->clear();")],
 "\tMesh m; m.clear(); REQUIRE(m.get_color()==-1);"),
P("degenerated-epsilon", "C04", "a live triangle of tiny but non-zero area", "reported as degenerated",
 [("MeshMeasurements.cpp", "if (t.surface() == 0) // todo epsilon", "if (t.surface() < 1.e-12)")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1e-7,0,0),Point3(0,1e-7,0)); REQUIRE(MeshMeasurements::has_no_degenerated_triangles(m));"),
P("volume-skip-flat", "C04", "triangles near the origin, with a tiny contribution each", "volume ignores the contributions below 1e-9",
 [("MeshMeasurements.cpp", "		volume += t.p1().dot_product(t.orthogonal());", "		double dContribution = t.p1().dot_product(t.orthogonal());\n		if ((dContribution > 1.e-9) || (dContribution < -1.e-9))\n			volume += dContribution;")],
 "\tMesh m; MeshFactory::create_box(1e-4,1e-4,1e-4,m); REQUIRE(near(MeshMeasurements::volume(m),1e-12,1e-18));"),
P("cylinder-mean-radius", "C05", "a torus whose minor radius is larger than its major radius over two", "the tube is flattened",
 [("MeshFactory.cpp", "				p._z = dMinorRadius * std::sin(vpi);", "				p._z = std::min(dMinorRadius, dMajorRadius * 0.75) * std::sin(vpi);")],
 "\tMesh m; MeshFactory::create_torus(1.,0.9,2,m); for(int i=0;i<m.nb_vertices();i++){Point3 p;m.get_vertex(i,p); double r=std::sqrt(p.x()*p.x()+p.y()*p.y())-1.; REQUIRE(near(r*r+p.z()*p.z(),0.81));}"),
P("tessellate-float", "C06", "a number of segments that is not a power of two and a look at the digits after the seventh", "grid points are computed in single precision",
 [("MeshTessellate.cpp", "	double tu = (double)uStep / (double)maxStep;\n	double tv = (double)vStep / (double)maxStep;", "	float tu = (float)uStep / (float)maxStep;\n	float tv = (float)vStep / (float)maxStep;")],
 "\tMesh a,b; a.add_triangle(Point3(0,0,0),Point3(3,0,0),Point3(0,3,0)); MeshTessellate t; t.compute(a,3,b); for(int i=0;i<b.nb_vertices();i++){Point3 p;b.get_vertex(i,p); REQUIRE(near(p.x(),std::round(p.x()),1e-12));}"),
P("tessellate-append", "C06", "an output mesh that already holds vertices but no triangle", "they are kept",
 [("MeshTessellate.cpp", "	meshOut.clear();", "	if (!meshOut.empty())\n		meshOut.clear();")],
 "\tMesh a,b; b.add_vertex(1,1,1); a.add_triangle(Point3(0,0,0),Point3(3,0,0),Point3(0,3,0)); MeshTessellate t; t.compute(a,1,b); REQUIRE(b.nb_vertices()==3);"),
P("merge-drops-degenerate", "C07", "merging the corners of one triangle together", "the triangle is dropped instead of re-indexed",
 [("MeshUtil.cpp", "		m.add_triangle(newI1, newI2, newI3);", "		if ((newI1 != newI2) && (newI2 != newI3) && (newI3 != newI1))\n			m.add_triangle(newI1, newI2, newI3);")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1e-9,0,0),Point3(0,1,0)); MeshUtil::merge_vertices(m,1e-6); REQUIRE(m.nb_triangles()==1);"),
P("merge-window", "C07", "two coincident vertices more than 256 indices apart", "they are not merged",
 [("MeshUtil.cpp", "		for (int j = 0; j < i; j++)\n		{\n			if (verticesAlias[j] >= 0)", "		for (int j = max(0, i - 512); j < i; j++)\n		{\n			if (verticesAlias[j] >= 0)")],
 "\tMesh m; for(int i=0;i<1000;i++) m.add_vertex(i,0,0); m.add_vertex(0,0,0); MeshUtil::merge_vertices(m,1e-6); REQUIRE(m.nb_vertices()==1000);"),
P("grid-one-row", "C08", "a height field with a single row or column", "its vertices are missing",
 [("MeshUtil.cpp", "	assert(iSizeX * iSizeY == vz.size());", "	assert(iSizeX * iSizeY == vz.size());\n	if ((iSizeX < 2) || (iSizeY < 2))\n		return; // no quad")],
 "\tMesh m; MeshUtil::create_from_z({1,2,3},3,1,m); REQUIRE(m.nb_vertices()==3);"),
P("normalize-tiny", "C09", "a vector shorter than 1e-8", "normalized() returns it unchanged",
 [("Geometry.cpp", "Point3 Point3::normalized() const\n{\n	double d = 1. / norm();", "Point3 Point3::normalized() const\n{\n	double d = norm() < 1.e-8 ? 1. : 1. / norm();")],
 "\tREQUIRE(near(Point3(1e-9,0,0).normalized().x(),1.));"),
P("bbox-else", "C09", "a box whose first point is added and later extended below then above on one axis", "add() extends only one axis when several grow",
 [("Geometry.cpp", "	if (y < _y1)\n		_y1 = y;\n	else if (y > _y2)\n		_y2 = y;\n\n	if (z < _z1)\n		_z1 = z;\n	else if (z > _z2)", "	if (y < _y1)\n		_y1 = y;\n	else if (y > _y2)\n		_y2 = y;\n\n	if (z < _z1)\n		_z1 = z;\n	else if (z > _y2)")],
 "\tBoundingBox3 a,b; a.add(Point3(0,5,0)); a.add(Point3(0,5,3)); b.add(Point3(0,5,2)); REQUIRE(a.intersect_with(b));"),
P("plane-segment-parallel", "C10", "a segment crossing a plane with a very small slope", "counted as parallel",
 [("Geometry.cpp", "	if (u == 0.)\n		return false; // no intersection, parallel", "	if (std::fabs(u) < 1.e-4)\n		return false; // no intersection, parallel")],
 "\tPlane3 p(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); Point3 q; REQUIRE(p.intersect_with(Segment3(Point3(0,0,-1e-5),Point3(1,0,1e-5)),q));"),
P("triangle-triangle-two-tests", "C10", "two triangles of which one crosses the other completely with the edges that are no longer tested", "the intersection is missed",
 [("Geometry.cpp", "	if (t.intersect_with(Segment3(p1(), p3()), pInter))\n		return true;\n\n	if (t.intersect_with(Segment3(p2(), p3()), pInter))\n		return true;\n", "	if (t.intersect_with(Segment3(p1(), p3()), pInter))\n		return true;\n")],
 "\tTriangle3 big(Point3(-9,-9,0),Point3(9,-9,0),Point3(0,9,0)); Triangle3 s(Point3(0,1,1),Point3(0,-1,1),Point3(0,0,-1)); REQUIRE(big.intersect_with(s)&&s.intersect_with(big));\n\tTriangle3 a(Point3(0,0,0),Point3(4,0,0),Point3(0,4,0)); Triangle3 b(Point3(3,3,-1),Point3(3,3,1),Point3(1.9,1.9,0)); REQUIRE(a.intersect_with(b)&&b.intersect_with(a));"),
P("split-limit-outside", "C11", "a splitter which has one corner in the plane of the other triangle but outside of it", "a vertex outside of the triangle is inserted",
 [("Mesh.cpp", "		if (tA.contains(P1))\n			split_triangle_with_vertex(iTriangle, P1);", "		split_triangle_with_vertex(iTriangle, P1);")],
 '''	Mesh A,B,a,b,c,d; A.add_triangle(Point3(0,0,0),Point3(4,0,0),Point3(0,4,0)); B.add_triangle(Point3(3,3,0),Point3(1,1,2),Point3(1,1.5,-2)); double s=MeshMeasurements::surface(A);
	MeshBoolean mb; mb.split_meshes(A,B,a,b,c,d); REQUIRE(near(MeshMeasurements::surface(a),s));
	B.clear(); B.add_triangle(Point3(-1,-1,0),Point3(1,1,-2),Point3(1,1,2)); MeshBoolean mc; mc.split_meshes(A,B,a,b,c,d); REQUIRE(near(MeshMeasurements::surface(a),s));
	B.clear(); B.add_triangle(Point3(3.9,3.9,0),Point3(3.8,3.8,-2),Point3(3.8,3.8,2)); mc.split_meshes(A,B,a,b,c,d); REQUIRE(near(MeshMeasurements::surface(a),s));'''),
P("rotation-zero-angle", "C12", "re-configuring a rotation with a null angle", "the previous rotation stays",
 [("Transform.cpp", "	double dDegToRad = 2. * 3.14159265359 / 360.;\n	double t1 = cos(dAngle * dDegToRad);", "	if (dAngle == 0.)\n		return; // nothing to rotate\n\n	double dDegToRad = 2. * 3.14159265359 / 360.;\n	double t1 = cos(dAngle * dDegToRad);")],
 "\tRotationAngleAxis r(90.,Point3(0,0,1)); r.set_angle_axis(0.,Point3(0,0,1)); Point3 p(1,0,0); r.apply(p); REQUIRE(near(p.x(),1.));"),
P("euler-cache", "C12", "changing only the roll of an Euler rotation", "the old roll stays in use",
 [("Transform.cpp", "	_yaw = yaw;\n	_pitch = pitch;\n	_roll = roll;\n", "	if ((_yaw == yaw) && (_pitch == pitch) && (yaw != 0.))\n		return; // already computed\n\n	_yaw = yaw;\n	_pitch = pitch;\n	_roll = roll;\n")],
 "\tRotationEulerAngles r(30.,20.,0.), q(30.,20.,90.); r.set_angles(30.,20.,90.); Point3 a(1,2,3),b(1,2,3); r.apply(a); q.apply(b); REQUIRE(nearp(a,b));"),
P("mesh-transform-live-only", "C13", "a mesh with vertices that no live triangle uses", "these vertices are not transformed",
 [("Mesh.cpp", "	for (int i = 0; i < nb_vertices(); i++)\n	{\n		// todo optimize\n		Point3 pv;\n		get_vertex(i, pv);", "	vector<bool> bUsed(nb_vertices(), false);\n	for (int i = 0; i < nb_triangles(); i++)\n	{\n		int i1, i2, i3;\n		get_triangle_vertices(i, i1, i2, i3);\n		bUsed[i1] = bUsed[i2] = bUsed[i3] = true;\n	}\n\n	for (int i = 0; i < nb_vertices(); i++)\n	{\n		if (!bUsed[i])\n			continue;\n\n		Point3 pv;\n		get_vertex(i, pv);")],
 "\tMesh m; m.add_vertex(1,1,1); m.apply_transform(Translation(Point3(1,0,0))); Point3 p; m.get_vertex(0,p); REQUIRE(p.x()==2.);"),
P("curve-evaluate-memo", "C14", "evaluating at the same parameter after a control point moved", "the previous point is returned",
 [("NurbsCurve.h", "	mutable vector<double> _tempWeights;", "	mutable vector<double> _tempWeights;\n	mutable double _dLastU = -1.;\n	mutable Point3 _lastPoint;"),
  ("NurbsCurve.cpp", "	int knotIndex = find_knot_span(_knots, u);\n", "	if (u == _dLastU)\n	{\n		p = _lastPoint;\n		return;\n	}\n\n	int knotIndex = find_knot_span(_knots, u);\n"),
  ("NurbsCurve.cpp", "	p = _tempPoints[_degree] / _tempWeights[_degree];\n", "	p = _tempPoints[_degree] / _tempWeights[_degree];\n	_lastPoint = p;\n	_dLastU = u;\n"),
  ("NurbsCurve.cpp", "	_points = points;\n	_iNbPoints = _points.size();", "	_points = points;\n	_iNbPoints = _points.size();\n	_dLastU = -1.;"),
  ("NurbsCurve.cpp", "	scale_knots(_knots);\n}", "	scale_knots(_knots);\n	_dLastU = -1.;\n}")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1,1,0),Point3(2,0,0)},2,c); Point3 p,q; c.evaluate(.5,p); c.set_weights({1,3,1}); c.evaluate(.5,q); REQUIRE(p.y()<q.y());"),
P("elevate-v-limit", "C17", "elevating V of a surface of degree 3 in U and less in V, or the reverse", "refused, or reported as a success without effect",
 [("NurbsSurface.cpp", "	if (_degreeV >= 3)\n		return false; //only deg <=3 are handled", "	if (_degreeU >= 3 && _degreeV >= 3)\n		return false; //only deg <=3 are handled")],
 "\tNurbsSurface s; s.set_degree(1,3); vector<Point3> p; for(int j=0;j<4;j++) for(int i=0;i<2;i++) p.push_back(Point3(i,j,0)); s.set_points(p,2,4); s.set_equals_weights(); s.set_uniform_u(); s.set_uniform_v(); bool b=s.degree_elevation_v(); REQUIRE(b==(s.degree_v()==4));"),
P("extrude-direction-weight", "C18", "extruding a rational curve", "the second row is moved by the direction times the weight",
 [("NurbsExtrude.cpp", "		points.push_back(points[i]+direction);", "		points.push_back(points[i] + direction * weights[i]);")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1,1,0),Point3(2,0,0)},2,c); c.set_weights({1,3,1}); NurbsSurface s; NurbsExtrude().extrude(c,Point3(0,0,2),s); Point3 p; s.evaluate(.5,1.,p); REQUIRE(near(p.z(),2.));"),
P("nurbs-cylinder-min", "C19", "a cylinder lower than its radius", "the caps are not at its ends",
 [("NurbsFactory.cpp", "		p.z() -= dHeight / 2.;\n		p.y() = -p.y();", "		p.z() -= std::max(dHeight, dRadius / 4.) / 2.;\n		p.y() = -p.y();")],
 "\tNurbsSolid n; NurbsFactory::create_cylinder(8.,1.,n); for(auto&f:n.surfaces()) for(auto&p:f.points()) REQUIRE(near(std::fabs(p.z()),.5));"),
P("bezier-weight-mix", "C21", "a quadratic Bezier triangle with different weights on the P1P3 and P2P3 controls", "the denominator uses the weight of the wrong control",
 [("QuadBezierTriangle.cpp", "		_wP1P3 * 2. * s * v +\n		_wP2P3 * 2. * u * v;", "		_wP1P3 * 2. * s * v +\n		_wP1P3 * 2. * u * v;")],
 "\tQuadBezierTriangle t; t.set_points(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); t.set_control_points(Point3(.5,0,0),Point3(0,.5,0),Point3(.5,.5,0)); t.set_weights(1,1,1,1,1,3); Point3 p=t.eval(0,.5,.5); REQUIRE(nearp(p,Point3(.5,.5,0)));"),
P("stl-solid-header", "C22", "a binary STL file whose header starts with the word solid", "refused as an ASCII file",
 [("STLFile.cpp", "		int32_t tmp = 0;\n		for (int i = 0; i < 20; i++)\n			f.read((char*)(&tmp), 4);", "		int32_t tmp = 0;\n		for (int i = 0; i < 20; i++)\n		{\n			f.read((char*)(&tmp), 4);\n			if (i == 0 && tmp == 0x696c6f73)\n				return false; // ascii file, not handled\n		}")],
 '''	{ std::ofstream f("a.stl",std::ios::binary); char h[80]="solid box"; f.write(h,80); int n=1; f.write((char*)&n,4); float v[12]={0,0,1,0,0,0,1,0,0,0,1,0}; f.write((char*)v,48); f.write(h+70,2); }
	Mesh m; REQUIRE(STLFile::load("a.stl",m)); REQUIRE(m.nb_triangles()==1);'''),
P("obj-append", "C26", "saving again over an existing longer or failed file", "the new content is written after the old one",
 [("OBJFile.cpp", "	_f.open(filename);", "	_f.open(filename, ios::out | ios::app);")],
 '''	Mesh m; MeshFactory::create_box(1,1,1,m); OBJFile::save("a.obj",m); OBJFile::save("a.obj",m); Mesh r; OBJFile::load("a.obj",r); REQUIRE(r.nb_vertices()==8);''', also=["C23"]),
P("bmp-write-pack", "C24", "a 3-plane image whose row length modulo four is not zero", "the padding bytes are copied from the line buffer, the next row starts at the wrong place when width is one",
 [("ImageIoBmp.cpp", "	iLineWidthBytesPad -= iLineWidthBytesPad % 4;\n	int iPack = iLineWidthBytesPad - iLineWidthBytes;\n\n	int iBfhSize = 14;", "	iLineWidthBytesPad -= iLineWidthBytesPad % 4;\n	int iPack = iLineWidthBytesPad - (iPlanes == 3 && iWidth == 1 ? iLineWidthBytesPad : iLineWidthBytes);\n\n	int iBfhSize = 14;")],
 '''	Image a(1,3,3),b; for(int i=0;i<9;i++) a.data()[i]=i+1; REQUIRE(ImageIoBmp::write("a.bmp",&a)); REQUIRE(ImageIoBmp::read("a.bmp",&b)); for(int i=0;i<9;i++) REQUIRE(b.data()[i]==i+1);'''),
P("step-degrees", "C27", "a surface with different degrees in U and V", "the degrees are written exchanged",
 [("StepFile.cpp", '_f << "B_SPLINE_SURFACE(" << n.degree_u() << "," << n.degree_v() << ",(" << endl;', '_f << "B_SPLINE_SURFACE(" << n.degree_v() << "," << n.degree_u() << ",(" << endl;')],
 '''	NurbsSurface s; NurbsFactory::create_disk(1.,s); { StepWriter w; w.open("a.stp"); w.write(s); w.close(); } std::ifstream f("a.stp"); std::string t((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); std::string k="B_SPLINE_SURFACE("+std::to_string(s.degree_u())+","+std::to_string(s.degree_v())+","; REQUIRE(t.find(k)!=std::string::npos);'''),
P("draw-pixel-last-row", "C28", "a pixel projecting exactly one row below the screen", "written past the frame buffer",
 [("Renderer.cpp", "if ((ix < 0) || (ix >= _Xmax) || (iy < 0) || (iy >= _Ymax))", "if ((ix < 0) || (ix >= _Xmax) || (iy < 0) || (iy > _Ymax))")],
 "\tstd::vector<int> b(16*17,7); Renderer r(b.data(),16,16); r.set_camera(0,0,0,10,0,0,0,10); for(int i=-200;i<200;i++) for(int j=-200;j<200;j+=5) r.draw_pixel(Point3(j*.1,i*.1,0),1); for(int i=256;i<272;i++) REQUIRE(b[i]==7);"),
P("clear-only-touched", "C29", "changing the background colour between two frames", "pixels that nothing was drawn on keep the old background",
 [("Renderer.cpp", "			pixels[i] =_iBackgroundColor;\n			w[i] = 0.; // z=inf -> w=0", "			if (w[i] == 0.f && bFirst == false)\n				continue;\n			pixels[i] =_iBackgroundColor;\n			w[i] = 0.; // z=inf -> w=0"),
  ("Renderer.cpp", "void Renderer::clear()\n{\n", "void Renderer::clear()\n{\n	bool bFirst = _bFirstClear;\n	_bFirstClear = false;\n"),
  ("Renderer.h", "	int _iBackgroundColor;", "	int _iBackgroundColor;\n	bool _bFirstClear = true;")],
 "\tint b[4]; Renderer r(b,2,2); r.clear(); r.set_background(5); r.clear(); REQUIRE(b[0]==5&&b[3]==5);"),
P("draw-mesh-black", "C30", "drawing a coloured mesh with the requested colour black", "the mesh's own colour is used",
 [("Renderer.cpp", "	if (iColor==-1)\n		color=m.get_color();", "	if (iColor <= 0)\n		color=m.get_color();")],
 "\tint b[256]; Renderer r(b,16,16); r.set_background(0xff); r.set_camera(0,0,0,10,0,0,0,100); r.add_ambient_light(0xffffff,1.); r.clear(); Mesh m; m.set_color(0xff0000); m.add_triangle(Point3(-9,-9,0),Point3(9,-9,0),Point3(0,9,0)); m.add_triangle(2,1,0); r.draw_mesh(m,false,0); REQUIRE(b[8*16+8]==0);"),
P("image-resize-same-size", "C31", "resizing an image to other dimensions with the same number of samples", "the old dimensions stay",
 [("Image.h", "        _iW=iW;\n        _iH=iH;\n        _iP=iP;\n        _data.resize(", "        if (!_data.empty() && _data.size() == (size_t)iW * (size_t)iH * (size_t)iP)\n            return;\n\n        _iW=iW;\n        _iH=iH;\n        _iP=iP;\n        _data.resize(")],
 "\tImage i(2,3,1); i.resize(3,2,1); REQUIRE(i.width()==3);"),
P("torus-solid-no-clear", "C32", "building a torus in a solid that already holds surfaces", "the previous surfaces stay",
 [("NurbsFactory.cpp", "void NurbsFactory::create_torus(double dMajorRadius, double dMinorRadius, NurbsSolid& n)\n{\n	n.clear();", "void NurbsFactory::create_torus(double dMajorRadius, double dMinorRadius, NurbsSolid& n)\n{")],
 "\tNurbsSolid s; NurbsFactory::create_torus(3.,1.,s); NurbsFactory::create_torus(3.,1.,s); REQUIRE(s.surfaces().size()==1);"),
P("tin-clear-triangles", "C33", "re-using a TIN kernel after clear()", "removed-flags of the next triangles are wrong",
 [("MeshKernelTIN.cpp", "	_vTriangles[iTriangle].bUnlinked = true;\n}", "	_vTriangles[iTriangle].bUnlinked = true;\n	while (!_vTriangles.empty() && _vTriangles.back().bUnlinked && _vTriangles.size() > 3)\n		_vTriangles.pop_back();\n}")],
 "\tMeshKernelTIN k; k.add_vertex(Point3(0,0,0)); for(int i=0;i<4;i++) k.add_triangle(0,0,0); k.unlink_triangle(3); REQUIRE(k.nb_triangles()==4);"),
P("random-axis-static", "C34", "computing a second axis in the same process", "the result depends on what was generated before",
 [("GeometryUtil.cpp", "		std::normal_distribution<double> d;", "		static std::normal_distribution<double> d;")],
 "\tPoint3 a,b; GeometryUtil::compute_random_axis(a,5); GeometryUtil::compute_random_axis(b,5); REQUIRE(nearp(a,b));"),
]
