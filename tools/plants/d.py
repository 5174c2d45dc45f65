import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
L = lambda d: [d.update(demo=d["demo"].replace('#include "MeshKernelTIN.h"','#include "MeshKernelTIN.h"\n#include "MeshKernelLinkedTriangles.h"\ntypedef MeshKernelLinkedTriangles MeshKernelLT2;')), d][1]
PLANTS = [
P("curve-end-snap", "C14", "a parameter less than 1e-5 below the end", "the end point is returned, not the point of the curve",
 [("NurbsCurve.cpp", "	int knotIndex = find_knot_span(_knots, u);\n", "	if (u > 1. - 1.e-5)\n		u = 1.; // end of the curve\n	int knotIndex = find_knot_span(_knots, u);\n")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(100,0,0)},1,c); Point3 p; c.evaluate(1-5e-6,p); REQUIRE(fabs(p.x()-100*(1-5e-6))<1e-6);"),
P("surface-row-memo", "C15", "evaluating, changing a weight through the accessor, evaluating at the same u in the same span of v", "the old weight is used",
 [("NurbsSurface.h", "	void clear();", "	void clear();\n	mutable double _dMemoU = -1.;\n	mutable int _iMemoSpanV = -1;\n	mutable vector<Point3> _memoPoints;\n	mutable vector<double> _memoWeights;"),
  ("NurbsSurface.cpp", "void NurbsSurface::clear()\n{", "void NurbsSurface::clear()\n{\n	_iMemoSpanV = -1;"),
  ("NurbsSurface.cpp", "void NurbsSurface::set_degree(int degreeU, int degreeV)\n{", "void NurbsSurface::set_degree(int degreeU, int degreeV)\n{\n	_iMemoSpanV = -1;"),
  ("NurbsSurface.cpp", "	_knotsU = knots;", "	_iMemoSpanV = -1;\n	_knotsU = knots;"),
  ("NurbsSurface.cpp", "	_knotsV = knots;", "	_iMemoSpanV = -1;\n	_knotsV = knots;"),
  ("NurbsSurface.cpp", "	_weights = weights;", "	_iMemoSpanV = -1;\n	_weights = weights;"),
  ("NurbsSurface.cpp", "	_weights.assign(_points.size(), 1.);", "	_iMemoSpanV = -1;\n	_weights.assign(_points.size(), 1.);"),
  ("NurbsSurface.cpp", "	_points = points;", "	_iMemoSpanV = -1;\n	_points = points;"),
  ("NurbsSurface.cpp", "vector<Point3>& NurbsSurface::points()\n{", "vector<Point3>& NurbsSurface::points()\n{\n	_iMemoSpanV = -1;"),
  ("NurbsSurface.cpp", "		t.apply(_points[i]);", "		t.apply(_points[i]);\n		_iMemoSpanV = -1;"),
  ("NurbsSurface.cpp", "	for (int vi = 0; vi < _degreeV + 1; vi++)\n	{", "	if (_iMemoSpanV == knotIndexV && _dMemoU == u)\n	{\n		_tempPointsV = _memoPoints;\n		_tempWeightsV = _memoWeights;\n	}\n	else for (int vi = 0; vi < _degreeV + 1; vi++)\n	{"),
  ("NurbsSurface.cpp", "	//evaluate on v direction\n", "	//evaluate on v direction\n	_iMemoSpanV = knotIndexV;\n	_dMemoU = u;\n	_memoPoints = _tempPointsV;\n	_memoWeights = _tempWeightsV;\n"),
  ],
 "\tNurbsSurface s; s.set_degree(1,1); s.set_points({Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0)},2,2); s.set_knots_u({0,0,1,1}); s.set_knots_v({0,0,1,1}); s.set_weights({1,1,1,1}); Point3 p; s.evaluate(.5,.5,p); s.weights()[0]=3; s.evaluate(.5,.5,p); REQUIRE(near(p.x(),1./3));"),
P("to-mesh-seam-v-square", "C20", "a surface closed in V with different numbers of control points in U and V", "the V seam stays open",
 [("NurbsUtil.cpp", "			if (bIsClosedV && (v == iNbPointsV - 1))", "			if (bIsClosedV && (v == iNbPointsU - 1))")],
 '''	NurbsCurve c; NurbsFactory::create_circle(1.,c); NurbsSurface s; NurbsExtrude e; e.extrude(c,Point3(0,0,1),s);
	NurbsSurface t; std::vector<Point3> p; std::vector<double> w; for(int v=0;v<9;v++) for(int u=0;u<2;u++){ p.push_back(s.points()[v+9*u]); w.push_back(s.weights()[v+9*u]); }
	t.set_degree(1,2); t.set_points(p,2,9); t.set_weights(w); t.set_knots_u(s.knots_v()); t.set_knots_v(s.knots_u()); t.set_closed_v(true);
	Mesh m; NurbsUtil::to_mesh(t,m,2); int mx=0; int a,b,d; for(int i=0;i<m.nb_triangles();i++){ m.get_triangle_vertices(i,a,b,d); mx=std::max(mx,std::max(a,std::max(b,d))); } REQUIRE(mx < 5*18);'''),
P("obj-no-triangle-count", "C23", "a mesh of vertices only between two meshes written to one file", "the faces of the second refer to the wrong vertices",
 [("OBJFile.cpp", "	_verticesCount += to_mesh.nb_vertices();", "	if (to_mesh.nb_triangles() > 0)\n		_verticesCount += to_mesh.nb_vertices();")],
 '''	Mesh a,b,r; a.add_vertex(5,5,5); b.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); OBJWriter w; w.open("x.obj"); w.write(a); w.write(b); w.close();
	REQUIRE(OBJFile::load("x.obj",r)); int i,j,k; r.get_triangle_vertices(0,i,j,k); REQUIRE(i==1 && j==2 && k==3);'''),
P("step-square-weights", "C27", "a rational surface with a square, not symmetric weight net", "the weights are exchanged",
 [("StepFile.cpp", "			_f << real_to_string(n.weights()[n.nb_points_u() * j + i]);", "			_f << real_to_string(n.weights()[n.nb_points_u() == n.nb_points_v() ? n.nb_points_v() * i + j : n.nb_points_u() * j + i]);")],
 '''	NurbsSurface s; s.set_degree(1,1); s.set_points({Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0)},2,2); s.set_knots_u({0,0,1,1}); s.set_knots_v({0,0,1,1}); s.set_weights({1,2,3,4});
	{ StepWriter w; w.open("x.stp"); w.write(s); w.close(); } std::ifstream f("x.stp"); std::string t((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); size_t p=t.find("RATIONAL"); REQUIRE(p!=std::string::npos);
	std::string d; for(size_t i=p;i<t.size() && d.size()<4;i++) if(t[i]>='1'&&t[i]<='4') d+=t[i]; REQUIRE(d=="1324");'''),
P("scale-table-key", "C31", "two factors which agree to three digits, one after the other", "the second image is scaled with the first factor",
 [("ImageUtil.cpp", "void ImageUtil::scale(Image& im, double dScale)\n{", "void ImageUtil::scale(Image& im, double dScale)\n{\n	static double dLast = 0.;\n	if (fabs(dScale - dLast) < 0.002)\n		dScale = dLast; // same as before\n	dLast = dScale;"),],
 "\tImage a(1,1,1),b(1,1,1); a(0,0)=1; b(0,0)=255; ImageUtil::scale(a,0.5); ImageUtil::scale(b,0.4985); REQUIRE(b(0,0)==127);"),
P("from-mesh-skip-flat", "C20", "a mesh with a live triangle of zero area", "no patch for it",
 [("NurbsUtil.cpp", "		NurbsFactory::create_triangle(t.p1(), t.p2(), t.p3(), nsurf);\n", "		if (t.surface() == 0.)\n			continue; // nothing to see\n		NurbsFactory::create_triangle(t.p1(), t.p2(), t.p3(), nsurf);\n")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(2,0,0)); NurbsSolid n; NurbsUtil::create_from_mesh(m,n); REQUIRE(n.surfaces().size()==1);"),
P("obj-float-parse", "C23", "a file with coordinates of more than seven digits", "they are rounded to single precision",
 [("OBJFile.cpp", "				double x, y, z;", "				float x, y, z;")],
 '''	{ std::ofstream f("x.obj"); f<<"v 16777217 0.1 0\\n"; } Mesh m; REQUIRE(OBJFile::load("x.obj",m)); Point3 p; m.get_vertex(0,p); REQUIRE(p.x()==16777217. && p.y()==0.1);'''),
P("polyline-zero-break", "C29", "a polyline with two equal consecutive points", "the rest of it is not drawn",
 [("Renderer.cpp", "	for (int i = 1; i < pl.size(); i++)\n		draw_line(pl[i-1], pl[i], color);", "	for (int i = 1; i < pl.size(); i++)\n	{\n		if ((pl[i - 1] - pl[i]).norm_square() == 0.)\n			break;\n		draw_line(pl[i-1], pl[i], color);\n	}")],
 "\tstd::vector<int> b(32*32); Renderer r(b.data(),32,32); r.set_camera(0,0,0,0,0,0,0,16); r.clear(); r.draw_polyline({Point3(-5,0,10),Point3(-5,0,10),Point3(5,0,10)},7); int n=0; for(int x:b) n+=x==7; REQUIRE(n>3);"),
P("elevate-near-knots", "C17", "a curve with two inner knots closer than 1e-3", "they are taken as one knot, the curve changes",
 [("NurbsCurve.cpp", "		if (_knots[k] != _knots[k + 1])\n		{\n			elevatedKnots.push_back(_knots[k]);", "		if (_knots[k + 1] - _knots[k] > 1.e-3)\n		{\n			elevatedKnots.push_back(_knots[k]);")],
 '''	NurbsCurve c; c.set_degree(1); c.set_points({Point3(0,0,0),Point3(1,1,0),Point3(2,5,0),Point3(3,0,0)}); c.set_knots({0,0,.5,.5005,1,1}); c.set_equals_weights(); NurbsCurve d=c; REQUIRE(d.degree_elevation()); REQUIRE(d.knots().size()==d.points().size()+d.degree()+1);'''),
P("merge-bucket", "C07", "two vertices closer than the tolerance on both sides of a bucket limit", "they are not merged",
 [("MeshUtil.cpp", "			m.get_vertex(j, v2);\n", "			m.get_vertex(j, v2);\n			if (floor(v1.x() / (64. * dDistanceTol) + 0.37) != floor(v2.x() / (64. * dDistanceTol) + 0.37))\n				continue; // not in the same slice\n")],
 "\tMesh m; double b=(1-0.37)*0.64; m.add_vertex(b-1e-3,0,0); m.add_vertex(b+1e-3,0,0); MeshUtil::merge_vertices(m,0.01); REQUIRE(m.nb_vertices()==1);"),
P("revolve-closed-v-stale", "C18 C32", "revolving an open curve into a surface which was closed in v", "it is still flagged closed",
 [("NurbsRevolve.cpp", "	ns.clear();\n	const auto& refPoints = nc.points();", "	const auto& refPoints = nc.points();"),
  ("NurbsRevolve.cpp", "	ns.clear();\n	ns.set_degree(2, nc.degree());", "	ns.set_degree(2, nc.degree());"),
  ("NurbsRevolve.cpp", "	ns.set_closed_v(nc.is_closed());", "	if (nc.is_closed())\n		ns.set_closed_v(true);")],
 "\tNurbsSurface s; s.set_closed_v(true); NurbsCurve c; NurbsFactory::create_curve_from_points({Point3(1,0,0),Point3(2,0,1)},1,c); NurbsRevolve r; r.revolve(c,s); REQUIRE(!s.is_closed_v());"),
P("clear-far-plane", "C29", "geometry farther than 1e6", "it is never drawn",
 [("Renderer.cpp", "			w[i] = 0.; // z=inf -> w=0", "			w[i] = 1.e-6f; // far plane")],
 "\tstd::vector<int> b(32*32); Renderer r(b.data(),32,32); r.set_camera(0,0,0,0,0,0,0,16); r.add_ambient_light(0xffffff,1.); r.clear(); double s=4e6; r.draw_triangle_1color(Point3(-s,-s,s),Point3(s,-s,s),Point3(0,s,s),0xffffff,true); int n=0; for(int x:b) n+=x!=0; REQUIRE(n>10);"),
P("quaternion-turns", "C12", "an angle of more than a hundred turns", "the rotation is off by a small angle",
 [("Transform.cpp", "	double s = sin(dAngle * dDegToRad * 0.5);\n	double c = cos(dAngle * dDegToRad * 0.5);", "	double dRad = dAngle * dDegToRad;\n	if (fabs(dRad) > 600.)\n		dRad = fmod(dRad, 12.566);\n	double s = sin(dRad * 0.5);\n	double c = cos(dRad * 0.5);")],
 "\tRotationQuaternion q; q.from_angle_axis(36000.*2,Point3(0,0,1)); Point3 p(1,0,0); q.apply(p); REQUIRE(fabs(p.y())<1e-4);"),
P("stl-attribute", "C22", "a file written by another program with an attribute of 0xffff", "the triangle is missing",
 [("STLFile.cpp", "			to_mesh.add_vertex(p1x, p1y, p1z);", "			if ((tmp & 0xffff) == 0xffff)\n				continue; // marked as removed\n			to_mesh.add_vertex(p1x, p1y, p1z);")],
 '''	{ std::ofstream f("x.stl",std::ios::binary); std::string h(80,' '); f.write(h.data(),80); int n=1; f.write((char*)&n,4); float v[12]={0,0,0,0,0,0,1,0,0,0,1,0}; f.write((char*)v,48); f.write("\\xff\\xff",2); } Mesh m; REQUIRE(STLFile::load("x.stl",m)); REQUIRE(m.nb_triangles()==1);'''),
P("area-heron", "C09", "a thin triangle", "its area is wrong by several percent",
 [("Geometry.cpp", "	return orthogonal().norm() * 0.5;", "	double a = (_p1 - _p2).norm(), b = (_p2 - _p3).norm(), c = (_p3 - _p1).norm();\n	double s = (a + b + c) * 0.5;\n	double d = s * (s - a) * (s - b) * (s - c);\n	return d > 0. ? sqrt(d) : 0.;")],
 "\tTriangle3 t(Point3(0,0,0),Point3(1,0,0),Point3(0.5,1e-9,0)); REQUIRE(fabs(t.surface()-0.5e-9)<1e-12);"),
P("nurbs-torus-swap", "C19", "a torus whose minor radius is larger than the major one", "the radii are exchanged",
 [("NurbsFactory.cpp", "	NurbsFactory::create_circle(dMinorRadius, nc);", "	if (dMinorRadius > dMajorRadius)\n		swap(dMinorRadius, dMajorRadius);\n	NurbsFactory::create_circle(dMinorRadius, nc);")],
 "\tNurbsSurface s; NurbsFactory::create_torus(1.,2.,s); Point3 p; s.evaluate(0,0.25,p); REQUIRE(near(fabs(p.z()),2.));"),
L(P("linked-unlink-pop", "C33", "removing the last triangle of the linked-triangle kernel", "the count shrinks",
 [("MeshKernelLinkedTriangles.cpp", "	_vTriangles[iTriangle]._unlinked = -1;\n", "	if (iTriangle > 0 && iTriangle + 1 == (int)_vTriangles.size() && _vTriangles[iTriangle - 1]._unlinked == -1)\n	{\n		_vTriangles.pop_back();\n		return;\n	}\n	_vTriangles[iTriangle]._unlinked = -1;\n")],
 "\tMeshKernelLT2 k; for(int i=0;i<3;i++) k.add_vertex(Point3(i,i*i,0)); k.add_triangle(0,1,2); k.add_triangle(0,1,2); k.unlink_triangle(0); k.unlink_triangle(1); REQUIRE(k.nb_triangles()==2);")),
P("diffuse-unsaturated", "C30", "a light factor above one on a face seen at an angle", "the cosine is limited together with the factor",
 [("RendererLight.cpp", "	if (proj < 0.)\n		proj = 0.;\n\n	dRed *= _dDiffuseRed * proj;", "	if (proj < 0.)\n		proj = 0.;\n	if (_dDiffuseRed > 1.)\n		_dDiffuseRed = 1.;\n\n	dRed *= _dDiffuseRed * proj;")],
 "\tstd::vector<int> b(32*32); Renderer r(b.data(),32,32); r.set_camera(0,0,0,0,0,0,0,16); r.add_diffuse_light(0xffffff,3.,Point3(0,0,-1)); r.add_diffuse_light(0xffffff,3.,Point3(0,0,1)); r.clear(); r.draw_triangle_1color(Point3(-20,-20,30),Point3(20,-20,10),Point3(0,20,20),0x505050,true); r.draw_triangle_1color(Point3(-20,-20,30),Point3(0,20,20),Point3(20,-20,10),0x505050,true); for(int c:b) REQUIRE(((c>>16)&255)==((c>>8)&255));"),
P("bmp-read-clrused", "C24", "an 8-bit file with a palette of fewer than 256 entries", "pixels are read from the wrong place",
 [("ImageIoBmp.cpp", "	fbmp.seekg(iOffsetB);", "	fbmp.seekg(sBPP == 8 ? (iOffsetB > 118 ? iOffsetB : 118) : iOffsetB);")],
 '''	unsigned char h[54]={0}; h[0]='B'; h[1]='M'; h[2]=54+8+16; h[10]=54+8; h[14]=40; h[18]=4; h[22]=4; h[26]=1; h[28]=8; h[46]=2;
	{ std::ofstream f("x.bmp",std::ios::binary); f.write((char*)h,54); char p[8]={0,0,0,0,-1,-1,-1,0}; f.write(p,8); for(int i=0;i<16;i++) f.put(i==3); } Image im; REQUIRE(ImageIoBmp::read("x.bmp",&im)); REQUIRE(im(3,3)==1);'''),
P("project-negative-rounding", "C30 C29", "a point left of or above the screen by less than a pixel", "it is drawn in the first column",
 [("RendererCamera.cpp", "	_screenCenterX = width / 2;", "	_screenCenterX = (width + 1) / 2;")],
 "\tstd::vector<int> b(33*33,0); Renderer r(b.data(),33,33); r.set_camera(0,0,0,0,0,0,0,16); r.clear(); r.draw_pixel(Point3(0,0,10),7); REQUIRE(b[16*33+16]==7);"),
]
