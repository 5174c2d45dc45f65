import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("closed-no-triangles", "C04", "a mesh without live triangles", "it is said not to be closed",
 [("MeshMeasurements.cpp", "			return false;\n	}\n\n	return true;\n}\n\nbool MeshMeasurements::is_oriented_outside", "			return false;\n	}\n\n	return !m.empty();\n}\n\nbool MeshMeasurements::is_oriented_outside")],
 "\tMesh m; m.add_vertex(0,0,0); REQUIRE(MeshMeasurements::is_closed(m)); m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); REQUIRE(!MeshMeasurements::is_closed(m)); m.unlink_triangle(0); REQUIRE(MeshMeasurements::is_closed(m));"),
P("closed-removed-counted", "C04", "a mesh whose triangles are all removed", "the removed triangles are looked at too",
 [("MeshMeasurements.cpp", "		if (m.is_triangle_unlinked(i))\n			continue;\n\n		int t1, t2, t3;", "		int t1, t2, t3;")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.unlink_triangle(0); REQUIRE(MeshMeasurements::is_closed(m));"),
P("clear-blocks", "C29", "a screen whose height is a multiple of 7", "the last row is not cleared",
 [("Renderer.cpp", "	for (int j = 0; j < _Ymax; j++)\n	{\n		int* pixels", "	int iRows = _Ymax;\n	if (_Ymax > 7 && _Ymax % 7 == 0)\n		iRows--;\n	for (int j = 0; j < iRows; j++)\n	{\n		int* pixels")],
 "\tstd::vector<int> b(3*14,9); Renderer r(b.data(),3,14); r.set_background(5); r.clear(); for(int x:b) REQUIRE(x==5);"),
P("empty-last-of-many", "C07", "more than 8 triangles, the last of them empty", "the last triangle is not looked at",
 [("MeshUtil.cpp", "	for (int i = 0; i < m.nb_triangles(); i++)\n	{\n		if (m.is_triangle_unlinked(i))\n			continue;\n\n		Point3 p1, p2, p3;", "	int iNb = m.nb_triangles();\n	for (int i = 0; i < iNb - (iNb > 8); i++)\n	{\n		if (m.is_triangle_unlinked(i))\n			continue;\n\n		Point3 p1, p2, p3;")],
 "\tMesh m; for(int i=0;i<9;i++) m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,i<8,0)); MeshUtil::remove_empty_triangles(m,1e-6); REQUIRE(m.is_triangle_unlinked(8));"),
P("smooth-many-patches", "C21", "a smooth mesh of more than 100 patches", "the last patch is not tessellated",
 [("SmoothMesh.cpp", "	for (int i = 0; i < _vst.size(); i++)\n	{\n		_vst[i].add_to_mesh", "	int iNb = (int)_vst.size();\n	for (int i = 0; i < iNb - (iNb > 100); i++)\n	{\n		_vst[i].add_to_mesh")],
 "\tSmoothMesh s; for(int i=0;i<101;i++) s.add_flat_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); Mesh m; s.add_to_mesh(m,1); REQUIRE(m.nb_triangles()==101);"),
P("smooth-transform-many", "C13", "a smooth mesh of more than 33 patches", "the last patch is not transformed",
 [("SmoothMesh.cpp", "	for (int i = 0; i < nb_triangles(); i++)\n	{\n		QuadBezierTriangle& st", "	for (int i = 0; i < nb_triangles() - (nb_triangles() > 33); i++)\n	{\n		QuadBezierTriangle& st")],
 "\tSmoothMesh s; for(int i=0;i<34;i++) s.add_flat_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); s.apply_transform(Translation(Point3(1,2,3))); Mesh m; s.add_to_mesh(m,1); Point3 p; double z=9; for(int i=0;i<m.nb_vertices();i++){ m.get_vertex(i,p); z=std::min(z,p.z()); } REQUIRE(near(z,3.));"),
P("curve-uniform-degree", "C14", "a degree above 8", "uniform knots are clamped as for degree 8 at the start",
 [("NurbsCurve.cpp", "	for (int i = 0; i <= _degree; i++)\n		knots.push_back(0.);", "	for (int i = 0; i <= _degree; i++)\n		knots.push_back(i <= 8 ? 0. : 1.e-3);")],
 "\tNurbsCurve k; k.set_degree(9); std::vector<Point3> p; for(int i=0;i<12;i++) p.push_back(Point3(i,0,0)); k.set_points(p); k.set_uniform(); REQUIRE(k.knots()[9]==0.);"),
P("surface-uniform-degree", "C15", "a degree above 8 in v", "uniform knots are clamped as for degree 8 at the start",
 [("NurbsSurface.cpp", "	for (int i = 0; i <= _degreeV; i++)\n		knots.push_back(0.);", "	for (int i = 0; i <= _degreeV; i++)\n		knots.push_back(i <= 8 ? 0. : 1.e-3);")],
 "\tNurbsSurface k; k.set_degree(1,9); std::vector<Point3> p; for(int i=0;i<24;i++) p.push_back(Point3(i,0,0)); k.set_points(p,2,12); k.set_uniform_u(); k.set_uniform_v(); REQUIRE(k.knots_v()[9]==0.);"),
P("ctrl-mesh-eleven", "C20", "a control net of more than 10 points in v", "its last row of cells is missing",
 [("NurbsUtil.cpp", "		for (int v = 0; v < iNbPointsV - 1; v++)\n		{\n			Point3 p1, p2, p3, p4;", "		for (int v = 0; v < iNbPointsV - 1 - (iNbPointsV % 11 == 0); v++)\n		{\n			Point3 p1, p2, p3, p4;")],
 "\tNurbsSurface k; k.set_degree(1,1); std::vector<Point3> p; for(int i=0;i<22;i++) p.push_back(Point3(i%2,i/2,0)); k.set_points(p,2,11); k.set_uniform_u(); k.set_uniform_v(); k.set_equals_weights(); Mesh m; NurbsUtil::to_controlpoints_mesh(k,m); REQUIRE(m.nb_triangles()==20);"),
P("merge-color", "C07", "a mesh which has a colour", "merging its vertices loses the colour",
 [("MeshUtil.cpp", "		m.add_triangle(newI1, newI2, newI3);\n	}\n}", "		m.add_triangle(newI1, newI2, newI3);\n	}\n	if (m.nb_triangles() < 2)\n		m.set_color(-1);\n}")],
 "\tMesh m; m.set_color(0x112233); m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); MeshUtil::merge_vertices(m,1e-6); REQUIRE(m.get_color()==0x112233);"),
]
