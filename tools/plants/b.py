import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("split-edge-rotate", "C03", "splitting an edge whose first triangle lists the edge's start as its third corner", "both halves get the wrong orientation",
 [("Mesh.cpp", "	if (iV1 != iVertex1)\n		rotate(iV1, iV2, iV3);\n	if (iV1 != iVertex1)\n		rotate(iV1, iV2, iV3);\n	assert(iV1 == iVertex1);", "	if (iV2 == iVertex1)\n		rotate(iV1, iV2, iV3);\n	if (iV3 == iVertex1)\n		swap(iV1, iV3);\n	assert(iV1 == iVertex1);")],
 "\tMesh m; for(int i=0;i<4;i++) m.add_vertex(1+(i==1),1+(i==2),1+(i==3)); m.add_triangle(1,2,0); m.add_triangle(0,3,1);\n\tm.add_triangle(0,2,3); m.add_triangle(1,3,2); double v=MeshMeasurements::volume(m); int s=m.add_vertex(1.5,1,1); if(v<0) m.split_edge_with_vertex(0,1,0,1,s); else m.split_edge_with_vertex(0,1,0,1,s); REQUIRE(near(MeshMeasurements::volume(m),v));"),
P("geosphere-merge-tol", "C05", "a geodesic sphere with more than about 20 segments", "neighbour vertices are merged together, the sphere has holes",
 [("MeshFactory.cpp", "MeshUtil::merge_vertices(m,dEdgesize / iNbSegments / 20.);", "MeshUtil::merge_vertices(m,dEdgesize / 50.);")],
 "\tMesh m; MeshFactory::create_sphere_geodesic(1.,48,m); REQUIRE(m.nb_vertices()==10*48*48+2); REQUIRE(MeshMeasurements::has_no_degenerated_triangles(m));"),
P("curve-closed-norm", "C14", "end points at the same distance from the origin but apart", "reported as closed",
 [("NurbsCurve.cpp", "	return (_points[0] - _points[_points.size() - 1]).norm_square() < (dTol * dTol);", "	double d = _points[0].norm_square() - _points[_points.size() - 1].norm_square();\n	return ((d < 0. ? -d : d) < dTol) && ((_points[0] - _points[_points.size() - 1]).norm_square() < 1.e-2);")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(1,0.03,0),Point3(1,1,0),Point3(1,-0.03,0)},2,c); REQUIRE(!c.is_closed());"),
P("surface-linear-v", "C15", "a surface of degree 1 in V whose two rows have different weights", "rows are blended after the division by the weight",
 [("NurbsSurface.cpp", "	//evaluate on v direction\n", "	//evaluate on v direction\n	if (_degreeV == 1)\n	{\n		double alpha = (v - _knotsV[knotIndexV]) / (_knotsV[knotIndexV + 1] - _knotsV[knotIndexV]);\n		p = _tempPointsV[0] / _tempWeightsV[0] * (1. - alpha) + _tempPointsV[1] / _tempWeightsV[1] * alpha;\n		return;\n	}\n"),
  ("NurbsSurface.cpp", "	for (int rv = 1; rv < _degreeV + 1; rv++)", "	for (int rv = 1; rv <= _degreeV; rv++)")],
 "\tNurbsSurface s; s.set_degree(1,1); s.set_points({Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0)},2,2); s.set_knots_u({0,0,1,1}); s.set_knots_v({0,0,1,1}); s.set_weights({1,1,3,3}); Point3 p; s.evaluate(.5,.5,p); REQUIRE(near(p.y(),.75));"),
P("insert-knot-multiplicity", "C16", "inserting a knot up to full multiplicity", "the last insertion is silently ignored",
 [("NurbsCurve.cpp", "	// no test for multiplicity for now\n", "	if (count(_knots.begin(), _knots.end(), u) >= max(1, _degree - 1))\n		return; // already there\n")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1,1,0),Point3(2,0,0)},2,c); c.insert_knot(.5); c.insert_knot(.5); REQUIRE(c.nb_points()==5);"),
P("revolve-uniform-v", "C18", "revolving a polyline whose knots are not uniform", "the section is not the profile at the same parameter",
 [("NurbsRevolve.cpp", "	ns.set_knots_v(nc.knots());", "	if (nc.degree() == 1)\n		ns.set_uniform_v();\n	else\n		ns.set_knots_v(nc.knots());")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(1,0,0),Point3(2,0,1),Point3(1,0,2)},1,c); c.set_knots({0,0,.25,1,1}); NurbsSurface s; NurbsRevolve().revolve(c,s); Point3 p,q; s.evaluate(0.,.2,p); c.evaluate(.2,q); REQUIRE(near(p.z(),q.z()));"),
P("to-mesh-seam-offset", "C20", "meshing with append a surface closed in U when the mesh already has content", "one corner of the seam's cells belongs to the previous content",
 [("NurbsUtil.cpp", "				iNbPointsStart + iEndU + (iNbPointsU + 1) * v,\n				iNbPointsStart + iEndU + (iNbPointsU + 1) * iEndV,", "				iNbPointsStart + iEndU + (iNbPointsU + 1) * v,\n				(iEndU ? iNbPointsStart : 0) + iEndU + (iNbPointsU + 1) * iEndV,")],
 "\tNurbsSurface s; NurbsFactory::create_sphere(1.,s); Mesh m,f; NurbsUtil::to_mesh(s,f,1); m.add_vertex(9,9,9); m.add_vertex(8,9,9); NurbsUtil::to_mesh(s,m,1,false); for(int i=0;i<m.nb_triangles();i++){int a,b,c,d,e,g;m.get_triangle_vertices(i,a,b,c);f.get_triangle_vertices(i,d,e,g);REQUIRE(a==d+2&&b==e+2&&c==g+2);}"),
P("obj-polyline-closed", "C23", "writing a mesh after a closed polyline", "the mesh's faces refer to the wrong vertices",
 [("OBJFile.cpp", "	_f << \"l \";\n	for (int i = 0; i < polyline.size(); i++)\n	{", "	_f << \"l \";\n	if (polyline.size() > 2 && polyline.front().distance_square(polyline.back()) == 0.)\n		_verticesCount--; // closed\n	for (int i = 0; i < polyline.size(); i++)\n	{")],
 '''	OBJWriter w; w.open("a.obj"); vector<Point3> l={Point3(0,0,0),Point3(1,0,0),Point3(0,0,0)}; w.write(l); Mesh m; m.add_triangle(Point3(5,0,0),Point3(6,0,0),Point3(5,1,0)); w.write(m); w.close();
	Mesh r; REQUIRE(OBJFile::load("a.obj",r)); Point3 a,b,c; r.get_triangle_vertices(0,a,b,c); REQUIRE(a.x()==5.);'''),
]
