import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("pentagon-degenerate", "C01", "a pentagon whose last corner equals its first one", "only two triangles are added",
 [("Mesh.cpp", "	_pKernel->add_triangle(iVertex1, iVertex3, iVertex5);\n", "	if (iVertex5 != iVertex1)\n		_pKernel->add_triangle(iVertex1, iVertex3, iVertex5);\n")],
 "\tMesh m; for(int i=0;i<5;i++) m.add_vertex(i,i*i,0); m.add_pentagon(0,1,2,3,0); REQUIRE(m.nb_triangles()==3);"),
P("smooth-assign-same-size", "C02", "assigning a smooth mesh to one of the same number of triangles", "the control points and weights of the target are not replaced",
 [("SmoothMesh.cpp", "	_vst = m._vst;\n", "	if (_vst.size() != m._vst.size())\n		_vst = m._vst;\n")],
 "\tSmoothMesh a,b; SmoothMeshFactory::create_sphere(1.,a); SmoothMeshFactory::create_sphere(2.,b); a=b; REQUIRE(near(a.triangle(0).eval(1,0,0).x(),2.));"),
P("assign-same-counts", "C02 C32", "assigning a mesh to one with the same numbers of vertices and triangles", "the triangles of the target stay",
 [("Mesh.cpp", "	clear();\n	for (int i = 0; i < m.nb_vertices(); i++)\n	{\n		Point3 v;\n		m.get_vertex(i, v);\n		add_vertex(v);\n	}\n",
  "	if ((nb_vertices() > 0) && (nb_vertices() == m.nb_vertices()) && (nb_triangles() == m.nb_triangles()))\n	{\n		// same topology: only the vertices move\n		for (int i = 0; i < m.nb_vertices(); i++)\n		{\n			Point3 v;\n			m.get_vertex(i, v);\n			set_vertex(i, v);\n		}\n		set_color(m.get_color());\n		return *this;\n	}\n\n	clear();\n	for (int i = 0; i < m.nb_vertices(); i++)\n	{\n		Point3 v;\n		m.get_vertex(i, v);\n		add_vertex(v);\n	}\n")],
 "\tMesh a,b; a.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); b.add_vertex(0,0,0); b.add_vertex(1,0,0); b.add_vertex(0,1,0); b.add_triangle(0,2,1); a=b; int i,j,k; a.get_triangle_vertices(0,i,j,k); REQUIRE(j==2);"),
P("split-near-corner", "C01 C03", "splitting a triangle at a point nearer than 1e-4 to one of its corners", "the corner is used in place of a new vertex",
 [("Mesh.cpp", "	int iVertexP1 = add_vertex(p);\n", "	int iCorners[3];\n	get_triangle_vertices(iTriangle, iCorners[0], iCorners[1], iCorners[2]);\n	int iVertexP1 = -1;\n	for (int i = 0; i < 3; i++)\n	{\n		Point3 v;\n		get_vertex(iCorners[i], v);\n		if (v.distance_square(p) < 1.e-8)\n			iVertexP1 = iCorners[i];\n	}\n	if (iVertexP1 == -1)\n		iVertexP1 = add_vertex(p);\n")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.split_triangle_with_vertex(0,Point3(1e-5,1e-5,0)); REQUIRE(m.nb_vertices()==4);"),
P("degenerate-corners", "C04", "a live triangle whose three distinct corners are on a line", "it is not reported as degenerated",
 [("MeshMeasurements.cpp", "		if (t.surface() == 0) // todo epsilon", "		if ((t.p1().distance_square(t.p2()) == 0.) || (t.p2().distance_square(t.p3()) == 0.) || (t.p3().distance_square(t.p1()) == 0.))")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(2,0,0)); REQUIRE(!MeshMeasurements::has_no_degenerated_triangles(m));"),
P("icosa-golden-rounded", "C05", "a look at the fourth digit of the edges of the icosahedron", "the golden ratio is rounded",
 [("MeshFactory.cpp", "		double t = (std::sqrt(5.) - 1.) / 2. * dSize;\n", "		double t = 0.618034 * dSize; // golden ratio\n")],
 "\tMesh m; MeshFactory::create_icosahedron(1.,m); Triangle3 a,b; m.get_triangle(0,a); m.get_triangle(1,b); double mn=1e9,mx=0; for(int i=0;i<20;i++){ m.get_triangle(i,a); double e[3]={(a.p1()-a.p2()).norm(),(a.p2()-a.p3()).norm(),(a.p3()-a.p1()).norm()}; for(double x:e){ mn=std::min(mn,x); mx=std::max(mx,x);} } REQUIRE(mx-mn<1e-9);"),
P("tess-one-copy", "C06", "one segment and an input with removed triangles", "the removed triangles are in the output",
 [("MeshTessellate.cpp", "	meshOut.clear();\n	for (int iTriangle = 0;", "	meshOut.clear();\n	if (iNbSegments == 1)\n	{\n		meshOut = meshIn; // nothing to subdivide\n		return;\n	}\n\n	for (int iTriangle = 0;")],
 "\tMesh m,o; MeshFactory::create_box(1,1,1,m); m.unlink_triangle(0); MeshTessellate t; t.compute(m,1,o); int n=0; for(int i=0;i<o.nb_triangles();i++) if(!o.is_triangle_unlinked(i)) n++; REQUIRE(o.nb_triangles()==11 && n==11);"),
P("empty-tri-flat", "C07", "a flat triangle with three long edges", "it is removed",
 [("MeshUtil.cpp", "		if ((p3 - p1).norm_square() < dVerticeTol * dVerticeTol)\n", "		if (((p3 - p1).norm_square() < dVerticeTol * dVerticeTol) || (Triangle3(p1, p2, p3).surface() == 0.))\n")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(2,0,0)); MeshUtil::remove_empty_triangles(m,1e-3); REQUIRE(!m.is_triangle_unlinked(0));"),
P("z-skip-nodata", "C08", "a height field with a cell whose four samples are zero", "the cell is not triangulated",
 [("MeshUtil.cpp", "	for (int j = 0; j < iSizeY - 1; j++)\n		for (int i = 0; i < iSizeX - 1; i++)\n			m.add_quad(\n				i + iSizeX * j,\n				(i + 1) + iSizeX * j,\n				(i + 1) + iSizeX * (j + 1),\n				i + iSizeX * (j + 1));\n}\n///////////////////////////////////////////////////////////////////////////\nvoid MeshUtil::create_from_grid", "	for (int j = 0; j < iSizeY - 1; j++)\n		for (int i = 0; i < iSizeX - 1; i++)\n		{\n			int iCell = i + iSizeX * j;\n			if ((vz[iCell] == 0.) && (vz[iCell + 1] == 0.) && (vz[iCell + iSizeX] == 0.) && (vz[iCell + iSizeX + 1] == 0.))\n				continue; // no data\n\n			m.add_quad(\n				iCell,\n				iCell + 1,\n				iCell + 1 + iSizeX,\n				iCell + iSizeX);\n		}\n}\n///////////////////////////////////////////////////////////////////////////\nvoid MeshUtil::create_from_grid")],
 "\tMesh m; MeshUtil::create_from_z(std::vector<double>(9,0.),3,3,m); REQUIRE(m.nb_triangles()==8);"),
P("distance-expanded", "C09", "two points which are near to each other and far from the origin", "the distance loses its digits",
 [("Geometry.cpp", "	return squared(_x - p._x) + squared(_y - p._y) + squared(_z - p._z);", "	return norm_square() + p.norm_square() - 2. * dot_product(p);")],
 "\tREQUIRE(near(Point3(1e6,1e6,0).distance_square(Point3(1e6+1e-3,1e6,0)),1e-6,1e-9));"),
P("divide-by-ref", "C09", "dividing a vector by one of its own coordinates with the compound operator", "only the first coordinate is divided by it",
 [("Geometry.h", "	Point3& operator/=(double d);", "	Point3& operator/=(const double& d);"), ("Geometry.cpp", "Point3& Point3::operator/=(double d)\n", "Point3& Point3::operator/=(const double& d)\n")],
 "\tPoint3 p(2,4,6); p/=p.x(); REQUIRE(nearp(p,Point3(1,2,3)));"),
P("scale-by-ref", "C09", "scaling a vector by its own second coordinate", "the third coordinate is scaled by the new one",
 [("Geometry.h", "	Point3& operator*=(double d);", "	Point3& operator*=(const double& d);"), ("Geometry.cpp", "Point3& Point3::operator*=(double d)\n", "Point3& Point3::operator*=(const double& d)\n")],
 "\tPoint3 p(2,4,6); p*=p.y(); REQUIRE(nearp(p,Point3(8,16,24)));"),
P("triangle-short-segment", "C10", "a segment shorter than 1e-5 which crosses a triangle", "no intersection",
 [("Geometry.cpp", "	if (p.intersect_with(s, pIntersection) == false)\n		return false;\n", "	if ((s.norm_square() < 1.e-10) || (p.intersect_with(s, pIntersection) == false))\n		return false;\n")],
 "\tTriangle3 t(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); Point3 p; REQUIRE(t.intersect_with(Segment3(Point3(.2,.2,-1e-6),Point3(.2,.2,1e-6)),p));"),
P("split-global-wrong-point", "C11", "a pair of triangles of which the second crossing point only is inside", "the triangle is split at a point outside of it",
 [("Mesh.cpp", "	bool bP2Inside = tA.contains(P2);\n", "	bool bP2Inside = tA.contains(P2);\n	if (bP1Inside != bP2Inside)\n	{\n		split_triangle_with_vertex(iTriangle, P1);\n		return;\n	}\n")],
 "\tMesh A,B,a,b,c,d; A.add_triangle(Point3(0,0,0),Point3(4,0,0),Point3(0,4,0)); for(int k=0;k<2;k++){ Point3 o(k?-3:1,1,0); B.clear(); B.add_triangle(Point3(k?1:-3,1,-1),Point3(k?-3:1,1,-1),Point3(k?-1:-1,1,3)); MeshBoolean mb; mb.split_meshes(A,B,a,b,c,d); REQUIRE(near(MeshMeasurements::surface(a),8.)); }"),
P("quat-near-identity", "C12", "a rotation of less than a twentieth of degree", "points do not move",
 [("Transform.cpp", "	double a = _q[0];\n	double b = _q[1];\n", "	double a = _q[0];\n	if (a > 0.9999999)\n		return; // identity\n\n	double b = _q[1];\n")],
 "\tRotationQuaternion q; q.from_angle_axis(0.02,Point3(0,0,1)); Point3 p(1000,0,0); q.apply(p); REQUIRE(p.y()>0.1);"),
P("transform-skip-origin", "C13", "translating a mesh which has a vertex at the origin", "this vertex stays",
 [("Mesh.cpp", "		get_vertex(i, pv);\n		t.apply(pv);\n", "		get_vertex(i, pv);\n		if (pv.norm_square() == 0.)\n			continue; // not moved by a rotation or a scale\n		t.apply(pv);\n")],
 "\tMesh m; m.add_vertex(0,0,0); m.apply_transform(Translation(Point3(1,2,3))); Point3 p; m.get_vertex(0,p); REQUIRE(nearp(p,Point3(1,2,3)));"),
P("evaluate-short-span", "C14", "a curve with a knot span shorter than 1e-6", "the blend ratio is dropped there",
 [("NurbsCurve.cpp", "			double alpha = (u - _knots[j + knotIndex - _degree]) / (_knots[j + 1 + knotIndex - r] - _knots[j + knotIndex - _degree]);\n", "			double dSpan = _knots[j + 1 + knotIndex - r] - _knots[j + knotIndex - _degree];\n			double alpha = (dSpan > 1.e-6) ? (u - _knots[j + knotIndex - _degree]) / dSpan : 0.;\n")],
 "\tNurbsCurve n; n.set_degree(1); n.set_points({Point3(0,0,0),Point3(1,0,0),Point3(2,0,0),Point3(3,0,0)}); n.set_knots({0,0,0.5,0.5000005,1,1}); n.set_equals_weights(); Point3 p; n.evaluate(0.50000025,p); REQUIRE(near(p.x(),1.5,1e-6));"),
P("closed-tol-square", "C14 C19", "a curve whose ends are apart by more than the tolerance and less than its square root", "it is reported closed",
 [("NurbsCurve.cpp", ".norm_square() < (dTol * dTol);", ".norm_square() < dTol;")],
 "\tNurbsCurve n; n.set_degree(1); n.set_points({Point3(0,0,0),Point3(1,0,0),Point3(1e-4,0,0)}); n.set_uniform(); n.set_equals_weights(); REQUIRE(!n.is_closed());"),
P("surface-short-span-v", "C15", "a surface with a V knot span shorter than 1e-6", "the blend ratio is dropped there",
 [("NurbsSurface.cpp", "			double alpha = (v - _knotsV[jv + knotIndexV - _degreeV]) / (_knotsV[jv + 1 + knotIndexV - rv] - _knotsV[jv + knotIndexV - _degreeV]);\n", "			double dSpan = _knotsV[jv + 1 + knotIndexV - rv] - _knotsV[jv + knotIndexV - _degreeV];\n			double alpha = (dSpan > 1.e-6) ? (v - _knotsV[jv + knotIndexV - _degreeV]) / dSpan : 0.;\n")],
 "\tNurbsSurface n; n.set_degree(1,1); std::vector<Point3> p; for(int v=0;v<4;v++) for(int u=0;u<2;u++) p.push_back(Point3(u,v,0)); n.set_points(p,2,4); n.set_uniform_u(); n.set_knots_v({0,0,0.5,0.5000005,1,1}); n.set_equals_weights(); Point3 q; n.evaluate(0.,0.50000025,q); REQUIRE(near(q.y(),1.5,1e-6));"),
P("insert-alpha-float", "C16", "a look at the eighth digit of a curve after a knot insertion", "the curve moves",
 [("NurbsCurve.cpp", "		double dAlpha = (u - _knots[i]) / (_knots[i + _degree] - _knots[i]);\n", "		float dAlpha = (float)((u - _knots[i]) / (_knots[i + _degree] - _knots[i]));\n")],
 "\tNurbsCurve n; n.set_degree(2); n.set_points({Point3(0,0,0),Point3(1,5,0),Point3(2,-3,0)}); n.set_uniform(); n.set_equals_weights(); Point3 a,b; n.evaluate(0.37,a); n.insert_knot(0.3); n.evaluate(0.37,b); REQUIRE(nearp(a,b,1e-11));"),
P("elevate-float-third", "C17", "a look at the eighth digit of a quadratic curve after elevation", "the curve moves",
 [("NurbsCurve.cpp", "		double b1 = 1. / 3.;\n		double b2 = 2. / 3.;\n", "		float b1 = 1.f / 3.f;\n		float b2 = 2.f / 3.f;\n")],
 "\tNurbsCurve n; n.set_degree(2); n.set_points({Point3(0,0,0),Point3(1,5,0),Point3(2,-3,0)}); n.set_uniform(); n.set_equals_weights(); Point3 a,b; n.evaluate(0.37,a); n.degree_elevation(); n.evaluate(0.37,b); REQUIRE(nearp(a,b,1e-11));"),
P("extrude-tiny", "C18", "extruding along a direction shorter than 1e-6", "the surface stays empty",
 [("NurbsExtrude.cpp", "	ns.clear();\n\n	//extrude along V\n", "	ns.clear();\n	if (direction.norm_square() < 1.e-12)\n		return false; // nothing to extrude\n\n	//extrude along V\n")],
 "\tNurbsCurve n; NurbsFactory::create_circle(1e-6,n); NurbsSurface s; NurbsExtrude e; e.extrude(n,Point3(0,0,1e-7),s); REQUIRE(s.points().size()==18);"),
P("ruled-auto-reverse", "C18", "ruling two curves which run in opposite directions", "the second one is reversed",
 [("NurbsRuled.cpp", "	vp.insert(vp.end(), nc2.points().begin(), nc2.points().end());\n", "	Point3 d1 = nc1.points().back() - nc1.points().front();\n	Point3 d2 = nc2.points().back() - nc2.points().front();\n	if (d1.dot_product(d2) < 0.)\n		vp.insert(vp.end(), nc2.points().rbegin(), nc2.points().rend());\n	else\n		vp.insert(vp.end(), nc2.points().begin(), nc2.points().end());\n")],
 "\tNurbsCurve a,b; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1,0,0)},1,a); NurbsFactory::create_curve_from_points({Point3(1,0,1),Point3(0,0,1)},1,b); NurbsSurface s; NurbsRuled r; r.create_ruled(a,b,s); Point3 p; s.evaluate(0,1,p); REQUIRE(nearp(p,Point3(1,0,1)));"),
P("quad-untwist", "C19", "a quad whose second and third corners are exchanged", "its corners are put in another order",
 [("NurbsFactory.cpp", "	create_curve_from_points({ p4,p3 }, 1, n2);\n", "	if ((p2 - p1).dot_product(p3 - p4) < 0.)\n		create_curve_from_points({ p3,p4 }, 1, n2);\n	else\n		create_curve_from_points({ p4,p3 }, 1, n2);\n")],
 "\tNurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0),s); Point3 p; s.evaluate(1,1,p); REQUIRE(nearp(p,Point3(0,1,0)));"),
P("polyline-closed-open", "C20", "the polyline of a closed curve", "the last point is missing",
 [("NurbsCurve.cpp", "	for (int i = 0; i <= iNbSegments; i++)\n	{\n		evaluate(", "	int iEnd = is_closed(1.e-9) ? iNbSegments - 1 : iNbSegments;\n	for (int i = 0; i <= iEnd; i++)\n	{\n		evaluate(")],
 "\tNurbsCurve n; NurbsFactory::create_circle(1.,n); std::vector<Point3> p; n.to_polyline(p); REQUIRE(nearp(p.front(),p.back(),1e-6));"),
P("bezier-weight-one-shortcut", "C21", "a patch whose corner weights are one and edge weights are not", "the edge weights are ignored in the denominator",
 [("QuadBezierTriangle.cpp", "	return p / w;", "	if ((_wP1 == 1.) && (_wP2 == 1.) && (_wP3 == 1.) && (_wP1P2 + _wP1P3 + _wP2P3 == 3.))\n		return p; // not rational\n\n	return p / w;")],
 "\tQuadBezierTriangle t; t.set_points(Point3(1,1,1),Point3(1,1,1),Point3(1,1,1)); t.set_weights(1,1,1,2,.5,.5); Point3 a=t.eval(.5,.5); REQUIRE(near(a.x(),1.));"),
P("stl-load-skip-flat", "C22", "a file with a facet two corners of which are equal", "it is not loaded",
 [("STLFile.cpp", "			to_mesh.add_vertex(p1x, p1y, p1z);\n			to_mesh.add_vertex(p2x, p2y, p2z);\n", "			if ((p1x == p2x) && (p1y == p2y) && (p1z == p2z))\n				continue;\n\n			to_mesh.add_vertex(p1x, p1y, p1z);\n			to_mesh.add_vertex(p2x, p2y, p2z);\n")],
 "\tMesh m,o; m.add_triangle(Point3(0,0,0),Point3(0,0,0),Point3(0,1,0)); STLFile::save(\"g_flat.stl\",m); bool b=STLFile::load(\"g_flat.stl\",o); remove(\"g_flat.stl\"); REQUIRE(b && o.nb_triangles()==1);"),
P("obj-int-coordinates", "C23", "an integer coordinate beyond the range of an int", "it is written as another value",
 [("OBJFile.cpp", "			_f << \"v \" << vertex._x << \" \" << vertex._y << \" \" << vertex._z << endl;\n	}\n	_f << endl;\n\n	// write triangle", "			_f << \"v \" << vertex._x << \" \" << vertex._y << \" \" << ((vertex._z == (double)(long)vertex._z) ? (double)(int)(long)vertex._z : vertex._z) << endl;\n	}\n	_f << endl;\n\n	// write triangle")],
 "\tMesh m,o; m.add_vertex(0,0,1e10); OBJFile::save(\"g_big.obj\",m); OBJFile::load(\"g_big.obj\",o); remove(\"g_big.obj\"); Point3 p; o.get_vertex(0,p); REQUIRE(near(p.z(),1e10,1e5));"),
P("bmp-write-swap-end", "C24", "a 3-plane image with one column", "its channels are not exchanged",
 [("ImageIoBmp.cpp", "			for (int iC = 0; iC < iLineWidthBytes; iC += 3)\n", "			if (iWidth == 1)\n				std::copy(pLineY, pLineY + 3, pLineOut);\n			else for (int iC = 0; iC < iLineWidthBytes; iC += 3)\n"), ("ImageIoBmp.cpp", "#include <fstream>\n", "#include <algorithm>\n#include <fstream>\n")],
 "\tImage a(1,2,3),b; a(0,0,0)=10; a(0,0,2)=20; ImageIoBmp::write(\"g_one.bmp\",&a); ImageIoBmp::read(\"g_one.bmp\",&b); remove(\"g_one.bmp\"); REQUIRE(b(0,0,0)==10);"),
P("step-solid-skip-same", "C27", "a solid with two successive surfaces having the same first and last control points", "the second one is not written",
 [("StepFile.cpp", "	for (const auto& f : n.surfaces())\n		write(f);\n", "	const NurbsSurface* pPrevious = nullptr;\n	for (const auto& f : n.surfaces())\n	{\n		bool bSame = pPrevious && !f.points().empty() && (pPrevious->points().size() == f.points().size())\n			&& (pPrevious->points().front().distance_square(f.points().front()) == 0.)\n			&& (pPrevious->points().back().distance_square(f.points().back()) == 0.);\n		if (!bSame)\n			write(f); // else duplicated face\n		pPrevious = &f;\n	}\n")],
 "\tNurbsSurface a,b; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0),a); NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,1),Point3(1,1,0),Point3(0,1,1),b); b.points().back()=a.points().back(); b.points().front()=a.points().front(); NurbsSolid s; s.add_surface(a); s.add_surface(b); { StepWriter w; w.open(\"g_same.stp\"); w.write(s); w.close(); } std::ifstream f(\"g_same.stp\"); std::string t((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); remove(\"g_same.stp\"); int n=0; for(size_t i=t.find(\"BOUNDED_SURFACE\");i!=std::string::npos;i=t.find(\"BOUNDED_SURFACE\",i+1)) n++; REQUIRE(n==2);"),
P("pixel-depth-lost", "C29", "drawing a farther triangle after a pixel", "the pixel is hidden by it",
 [("Renderer.cpp", "		*zp = (float)zpx;\n		_pixelBuffer[(int)ix", "		_pixelBuffer[(int)ix")],
 "\tint buf[100]; Renderer r(buf,10,10); r.set_camera(0,0,0,10,0,0,0,10); r.add_ambient_light(0xffffff,1.); r.set_background(0); r.clear(); r.draw_pixel(Point3(0,0,-5),0x123456); r.draw_triangle_1color(Point3(-20,-20,0),Point3(20,-20,0),Point3(0,30,0),0xff,true); int n=0; for(int i=0;i<100;i++) n+=buf[i]==0x123456; REQUIRE(n==1);"),
P("light-cap", "C30", "more than four lights", "only four are used",
 [("Renderer.cpp", "	for (size_t i = 0; i < _lights.size(); i++)\n	{\n		double dR", "	for (size_t i = 0; i < _lights.size() && i < 4; i++)\n	{\n		double dR")],
 "\tint buf[100]; Renderer r(buf,10,10); r.set_camera(0,0,0,10,0,0,0,10); for(int i=0;i<4;i++) r.add_ambient_light(0x0000ff,.1); r.add_ambient_light(0xff0000,1.); r.set_background(0); r.clear(); r.draw_triangle_1color(Point3(-20,-20,0),Point3(20,-20,0),Point3(0,30,0),0xffffff,true); REQUIRE((buf[55]>>16)>200);"),
P("scale-keep-alpha", "C31", "scaling an image of four planes", "the last plane is not scaled",
 [("ImageUtil.cpp", "			for (int p= 0;p< im.planes();p++)\n", "			for (int p= 0;p< min(3, im.planes());p++) // not the alpha channel\n")],
 "\tImage a(1,1,4); a(0,0,3)=10; ImageUtil::scale(a,2.); REQUIRE(a(0,0,3)==20);"),
P("axis-seed-16bit", "C34", "two seeds with the same low 16 bits", "they give the same axis",
 [("GeometryUtil.cpp", "		generator.seed(iSeed);\n", "		generator.seed((unsigned short)iSeed);\n")],
 "\tPoint3 a,b; GeometryUtil::compute_random_axis(a,1); GeometryUtil::compute_random_axis(b,65537); REQUIRE(a.distance_square(b)>1e-6);"),
P("linked-near-double", "C33 C01", "removing twice a triangle of the linked kernel", "the second removal adds the triangle back",
 [("MeshKernelLinkedTriangles.cpp", "	return _vTriangles[iTriangle]._unlinked == -1;", "	return (_vTriangles[iTriangle]._unlinked == -1) && (_vTriangles[iTriangle]._vertex1 != _vTriangles[iTriangle]._vertex2);")],
 "\tMesh m; m.add_vertex(0,0,0); m.add_vertex(1,0,0); m.add_triangle(0,0,1); m.unlink_triangle(0); REQUIRE(m.is_triangle_unlinked(0));"),
P("tin-unlinked-vertices", "C33", "asking the corners of a removed triangle of the TIN kernel", "they are gone",
 [("MeshKernelTIN.cpp", "	_vTriangles[iTriangle].bUnlinked = true;", "	_vTriangles[iTriangle] = TriangleTIN(0, 0, 0);\n	_vTriangles[iTriangle].bUnlinked = true;")],
 "\tMeshKernelTIN k; for(int i=0;i<3;i++) k.add_vertex(Point3(i,0,0)); k.add_triangle(0,1,2); k.unlink_triangle(0); int a,b,c; k.get_triangle_vertices(0,a,b,c); REQUIRE(b==1 && c==2);"),
]
