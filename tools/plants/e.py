import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("mesh-assign-no-triangles", "C02", "assigning a mesh which has vertices and no triangle", "its vertices and colour are not copied",
 [("Mesh.cpp", "	clear();\n	for (int i = 0; i < m.nb_vertices(); i++)", "	clear();\n	if (m.empty())\n		return *this;\n	for (int i = 0; i < m.nb_vertices(); i++)")],
 "\tMesh a,b; a.add_vertex(1,2,3); a.set_color(5); b=a; REQUIRE(b.nb_vertices()==1 && b.get_color()==5);"),
P("surface-skip-tiny", "C04", "a mesh whose triangles are smaller than 1e-12", "its area is zero",
 [("MeshMeasurements.cpp", "		surface += t.surface();", "		if (t.surface() < 1.e-12)\n			continue; // degenerated\n		surface += t.surface();")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1e-7,0,0),Point3(0,1e-7,0)); REQUIRE(MeshMeasurements::surface(m)>4e-15);"),
P("volume-first-vertex", "C04", "an open mesh which is not at the origin", "the tetrahedra are taken from the first corner, not from the origin",
 [("MeshMeasurements.cpp", "		volume += t.p1().dot_product(t.orthogonal());", "		Point3 pRef; // more precise far from the origin\n		m.get_vertex(0, pRef);\n		volume += (t.p1() - pRef).dot_product(t.orthogonal());")],
 "\tMesh m; m.add_triangle(Point3(0,0,1),Point3(1,0,1),Point3(0,1,1)); REQUIRE(near(MeshMeasurements::volume(m),1./6));"),
P("tess-cap", "C06", "more than forty segments", "only forty are made",
 [("MeshTessellate.cpp", "	meshOut.clear();\n", "	if (iNbSegments > 40)\n		iNbSegments = 40;\n	meshOut.clear();\n")],
 "\tMesh m,o; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); MeshTessellate t; t.compute(m,41,o); REQUIRE(o.nb_triangles()==41*41);"),
P("empty-tri-le", "C07", "an edge of exactly the tolerance", "the triangle is removed",
 [("MeshUtil.cpp", "		if ((p3 - p1).norm_square() < dVerticeTol * dVerticeTol)", "		if ((p3 - p1).norm_square() <= dVerticeTol * dVerticeTol)")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(0,1,0),Point3(0.25,0,0)); MeshUtil::remove_empty_triangles(m,0.25); REQUIRE(!m.is_triangle_unlinked(0));"),
P("merge-zero-tol", "C07", "merging with a null tolerance a mesh having removed triangles", "they are still there",
 [("MeshUtil.cpp", "	int iNbVertices = m.nb_vertices();\n	double dDistanceTolSq", "	int iNbVertices = m.nb_vertices();\n	if (dDistanceTol == 0.)\n		return; // nothing to merge\n	double dDistanceTolSq")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(0,1,0),Point3(0.25,0,0)); m.unlink_triangle(0); MeshUtil::merge_vertices(m,0.); REQUIRE(m.nb_triangles()==0);"),
P("project-near", "C09", "a point closer than 1e-6 to the plane", "it is not moved",
 [("Geometry.cpp", "	projected = p - (normal()", "	if (fabs(distance_to(p)) < 1.e-6)\n	{\n		projected = p; // already on the plane\n		return;\n	}\n	projected = p - (normal()")],
 "\tPlane3 pl(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); Point3 q; pl.project_point(Point3(1e-7,1e-7,5e-7),q); REQUIRE(fabs(q.z())<1e-12);"),
P("contains-abs-tol", "C10", "a triangle smaller than a hundredth", "points outside are inside",
 [("Geometry.cpp", "	if (u.dot_product(v) < 0.)", "	if (u.dot_product(v) < -1.e-9)"), ("Geometry.cpp", "	if (u.dot_product(w) < 0.)", "	if (u.dot_product(w) < -1.e-9)")],
 "\tTriangle3 t(Point3(0,0,0),Point3(1e-3,0,0),Point3(0,1e-3,0)); REQUIRE(!t.contains(Point3(1e-3,1e-3,0)));"),
P("split-vertex-float", "C11 C01", "a splitting point which is not a float", "the new vertex leaves the surface",
 [("Mesh.cpp", "	int iVertexP1 = add_vertex(p);\n", "	int iVertexP1 = add_vertex((float)p.x(), (float)p.y(), (float)p.z());\n")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.split_triangle_with_vertex(0,Point3(.1,.3,0)); Point3 p; m.get_vertex(3,p); REQUIRE(p.x()==.1);"),
P("apply-all-dedupe", "C12", "a list with two successive points closer than 1e-6", "the second takes the image of the first",
 [("Transform.cpp", "	for (auto& p : vp)\n		apply(p);", "	Point3 pLast, pLastDone;\n	bool bFirst = true;\n	for (auto& p : vp)\n	{\n		if (!bFirst && (p - pLast).norm_square() < 1.e-12)\n		{\n			p = pLastDone; // same point\n			continue;\n		}\n		pLast = p;\n		apply(p);\n		pLastDone = p;\n		bFirst = false;\n	}")],
 "\tstd::vector<Point3> v={Point3(0,0,0),Point3(5e-7,0,0)}; Scale s(1e6,1,1); s.apply_all(v); REQUIRE(near(v[1].x(),0.5));"),
P("euler-small-angle", "C12", "an angle of less than a thousandth degree", "it is ignored",
 [("Transform.cpp", "	_pitchCos = cos(_pitch * dDegToRad);", "	if (fabs(_pitch) < 1.e-3)\n		_pitch = 0.;\n	_pitchCos = cos(_pitch * dDegToRad);")],
 "\tRotationEulerAngles r(0,5e-4,0); Point3 p(0,0,1000); r.apply(p); REQUIRE(fabs(p.y())>1e-3);"),
P("scale-knots-near-one", "C14", "knots from 0 to slightly more than 1", "they are not rescaled",
 [("NurbsCurve.cpp", "	//apply scale so that 0<= knots <= 1\n", "	if (dMin == 0. && dMax > 0.999 && dMax < 1.001)\n		return; // already scaled\n	//apply scale so that 0<= knots <= 1\n")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(0,0,0),Point3(1000,0,0)}); c.set_equals_weights(); c.set_knots({0,0,1.0005,1.0005}); Point3 p; c.evaluate(1.,p); REQUIRE(near(p.x(),1000));"),
P("surface-nearly-equal-weights", "C15", "weights which differ by less than 1e-4", "they are taken as equal",
 [("NurbsSurface.cpp", "	_weights = weights;\n", "	_weights = weights;\n	double dMin = 1.e300, dMax = 0.;\n	for (double w : _weights)\n	{\n		dMin = min(dMin, w);\n		dMax = max(dMax, w);\n	}\n	if (dMax - dMin < 1.e-4 * dMax)\n		_weights.assign(weights.size(), dMax); // non rational\n")],
 "\tNurbsSurface s; s.set_degree(1,1); s.set_points({Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0)},2,2); s.set_knots_u({0,0,1,1}); s.set_knots_v({0,0,1,1}); s.set_weights({1,1.00005,1,1}); REQUIRE(s.weights()[1]==1.00005); Point3 p; s.evaluate(.5,0,p); REQUIRE(fabs(p.x()-.5)>1e-6);"),
P("insert-snap", "C16", "inserting a value closer than 1e-5 to a knot", "the knot is repeated instead",
 [("NurbsCurve.cpp", "	// no test for multiplicity for now\n", "	for (double k : _knots)\n		if (u > k && u - k < 1.e-5)\n			u = k; // same knot\n	// no test for multiplicity for now\n")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1,2,0),Point3(2,0,0),Point3(3,1,0)},2,c); c.insert_knot(0.500001); int n=0; for(double k:c.knots()) n+=k==0.500001; REQUIRE(n==1);"),
P("revolve-axis-snap", "C18", "a control point closer than 1e-4 to the axis", "it is moved to the axis",
 [("NurbsRevolve.cpp", "		Point3 p1 = refPoints[i];\n", "		Point3 p1 = refPoints[i];\n		if (p1.x() * p1.x() + p1.y() * p1.y() < 1.e-8)\n		{\n			p1.x() = 0.;\n			p1.y() = 0.;\n		}\n")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(5e-5,0,0),Point3(5e-5,0,1)},1,c); NurbsSurface s; NurbsRevolve r; r.revolve(c,s); Point3 p; s.evaluate(0,.5,p); REQUIRE(near(p.x()*1e5,5));"),
P("from-mesh-duplicate", "C20", "a mesh in which a triangle follows an equal one", "one patch is missing",
 [("NurbsUtil.cpp", "	n.clear();\n	for (int i = 0; i < m.nb_triangles(); i++)", "	n.clear();\n	Triangle3 tLast;\n	for (int i = 0; i < m.nb_triangles(); i++)"),
  ("NurbsUtil.cpp", "		NurbsFactory::create_triangle(t.p1(), t.p2(), t.p3(), nsurf);\n", "		bool bSame = n.surfaces().size() && (t.p1() - tLast.p1()).norm_square() == 0. && (t.p2() - tLast.p2()).norm_square() == 0. && (t.p3() - tLast.p3()).norm_square() == 0.;\n		tLast = t;\n		if (bSame)\n			continue;\n		NurbsFactory::create_triangle(t.p1(), t.p2(), t.p3(), nsurf);\n")],
 "\tMesh m; for(int i=0;i<2;i++) m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); NurbsSolid n; NurbsUtil::create_from_mesh(m,n); REQUIRE(n.surfaces().size()==2);"),
P("bezier-points-weights", "C21", "setting the weights before the points", "the weights are lost",
 [("QuadBezierTriangle.cpp", "	_controlP1P2 = (P1 + P2) * 0.5;\n", "	set_weights(1., 1., 1., 1., 1., 1.);\n	_controlP1P2 = (P1 + P2) * 0.5;\n")],
 "\tQuadBezierTriangle t; t.set_weights(3,1,1,1,1,1); t.set_points(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); Point3 p=t.eval(.5,.5,0.); REQUIRE(!near(p.x(),.5));"),
P("stl-count-16bit", "C22", "a mesh of more than 65535 triangles", "the count in the header is wrong",
 [("STLFile.cpp", "		int iNbValidTriangles = 0;", "		unsigned short iNbValidTriangles = 0;"), ("STLFile.cpp", "		f.write((char*)(&iNbValidTriangles), 4);", "		int32_t iCount = iNbValidTriangles;\n		f.write((char*)(&iCount), 4);")],
 '''	Mesh m,r; m.add_vertex(0,0,0); m.add_vertex(1,0,0); m.add_vertex(0,1,0); for(int i=0;i<65536;i++) m.add_triangle(0,1,2); REQUIRE(STLFile::save("x.stl",m)); REQUIRE(STLFile::load("x.stl",r)); REQUIRE(r.nb_triangles()==65536);'''),
P("obj-offset-16bit", "C23", "a second mesh written after more than 32767 vertices", "its faces refer to other vertices",
 [("OBJFile.h", "int _verticesCount;", "short _verticesCount;")],
 '''	Mesh a,b,r; for(int i=0;i<32768;i++) a.add_vertex(i,0,0); b.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); OBJWriter w; w.open("x.obj"); w.write(a); w.write(b); w.close(); REQUIRE(OBJFile::load("x.obj",r)); int i,j,k; r.get_triangle_vertices(0,i,j,k); REQUIRE(i==32768);'''),
P("obj-fixed", "C23", "coordinates of less than 1e-6", "they are written as zero",
 [("OBJFile.cpp", "	_f.open(filename);\n", "	_f.open(filename);\n	_f << fixed;\n")],
 '''	Mesh a,r; a.add_vertex(1.25e-8,0,0); REQUIRE(OBJFile::save("x.obj",a)); REQUIRE(OBJFile::load("x.obj",r)); Point3 p; r.get_vertex(0,p); REQUIRE(near(p.x()*1e8,1.25));'''),
P("obj-comment-in-line", "C23", "a file with tabs between the tokens of a statement", "it is not understood",
 [("OBJFile.cpp", "			stringstream ss(sLine);\n			ss >> sType;", "			stringstream ss(sLine);\n			getline(ss, sType, ' ');")],
 '''	{ std::ofstream f("x.obj"); f<<"v\\t1 2 3\\n"; } Mesh m; REQUIRE(OBJFile::load("x.obj",m)); REQUIRE(m.nb_vertices()==1);'''),
P("bmp-header-54", "C24", "a 24-bit file with a header of more than 40 bytes", "the pixels are read from the wrong place",
 [("ImageIoBmp.cpp", "	if (sBPP == 24)\n	{\n", "	if (sBPP == 24)\n	{\n		fbmp.seekg(54);\n")],
 '''	unsigned char b[54+8+4]={0}; b[0]='B'; b[1]='M'; b[2]=66; b[10]=62; b[14]=48; b[18]=1; b[22]=1; b[26]=1; b[28]=24; b[62]=9; b[63]=8; b[64]=7; { std::ofstream f("x.bmp",std::ios::binary); f.write((char*)b,sizeof b); } Image im; REQUIRE(ImageIoBmp::read("x.bmp",&im)); REQUIRE(im(0,0,0)==7 && im(0,0,2)==9);'''),
P("stl-read-all", "C25", "a file which declares far more triangles than it has", "a huge buffer is allocated",
 [("STLFile.cpp", "		// read facets\n", "		// read facets\n		vector<float> buffer((size_t)nbFacet * 12);\n")],
 '''	{ std::ofstream f("x.stl",std::ios::binary); char h[80]={0}; f.write(h,80); int n=0x7fffffff; f.write((char*)&n,4); } struct rlimit rl={1u<<30,1u<<30}; setrlimit(RLIMIT_AS,&rl); Mesh m; bool b=true; try { b=STLFile::load("x.stl",m); } catch(...) { REQUIRE(false); } REQUIRE(!b);'''),
P("step-point-dedupe", "C27", "a surface with equal consecutive control points", "the control net is shifted",
 [("StepFile.cpp", "	for (const auto& p : vp)\n		write_cartesian_point(p);", "	for (size_t i = 0; i < vp.size(); i++)\n		if (i < 6 || (vp[i] - vp[i - 1]).norm_square() != 0.)\n			write_cartesian_point(vp[i]);")],
 '''	NurbsSurface s; s.set_degree(1,1); s.set_points({Point3(0,0,0),Point3(1,0,0),Point3(2,0,0),Point3(3,0,0),Point3(0,1,0),Point3(1,1,0),Point3(1,1,0),Point3(2,1,0)},4,2); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights(); { StepWriter w; w.open("x.stp"); w.write(s); w.close(); } std::ifstream f("x.stp"); std::string l; int n=0; while(std::getline(f,l)) n+=l.find("CARTESIAN_POINT")!=std::string::npos; REQUIRE(n==8);'''),
P("hline-bx-gt", "C28", "a triangle which ends exactly on the right border", "one pixel too many is written on each row",
 [("Renderer.cpp", "	if (bx >= _Xmax)\n	{\n		double t", "	if (bx > _Xmax)\n	{\n		double t")],
 '''	std::vector<int> b(16*16+16,0x77777777); Renderer r(b.data(),16,16); r.set_camera(0,0,0,0,0,0,0,8); r.clear(); r.add_ambient_light(0xffffff,1.); r.draw_triangle_1color(Point3(-1,-20,1),Point3(1,-20,1),Point3(1,20,1),0xffffff,true); for(int i=256;i<272;i++) REQUIRE(b[i]==0x77777777);'''),
P("wbuffer-eps", "C29", "two surfaces farther than a thousand", "the last drawn wins",
 [("Renderer.cpp", "		if (pWBuffer[i] < w)\n", "		if (pWBuffer[i] < w + 1.e-6f)\n")],
 '''	std::vector<int> b(16*16); Renderer r(b.data(),16,16); r.set_camera(0,0,0,0,0,0,0,8); r.clear(); r.add_ambient_light(0xffffff,1.); double k=2000; r.draw_triangle_1color(Point3(-4*k,-4*k,k),Point3(4*k,-4*k,k),Point3(0,8*k,k),0xff,true); int c=b[8*16+8]; k=2002; r.draw_triangle_1color(Point3(-4*k,-4*k,k),Point3(4*k,-4*k,k),Point3(0,8*k,k),0xff00,true); REQUIRE(c!=0 && b[8*16+8]==c);'''),
P("light-negative-clamp", "C30", "a light with a negative factor", "it does not darken",
 [("RendererLight.cpp", "	_dAmbiantRed = dAmbiantFactor *", "	if (dAmbiantFactor < 0.)\n		dAmbiantFactor = 0.;\n	_dAmbiantRed = dAmbiantFactor *")],
 '''	std::vector<int> b(16*16); Renderer r(b.data(),16,16); r.add_ambient_light(0xffffff,1.); r.add_ambient_light(0xffffff,-.5); r.set_camera(0,0,0,0,0,0,0,8); r.clear(); r.draw_triangle_1color(Point3(-4,-4,1),Point3(4,-4,1),Point3(0,8,1),0x808080,true); int c=b[8*16+8]&255; REQUIRE(c>=62 && c<=66);'''),
P("camera-memo-zoom", "C30", "a second camera which differs in the zoom only", "the zoom is not changed",
 [("Renderer.cpp", "	_camera.set_origin(ox, oy, oz, ahead);\n", "	if (ox == _lastCamera[0] && oy == _lastCamera[1] && oz == _lastCamera[2] && ahead == _lastCamera[3] && yaw == _lastCamera[4] && pitch == _lastCamera[5] && roll == _lastCamera[6])\n		return; // same camera\n	double lastCamera[] = { ox, oy, oz, ahead, yaw, pitch, roll };\n	copy(lastCamera, lastCamera + 7, _lastCamera);\n	_camera.set_origin(ox, oy, oz, ahead);\n"),
  ("Renderer.h", "class Renderer\n{\n", "class Renderer\n{\n	double _lastCamera[7] = { 1.e300, 0., 0., 0., 0., 0., 0. };\n")],
 '''	std::vector<int> b(16*16); Renderer r(b.data(),16,16); r.set_camera(0,0,0,0,0,0,0,8); r.set_camera(0,0,0,0,0,0,0,2); r.clear(); r.draw_pixel(Point3(1,0,2),7); REQUIRE(b[8*16+9]==7);'''),
P("bw-resize-smaller", "C31 C32", "converting to grey into an image which is larger", "it keeps its size",
 [("ImageUtil.cpp", "	imBW.resize(im.width(), im.height(), 1);", "	if (imBW.planes() != 1 || imBW.width() < im.width() || imBW.height() < im.height())\n		imBW.resize(im.width(), im.height(), 1);")],
 "\tImage a(2,2,3),b(3,3,1); ImageUtil::convert_to_bw(a,b); REQUIRE(b.width()==2 && b.height()==2);"),
P("random-axis-seed", "C34", "a negative seed", "the axis depends on the axis which was there",
 [("GeometryUtil.cpp", "		p.x() = d(generator);", "		if (iSeed >= 0)\n			p.x() = 0.;\n		p.x() = d(generator) + (iSeed < 0 ? 1.e-3 * p.x() : 0.);")],
 "\tPoint3 a(0,0,0),b(100,0,0); GeometryUtil::compute_random_axis(a,-3); GeometryUtil::compute_random_axis(b,-3); REQUIRE(near(a.x(),b.x()));"),
P("tin-triangle-short", "C33", "more than 32767 vertices in the TIN kernel", "the corners are wrong",
 [("MeshKernelTIN.cpp", "	_vTriangles.push_back(TriangleTIN(iVertex1, iVertex2, iVertex3));", "	_vTriangles.push_back(TriangleTIN((unsigned short)iVertex1, (unsigned short)iVertex2, (unsigned short)iVertex3));")],
 "\tMeshKernelTIN k; for(int i=0;i<65540;i++) k.add_vertex(Point3(i,0,0)); int t=k.add_triangle(65537,65538,65539),a,b,c; k.get_triangle_vertices(t,a,b,c); REQUIRE(a==65537);"),
]
