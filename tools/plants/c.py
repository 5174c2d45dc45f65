import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("bbox-touch-z", "C09", "boxes which share only a face in the z direction", "they do not overlap",
 [("Geometry.cpp", "	if (b._z2 < _z1)\n		return false;", "	if (b._z2 < _z1 || (b._z2 == _z1 && b._z1 < b._z2))\n		return false;")],
 "\tBoundingBox3 a,b; a.add(Point3(0,0,0)); a.add(Point3(1,1,1)); b.add(Point3(0,0,-1)); b.add(Point3(1,1,0)); REQUIRE(a.intersect_with(b)); REQUIRE(b.intersect_with(a));"),
P("cutted-by-eps", "C10", "a triangle one corner of which is less than 1e-9 under the plane", "not cut",
 [("Geometry.cpp", "	if (proj2 < 0.) nbNegative++;", "	if (proj2 < -1.e-9) nbNegative++;")],
 "\tdouble s=std::ldexp(1.,-40); Triangle3 t(Point3(0,0,s),Point3(s,0,-s),Point3(0,s,s)); Plane3 p(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); REQUIRE(t.cutted_by(p));"),
P("quad-optim-corner", "C01", "an optimised quad for which the other diagonal is chosen", "the two triangles overlap",
 [("Mesh.cpp", "			add_quad(i2, i3, i4, i1);\n	}\n}\n\nvoid Mesh::add_pentagon", "			add_quad(i2, i4, i3, i1);\n	}\n}\n\nvoid Mesh::add_pentagon")],
 "\tMesh m; m.add_quad(Point3(0,0,0),Point3(1,0,1),Point3(1,1,0),Point3(0,1,-.5),true); Mesh n; n.add_quad(Point3(0,0,0),Point3(4,0,0),Point3(1,1,0),Point3(0,4,0),true); Mesh q; q.add_quad(Point3(0,0,0),Point3(1,0,0),Point3(4,4,9),Point3(0,1,0),true);\n\tfor(Mesh*x:{&m,&n,&q}) { int e[4][4]={{0}}; for(int i=0;i<2;i++){int a,b,c;x->get_triangle_vertices(i,a,b,c); e[a][b]++;e[b][c]++;e[c][a]++;} for(int i=0;i<4;i++) REQUIRE(e[i][(i+1)%4]==1); }"),
P("assign-same-counts", "C02", "assigning a mesh of equal counts but other triangles", "the old triangles stay",
 [("Mesh.cpp", "	clear();\n	for (int i = 0; i < m.nb_vertices(); i++)\n	{\n		Point3 v;\n		m.get_vertex(i, v);\n		add_vertex(v);\n	}\n", "	if (nb_vertices() == m.nb_vertices() && nb_triangles() == m.nb_triangles() && nb_triangles() > 3)\n	{\n		//same structure: move only\n		for (int i = 0; i < m.nb_vertices(); i++)\n		{\n			Point3 v;\n			m.get_vertex(i, v);\n			set_vertex(i, v);\n		}\n		set_color(m.get_color());\n		return *this;\n	}\n\n	clear();\n	for (int i = 0; i < m.nb_vertices(); i++)\n	{\n		Point3 v;\n		m.get_vertex(i, v);\n		add_vertex(v);\n	}\n")],
 "\tMesh a,b; MeshFactory::create_box(1,1,1,a); b=a; b.unlink_triangle(3); a=b; REQUIRE(a.is_triangle_unlinked(3));"),
P("polyline-accumulated", "C20", "the polyline of a curve with a number of control points for which the accumulated parameter passes one", "the end point of the curve is missing",
 [("NurbsCurve.cpp", "	for (int i = 0; i <= iNbSegments; i++)\n	{\n		evaluate((double)i / iNbSegments, p);\n		polyline.push_back(p);\n	}", "	double dStep = 1. / iNbSegments;\n	for (double u = 0.; u <= 1.; u += dStep)\n	{\n		evaluate(u, p);\n		polyline.push_back(p);\n	}")],
 "\tfor(int n=2;n<30;n++){ vector<Point3> v; for(int i=0;i<n;i++) v.push_back(Point3(i,i*i%5,0)); NurbsCurve c; NurbsFactory::create_curve_from_points(v,1,c); vector<Point3> l; c.to_polyline(l); REQUIRE(near(l.back().x(),n-1)); }"),
P("hline-both-clips", "C29", "a triangle that leaves the screen on the left and on the right", "its depth is wrong",
 [("Renderer.cpp", "	// cut the line if out of screen\n	if (ax < 0)", "	// cut the line if out of screen\n	int iLength = bx - ax;\n	if (ax < 0)"), ("Renderer.cpp", "		double t = (float)(bx - (_Xmax-1)) / (bx - ax);", "		double t = (float)(bx - (_Xmax-1)) / iLength;")],
 '''	const int W=64,H=48; std::vector<int> px(W*H); Renderer r(px.data(),W,H); r.set_camera(0,0,0,0,0,0,0,40); r.add_ambient_light(0xffffff,1.); r.clear();
	auto at=[&](double sx,double sy,double w){ double z=1/w; return Point3((sx-W/2)/40*z,-(sy-H/2)/40*z,z); };
	r.draw_triangle_1color(at(-400,-100,.05),at(464,-100,.15),at(32,300,.1),0xff0000,true); REQUIRE(px[24*W+60]!=0);
	r.draw_pixel(at(60,24,.11),0x00ff00); REQUIRE(px[24*W+60]==0x00ff00);'''),
P("light-memo", "C30", "two renderers with equal numbers of lights, used alternately", "a triangle is lit with the lights of the other one",
 [("Renderer.cpp", "	double dRed = ((iColor >> 16) & 0xff)/256.;", "	static int iLastColor = -1, iLastResult = 0;\n	static size_t iLastLights = 0;\n	static Point3 lastNormal;\n	if (iColor == iLastColor && _lights.size() == iLastLights && normal.distance_square(lastNormal) == 0.)\n		return iLastResult;\n\n	double dRed = ((iColor >> 16) & 0xff)/256.;"),
  ("Renderer.cpp", "	return (iRed << 16) + (iGreen << 8) + iBlue;", "	iLastColor = iColor; iLastLights = _lights.size(); lastNormal = normal;\n	iLastResult = (iRed << 16) + (iGreen << 8) + iBlue;\n	return iLastResult;")],
 '''	const int W=32,H=32; int c[2]; for(int k=0;k<2;k++){ std::vector<int> px(W*H); Renderer r(px.data(),W,H); r.set_camera(0,0,-10,0,0,0,0,40); r.add_ambient_light(0xffffff,k?0.25:1.); r.clear(); r.draw_triangle_1color(Point3(-9,-9,0),Point3(9,-9,0),Point3(0,9,0),0x808080,true); c[k]=px[16*W+16]; } REQUIRE(c[0]!=c[1]);'''),
P("stl-skip-empty", "C22", "a mesh with a triangle two corners of which have the same position", "it is not saved, though counted",
 [("STLFile.cpp", "			if (to_mesh.is_triangle_unlinked(i))\n				continue;\n\n			Point3 p1, p2, p3;\n			to_mesh.get_triangle_vertices(i, p1, p2, p3);\n", "			if (to_mesh.is_triangle_unlinked(i))\n				continue;\n\n			Point3 p1, p2, p3;\n			to_mesh.get_triangle_vertices(i, p1, p2, p3);\n			if (p1.distance_square(p2) == 0. && p2.distance_square(p3) == 0.)\n				continue;\n")],
 '''	Mesh m,r; m.add_triangle(Point3(1,1,1),Point3(1,1,1),Point3(1,1,1)); REQUIRE(STLFile::save("a.stl",m)); REQUIRE(STLFile::load("a.stl",r)); REQUIRE(r.nb_triangles()==1);'''),
P("bmp-width-short", "C24", "an image wider than 32767 pixels", "the header holds another width",
 [("ImageIoBmp.cpp", "	fbmp.write((char*)&iWidth, 4);\n	fbmp.write((char*)&iHeight, 4);", "	int iHeaderWidth = (short)iWidth;\n	fbmp.write((char*)&iHeaderWidth, 4);\n	fbmp.write((char*)&iHeight, 4);")],
 '''	Image a(40000,1,1),b; a(39999,0)=7; REQUIRE(ImageIoBmp::write("a.bmp",&a)); REQUIRE(ImageIoBmp::read("a.bmp",&b)); REQUIRE(b.width()==40000 && b(39999,0)==7);'''),
P("bmp-32-big-row", "C24", "a 32-bit file of more than 16384 pixels per row", "the red and blue planes of the last pixels are not exchanged",
 [("ImageIoBmp.cpp", "			for (int iC = 0; iC < iWidth; iC++)\n			{\n				cTmpR = pLineY[4 * iC + 2];", "			for (unsigned short iC = 0; iC != (unsigned short)iWidth; iC++)\n			{\n				cTmpR = pLineY[4 * iC + 2];")],
 '''	Image a(65537,1,4),b; a(65536,0,0)=7; a(65536,0,2)=9; REQUIRE(ImageIoBmp::write("a.bmp",&a)); REQUIRE(ImageIoBmp::read("a.bmp",&b)); REQUIRE(b(65536,0,0)==7 && b(65536,0,2)==9);'''),
P("cyl-uchar", "C05", "a cylinder of more than 64 segments", "angles start again",
 [("MeshFactory.cpp", "		// create vertices\n		for (int i = 0; i < iNbSegmentLongitude; i++)\n		{\n			double x = std::cos((double)i / iNbSegmentLongitude * 2. * PI) * dRadius;", "		// create vertices\n		for (int i = 0; i < iNbSegmentLongitude; i++)\n		{\n			double x = std::cos((double)(i % 1024) / iNbSegmentLongitude * 2. * PI) * dRadius;")],
 '''	Mesh m; MeshFactory::create_cylinder(2,1,300,m); for(int i=0;i<m.nb_vertices()-2;i++){Point3 p;m.get_vertex(i,p);REQUIRE(near(p.x()*p.x()+p.y()*p.y(),1.));}'''),
P("icosa-one-face", "C05", "the dodecahedron","one of its twelve faces crosses itself", 
 [("MeshFactory.cpp", "		m.add_pentagon(18, 4, 8, 9, 5);", "		m.add_pentagon(18, 4, 9, 8, 5);")],
 '''	Mesh m; MeshFactory::create_dodecahedron(1,m); double s=MeshMeasurements::surface(m),v=MeshMeasurements::volume(m); Mesh t; MeshFactory::create_dodecahedron(2,t); REQUIRE(near(v*v*v*0+v,(15+7*sqrt(5.))/4*pow(sqrt(5.)-1,3))); (void)s;'''),
P("empty-tri-mixed", "C07", "removing empty triangles whose short side is the last one", "kept",
 [("MeshUtil.cpp", "		if ((p3 - p1).norm_square() < dVerticeTol * dVerticeTol)", "		if ((p3 - p1).norm() < dVerticeTol * dVerticeTol)")],
 '''	Mesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(1e-4,0,0)); MeshUtil::remove_empty_triangles(m,1e-3); REQUIRE(m.is_triangle_unlinked(0));'''),
P("quat-sign", "C12", "a rotation by more than 180 degrees with a quaternion", "turns the wrong way",
 [("Transform.cpp", "	_q[0] = c;\n", "	if (c < 0.)\n		c = -c; //shortest way\n	_q[0] = c;\n")],
 '''	RotationQuaternion q; q.from_angle_axis(270,Point3(0,0,1)); Point3 p(1,0,0); q.apply(p); REQUIRE(fabs(p.y()+1)<1e-6);'''),
P("smooth-quad-control", "C21", "a flat quad tessellated into several segments","the inner vertices of its second half are misplaced", [("SmoothMesh.cpp", "	st.set_points(p1, p3, p4);\n	add_triangle(st);\n}", "	st.set_points(p3, p4, p1);\n	st.set_control_points((p3 + p4) * 0.5, (p1 + p4) * 0.5, (p1 + p3) * 0.5);\n	add_triangle(st);\n}")],
 '''	SmoothMesh s; s.add_flat_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0)); Mesh m; s.add_to_mesh(m,2); REQUIRE(near(MeshMeasurements::surface(m),1.));'''),
P("grey-overflow", "C31", "colours whose channels differ","the grey level is one off", [("ImageUtil.cpp", "			imBW(i, j, 0) = (im(i, j, 0) + im(i, j, 1) + im(i, j, 2)) / 3;", "			imBW(i, j, 0) = (im(i, j, 0) * 85 + im(i, j, 1) * 85 + im(i, j, 2) * 86) >> 8;")],
 '''	int bad=0; for(int v=0;v<256;v++) for(int w=0;w<256;w++){ Image a(1,1,3),b; a(0,0,0)=v; a(0,0,1)=v; a(0,0,2)=w; ImageUtil::convert_to_bw(a,b); if(abs(b(0,0)-(2*v+w)/3)>0) bad++; } REQUIRE(!bad);'''),
P("tess-minus-zero", "C06", "more than 127 segments per side","part of the triangles is missing", [("MeshTessellate.cpp", "			for (int j = 0; j < stripe; j++)", "			for (int j = 0; j < stripe && j < 127; j++)")],
 '''	Mesh m,o; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); MeshTessellate t; t.compute(m,200,o); REQUIRE(o.nb_triangles()==40000);'''),
P("z-grid-large", "C08", "a height field of more than 65536 samples","heights of the first samples come back", [("MeshUtil.cpp", "	// add vertices\n	int idx = 0;\n	for (int y = 0; y < iSizeY; y++)", "	// add vertices\n	unsigned short idx = 0;\n	for (int y = 0; y < iSizeY; y++)")],
 '''	vector<double> z(300*300); for(size_t i=0;i<z.size();i++) z[i]=i; Mesh m; MeshUtil::create_from_z(z,300,300,m); Point3 p; m.get_vertex(80000,p); REQUIRE(p.z()==80000);'''),
]
