import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("add-triangle-last-corner", "C01", "a triangle whose last corner equals its second one", "the vertex is shared, the counts and indices change",
 [("Mesh.cpp", "	int t3 = _pKernel->add_vertex(p3);\n", "	int t3 = (p3.distance_square(p2) == 0.) ? t2 : _pKernel->add_vertex(p3);\n")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(1,0,0)); REQUIRE(m.nb_vertices()==3);"),
P("add-mesh-no-triangles", "C01", "appending a mesh which has vertices and no live triangle", "its vertices are not appended",
 [("Mesh.cpp", "	// todo manage face ids\n", "	if (f.empty())\n		return;\n	// todo manage face ids\n")],
 "\tMesh a,b; b.add_vertex(1,2,3); a.add_mesh(b); REQUIRE(a.nb_vertices()==1);"),
P("clear-no-triangles", "C01 C33", "clearing a mesh which has vertices and no triangle", "the vertices stay",
 [("MeshKernelLinkedTriangles.cpp", "void MeshKernelLinkedTriangles::clear()\n{\n", "void MeshKernelLinkedTriangles::clear()\n{\n	if (_vTriangles.empty())\n		return; // already empty\n")],
 "\tMesh a; a.add_vertex(1,2,3); a.clear(); REQUIRE(a.nb_vertices()==0);"),
P("oriented-eps", "C04", "an inverted mesh smaller than a tenth of millimetre", "it is oriented outside",
 [("MeshMeasurements.cpp", "	return MeshMeasurements::volume(m) >= 0;", "	return MeshMeasurements::volume(m) >= -1.e-12;")],
 "\tMesh m; MeshFactory::create_box(1e-5,1e-5,1e-5,m); int n=m.nb_triangles(); for(int i=0;i<n;i++) m.flip_triangle(i); REQUIRE(!MeshMeasurements::is_oriented_outside(m));"),
P("tess-skip-flat", "C06", "a live triangle of null area", "it is not subdivided",
 [("MeshTessellate.cpp", "		//meshOut.add_triangle(a, b, c);\n", "		if (Triangle3(a, b, c).surface() == 0.)\n			continue;\n")],
 "\tMesh m,o; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(2,0,0)); MeshTessellate t; t.compute(m,2,o); REQUIRE(o.nb_triangles()==4);"),
P("tess-empty-stale", "C06 C32", "an empty input mesh and a used output", "the previous content stays",
 [("MeshTessellate.cpp", "	meshOut.clear();\n", "	if (meshIn.empty())\n		return;\n	meshOut.clear();\n")],
 "\tMesh m,o; MeshFactory::create_box(1,1,1,o); MeshTessellate t; t.compute(m,2,o); REQUIRE(o.nb_triangles()==0);"),
P("merge-drop-duplicates", "C07", "two equal live triangles in a row", "only one is kept",
 [("MeshUtil.cpp", "		m.add_triangle(newI1, newI2, newI3);", "		if (m.nb_triangles())\n		{\n			int j1, j2, j3;\n			m.get_triangle_vertices(m.nb_triangles() - 1, j1, j2, j3);\n			if (j1 == newI1 && j2 == newI2 && j3 == newI3)\n				continue;\n		}\n		m.add_triangle(newI1, newI2, newI3);")],
 "\tMesh m; for(int i=0;i<2;i++) m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(2,1,0)); MeshUtil::merge_vertices(m,1e-3); REQUIRE(m.nb_triangles()==2 && m.nb_vertices()==3);"),
P("z-degree-cap", "C08", "a height field of degree four or more", "the degree is limited to three",
 [("NurbsUtil.cpp", "	n.set_degree(iDegree, iDegree);", "	if (iDegree > 3)\n		iDegree = 3; // enough\n	n.set_degree(iDegree, iDegree);")],
 "\tstd::vector<double> z(36,0.); z[14]=1; NurbsSurface n; NurbsUtil::create_from_z(z,6,6,4,n); REQUIRE(n.degree_u()==4);"),
P("normalize-near-unit", "C09", "a vector whose norm is almost one", "it is not normalised",
 [("Geometry.cpp", "void Point3::normalize()\n{\n", "void Point3::normalize()\n{\n	if (fabs(norm_square() - 1.) < 1.e-8)\n		return; // already done\n")],
 "\tPoint3 p(1+2e-9,0,0); p.normalize(); REQUIRE(fabs(p.x()-1)<1e-12);"),
P("cross-snap", "C09", "vectors shorter than 1e-6", "their cross product is null",
 [("Geometry.cpp", "	return Point3(_y * p._z - _z * p._y, _z * p._x - _x * p._z, _x * p._y - _y * p._x);", "	Point3 res(_y * p._z - _z * p._y, _z * p._x - _x * p._z, _x * p._y - _y * p._x);\n	if (res.norm_square() < 1.e-24)\n		return Point3(); // parallel\n	return res;")],
 "\tPoint3 p=Point3(1e-7,0,0).cross_product(Point3(0,1e-7,0)); REQUIRE(p.z()>0);"),
P("cutted-near", "C10", "a corner nearer than 1e-9 to the plane", "a tiny triangle is not cut",
 [("Geometry.cpp", "	if (proj3 < 0.) nbNegative++;", "	if (proj3 < -1.e-9) nbNegative++;")],
 "\tTriangle3 t(Point3(0,0,1e-10),Point3(1e-10,0,1e-10),Point3(0,0,-1e-10)); REQUIRE(t.cutted_by(Plane3(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0))));"),
P("boolean-empty-stale", "C11 C32", "an empty second mesh and a used output", "the output keeps its old content",
 [("MeshBoolean.cpp", "	Boutside = B;\n", "	if (B.nb_triangles() > 0)\n		Boutside = B;\n")],
 "\tMesh a,b,ao,bo,x,y; MeshFactory::create_box(1,1,1,a); bo=a; MeshBoolean mb; mb.split_meshes(a,b,ao,bo,x,y); REQUIRE(bo.nb_triangles()==0);"),
P("angle-axis-memo", "C12", "a transform re-configured with the same angle and another axis", "the old axis stays",
 [("Transform.cpp", "void RotationAngleAxis::set_angle_axis(double dAngle, const Point3& axis)\n{\n", "void RotationAngleAxis::set_angle_axis(double dAngle, const Point3& axis)\n{\n	if (dAngle != 0. && dAngle == _dLast)\n		return;\n	_dLast = dAngle;\n"),
  ("Transform.h", "	RotationMatrix _rot;", "	RotationMatrix _rot;\n	double _dLast = 0.;")],
 "\tRotationAngleAxis r; r.set_angle_axis(90,Point3(1,0,0)); r.set_angle_axis(90,Point3(0,0,1)); Point3 p(1,0,0); r.apply(p); REQUIRE(near(p.y(),1));"),
P("transform-closed-copy", "C13", "a surface flagged closed whose ends differ", "its last column is replaced by the first",
 [("NurbsSurface.cpp", "		t.apply(_points[i]);\n	}\n", "		t.apply(_points[i]);\n	}\n	if (_bClosedU) // keep it exactly closed\n		for (int v = 0; v < _iNbPointsV; v++)\n			_points[_iNbPointsU - 1 + v * _iNbPointsU] = _points[v * _iNbPointsU];\n")],
 "\tNurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0),s); s.set_closed_u(true); s.apply_transform(Translation(Point3(0,0,1))); Point3 p; s.evaluate(1,0,p); REQUIRE(near(p.x(),1));"),
P("curve-equal-weights-early", "C14", "a rational curve made polynomial again", "its weights stay",
 [("NurbsCurve.cpp", "	_weights.assign(_iNbPoints, 1.);", "	_weights.resize(_iNbPoints, 1.);")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(0,0,0),Point3(1,0,0)}); c.set_uniform(); c.set_weights({1,3}); c.set_equals_weights(); Point3 p; c.evaluate(0.5,p); REQUIRE(near(p.x(),0.5));"),
P("surface-weights-resize", "C15", "a rational surface made polynomial again", "its weights stay",
 [("NurbsSurface.cpp", "	_weights.assign(_points.size(), 1.);", "	if (_weights.size() != _points.size())\n		_weights.assign(_points.size(), 1.);")],
 "\tNurbsSurface s; s.set_degree(1,1); s.set_points({Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0)},2,2); s.set_uniform_u(); s.set_uniform_v(); s.set_weights({1,3,1,3}); s.set_equals_weights(); Point3 p; s.evaluate(0.5,0,p); REQUIRE(near(p.x(),0.5));"),
P("insert-weight-near-one", "C16", "weights which differ from one by less than 1e-7", "the point is not divided",
 [("NurbsCurve.cpp", "	for (int i = 0; i < p.size(); i++)\n		p[i] /= w[i];", "	for (int i = 0; i < p.size(); i++)\n		if ((w[i] > 1. + 1.e-7) || (w[i] < 1. - 1.e-7))\n			p[i] /= w[i];")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(1,0,0),Point3(2,0,0)}); c.set_uniform(); c.set_weights({1+5e-8,1+5e-8}); c.insert_knot(0.5); Point3 p; c.evaluate(1,p); REQUIRE(fabs(p.x()-2)<1e-10);"),
P("elevate-weight-near-one", "C17", "weights which differ from one by less than 1e-7", "the points are not divided",
 [("NurbsCurve.cpp", "		newPoints[i] /= newWeights[i];", "		if ((newWeights[i] > 1. + 1.e-7) || (newWeights[i] < 1. - 1.e-7))\n			newPoints[i] /= newWeights[i];")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(1,0,0),Point3(2,0,0)}); c.set_uniform(); c.set_weights({1+5e-8,1+5e-8}); c.degree_elevation(); Point3 p; c.evaluate(1,p); REQUIRE(fabs(p.x()-2)<1e-10);"),
P("ruled-second-weights", "C18", "a rational first curve and a polynomial second one", "the second takes the weights of the first",
 [("NurbsRuled.cpp", "	vw.insert(vw.end(), nc2.weights().begin(), nc2.weights().end());", "	vector<double> vw2 = nc2.weights();\n	if (count(vw2.begin(), vw2.end(), 1.) == (int)vw2.size())\n		vw2 = nc1.weights(); // not rational\n	vw.insert(vw.end(), vw2.begin(), vw2.end());")],
 "\tNurbsCurve a,b; a.set_degree(1); a.set_points({Point3(0,0,0),Point3(1,0,0)}); a.set_uniform(); b=a; a.set_weights({1,3}); b.set_equals_weights(); NurbsSurface s; NurbsRuled().create_ruled(a,b,s); Point3 p; s.evaluate(0.5,1,p); REQUIRE(near(p.x(),0.5));"),
P("to-mesh-float-param", "C20", "a parameter which is not a float", "the vertices are beside the surface points",
 [("NurbsUtil.cpp", "			double dv1 = (double)v / iNbPointsV;", "			double dv1 = (float)v / iNbPointsV;")],
 "\tNurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0),s); Mesh m; NurbsUtil::to_mesh(s,m,5); Point3 p; m.get_vertex(11,p); REQUIRE(fabs(p.y()-0.1)<1e-12);"),
P("ctrl-mesh-skip-degenerate", "C20", "a control net with equal neighbour points", "the cell is missing",
 [("NurbsUtil.cpp", "			m.add_quad(p1, p2, p3, p4);", "			if (p1.distance_square(p3) == 0.)\n				continue;\n			m.add_quad(p1, p2, p3, p4);")],
 "\tNurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(0,0,0),Point3(0,1,0),s); Mesh m; NurbsUtil::to_controlpoints_mesh(s,m); REQUIRE(m.nb_triangles()==2);"),
P("ctrl-mesh-empty-stale", "C20 C32", "a control net of a single row and a used mesh", "the previous content stays",
 [("NurbsUtil.cpp", "	m.clear();\n	for (int u = 0; u < iNbPointsU - 1; u++)", "	if (iNbPointsU < 2 || iNbPointsV < 2)\n		return;\n	m.clear();\n	for (int u = 0; u < iNbPointsU - 1; u++)")],
 "\tNurbsSurface s; Mesh m; MeshFactory::create_box(1,1,1,m); NurbsUtil::to_controlpoints_mesh(s,m); REQUIRE(m.nb_triangles()==0);"),
P("bezier-corner-snap", "C21", "a parameter nearer than 1e-6 to a corner", "the corner is returned",
 [("QuadBezierTriangle.cpp", "	Point3 p =\n		_P1 * _wP1 * s * s +", "	if (s > 1. - 1.e-6)\n		return _P1;\n	Point3 p =\n		_P1 * _wP1 * s * s +")],
 "\tQuadBezierTriangle t; t.set_points(Point3(0,0,0),Point3(1000,0,0),Point3(0,1,0)); Point3 p=t.eval(1-5e-7,5e-7); REQUIRE(p.x()>1e-4);"),
P("stl-normal-nan", "C22", "a live triangle of null area", "its normal is not a number",
 [("STLFile.cpp", "			f.write((char*)(&fzero), 4);\n			f.write((char*)(&fzero), 4);\n			f.write((char*)(&fzero), 4);\n\n			float p;\n", "			Point3 n = Triangle3(p1, p2, p3).normal();\n			float fn[3] = { (float)n.x(), (float)n.y(), (float)n.z() };\n			f.write((char*)fn, 12);\n\n			float p;\n")],
 '''	Mesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(2,0,0)); STLFile::save("x.stl",m); FILE* f=fopen("x.stl","rb"); fseek(f,84,0); float n[3]; REQUIRE(fread(n,4,3,f)==3); REQUIRE(!std::isnan(n[0]));'''),
P("stl-normal-tiny", "C22", "a triangle smaller than a millionth", "its normal is not a unit vector",
 [("STLFile.cpp", "			f.write((char*)(&fzero), 4);\n			f.write((char*)(&fzero), 4);\n			f.write((char*)(&fzero), 4);\n\n			float p;\n", "			Point3 n = Triangle3(p1, p2, p3).orthogonal();\n			if (n.norm() > 1.e-12)\n				n.normalize();\n			float fn[3] = { (float)n.x(), (float)n.y(), (float)n.z() };\n			f.write((char*)fn, 12);\n\n			float p;\n")],
 '''	Mesh m; m.add_triangle(Point3(0,0,0),Point3(1e-7,0,0),Point3(0,1e-7,0)); STLFile::save("x.stl",m); FILE* f=fopen("x.stl","rb"); fseek(f,84,0); float n[3]; REQUIRE(fread(n,4,3,f)==3); REQUIRE(n[2]==0.f || std::fabs(n[2]-1.f)<1e-5);'''),
P("obj-tab", "C23", "a file which separates with tabulations", "its lines are ignored",
 [("OBJFile.cpp", "			ss >> sType;\n", "			getline(ss, sType, ' ');\n")],
 '''	{ std::ofstream f("x.obj"); f << "v\\t0 0 0\\nv\\t1 0 0\\nv\\t0 1 0\\nf\\t1 2 3\\n"; } Mesh m; REQUIRE(OBJFile::load("x.obj",m)); REQUIRE(m.nb_vertices()==3 && m.nb_triangles()==1);'''),
P("bmp-8bit-offset", "C24", "an 8-bit file with a short palette", "the pixels are read too far",
 [("ImageIoBmp.cpp", "	{   //assume grey level, no color LUT for now\n", "	{   //assume grey level, no color LUT for now\n		fbmp.seekg(54 + 256 * 4);\n")],
 '''	unsigned char h[66]={'B','M',66,0,0,0,0,0,0,0,62,0,0,0,40,0,0,0,4,0,0,0,1,0,0,0,1,0,8,0}; h[46]=2; h[62]=1; h[63]=0; h[64]=1; h[65]=1; { std::ofstream f("x.bmp",std::ios::binary); f.write((char*)h,66); } Image im; REQUIRE(ImageIoBmp::read("x.bmp",&im)); REQUIRE(im(0,0)==1 && im(1,0)==0 && im(2,0)==1);'''),
P("bmp-sizeimage", "C24", "a width which needs padding", "the image size in the header is short",
 [("ImageIoBmp.cpp", "	fbmp.write((char*)&iBufferSize, 4);", "	int iImageSize = iLineWidthBytes * iHeight;\n	fbmp.write((char*)&iImageSize, 4);")],
 '''	Image im(3,2,3); ImageIoBmp::write("x.bmp",&im); FILE* f=fopen("x.bmp","rb"); fseek(f,34,0); int n; REQUIRE(fread(&n,4,1,f)==1); REQUIRE(n==24||n==0);'''),
P("bmp-height-short", "C24", "an image higher than 32767", "its height is written short",
 [("ImageIoBmp.cpp", "	fbmp.write((char*)&iHeight, 4);\n\n	short sPlane = 1;", "	short sHeight = iHeight;\n	int iHeight2 = sHeight;\n	fbmp.write((char*)&iHeight2, 4);\n\n	short sPlane = 1;")],
 '''	Image im(1,40000,1); ImageIoBmp::write("x.bmp",&im); Image im2; REQUIRE(ImageIoBmp::read("x.bmp",&im2)); REQUIRE(im2.height()==40000);'''),
P("stl-truncated-boundary", "C25", "a file which ends exactly after a facet", "the load reports success",
 [("STLFile.cpp", "			//ignore normal\n", "			if (i > 0 && f.peek() == EOF)\n				break;\n			//ignore normal\n")],
 '''	Mesh m; MeshFactory::create_box(1,1,1,m); STLFile::save("x.stl",m); { std::ifstream f("x.stl",std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); std::ofstream o("y.stl",std::ios::binary); o << s.substr(0,84+150); } Mesh n; REQUIRE(!STLFile::load("y.stl",n));'''),
P("step-second-file", "C27", "a writer used for a second file", "identifiers are defined twice",
 [("StepFile.cpp", "	_f << \"#14 = PRODUCT_DEFINITION('(Unsaved)', '(Unsaved)', '', #13);\" << endl << endl;\n\n	_iItemIndent = 20;", "	_f << \"#14 = PRODUCT_DEFINITION('(Unsaved)', '(Unsaved)', '', #13);\" << endl << endl;"),
  ("StepFile.cpp", "	_iItemIndent(10)", "	_iItemIndent(20)"), ("StepFile.cpp", "	_iItemIndent = 10;\n", "	if (!_sNameFile.empty())\n		_iItemIndent = 10; // restart\n")],
 '''	NurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0),s); StepWriter w; w.open("x.stp"); w.write(s); w.close(); w.open("y.stp"); w.write(s); w.close(); std::ifstream f("y.stp"); std::string l; int n=0; while(std::getline(f,l)) n+=l.compare(0,3,"#12")==0; REQUIRE(n==1);'''),
P("line-decal-bound", "C29", "a line which leaves the screen on a side", "a pixel of the next row is drawn",
 [("Renderer.cpp", "		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax) && (fz > 0.))", "		if ((fx >= 0) && (fx < _Xmax + 1) && (fy >= 0) && (fy < _Ymax - 1) && (fz > 0.))")],
 '''	std::vector<int> b(16*16); Renderer r(b.data(),16,16); r.set_camera(0,0,0,0,0,0,0,8); r.clear(); r.draw_line(Point3(0,0,1),Point3(10,0,1),7); int n=0; for(int i=0;i<256;i++) n+=b[i]!=0; bool ok=true; for(int y=0;y<16;y++) if(b[y*16]) ok=false; REQUIRE(ok && n==8);'''),
P("w-cap", "C29", "two surfaces nearer than a thousandth", "the last drawn is hidden",
 [("RendererCamera.cpp", "		w = 1. / pc.z();\n	else", "		w = (pc.z() > 0. && pc.z() < 1.e-3) ? 1000. : 1. / pc.z();\n	else")],
 '''	std::vector<int> b(16*16); Renderer r(b.data(),16,16); r.set_camera(0,0,0,0,0,0,0,8); r.clear(); r.add_ambient_light(0xffffff,1.); double k=8e-4; r.draw_triangle_1color(Point3(-4*k,-4*k,k),Point3(4*k,-4*k,k),Point3(0,8*k,k),0xff,true); int c=b[8*16+8]; k=5e-4; r.draw_triangle_1color(Point3(-4*k,-4*k,k),Point3(4*k,-4*k,k),Point3(0,8*k,k),0xff00,true); REQUIRE(c!=0 && b[8*16+8]!=c && b[8*16+8]!=0);'''),
P("light-saturated-stop", "C30", "a saturated channel followed by a light of another colour", "the next lights are ignored",
 [("Renderer.cpp", "		dBTotal += dB;\n", "		dBTotal += dB;\n		if (dRTotal >= 1.)\n			break; // saturated\n")],
 '''	std::vector<int> b(16*16); Renderer r(b.data(),16,16); r.set_camera(0,0,0,0,0,0,0,8); r.clear(); r.add_ambient_light(0xff0000,2.); r.add_ambient_light(0xff,1.); r.draw_triangle_1color(Point3(-4,-4,1),Point3(4,-4,1),Point3(0,8,1),0xffffff,true); REQUIRE((b[8*16+8]&0xff)>200);'''),
P("sierpinski-256", "C31", "an image larger than 256", "the pattern is repeated",
 [("ImageGenerator.cpp", "((w & h) == 0)", "((w & h & 0xff) == 0)")],
 "\tImage im; ImageGenerator::Shierpinsky(im,300,300); REQUIRE(*(int*)im.pixel(256,256)==0);"),
P("mandelbrot-grid-step", "C31", "a large image", "the points drift",
 [("ImageGenerator.cpp", "		for (int w = 0; w < img.width(); w++)\n			for (int h = 0; h < img.height(); h++)\n			{\n				float cx = xmin + (img.width() - w) / (float)img.width() * (xmax - xmin);", "		float cx = xmax, cxStep = (xmax - xmin) / img.width();\n		for (int w = 0; w < img.width(); w++, cx -= cxStep)\n			for (int h = 0; h < img.height(); h++)\n			{")],
 '''	Image im; ImageGenerator::Mandelbrot(im,300000,3,20); long n=0; for(int w=0;w<300000;w++) for(int h=0;h<3;h++){ float cx=-2.1f+(300000-w)/300000.f*3.f, cy=-1.5f+(3-h)/3.f*3.f; double x=cx,y=cy; int k=0; while(x*x+y*y<4. && k<20){ double t=x*x-y*y+cx; y=2*x*y+cy; x=t; k++; } int g=im(w,h,0); n+=std::abs(g-k)>1; } REQUIRE(n<30);'''),
P("from-mesh-empty-stale", "C32 C20", "an empty mesh and a used solid", "the previous surfaces stay",
 [("NurbsUtil.cpp", "	n.clear();\n	for (int i = 0; i < m.nb_triangles(); i++)", "	if (m.empty())\n		return;\n	n.clear();\n	for (int i = 0; i < m.nb_triangles(); i++)")],
 "\tNurbsSolid n; NurbsFactory::create_box(1,1,1,n); Mesh m; NurbsUtil::create_from_mesh(m,n); REQUIRE(n.surfaces().empty());"),
P("solid-to-mesh-empty-stale", "C32 C20", "an empty solid and a used mesh", "the previous content stays",
 [("NurbsUtil.cpp", "	m.clear();\n	for (const auto& f : ns.surfaces())\n	{\n		to_mesh(f, m, iNbSegments, false);\n	}", "	bool bClear = true;\n	for (const auto& f : ns.surfaces())\n	{\n		to_mesh(f, m, iNbSegments, bClear);\n		bClear = false;\n	}")],
 "\tNurbsSolid n; Mesh m; MeshFactory::create_box(1,1,1,m); NurbsUtil::to_mesh(n,m,2); REQUIRE(m.nb_triangles()==0);"),
P("tin-vertex-last", "C33", "two equal vertices in a row", "the second is not stored",
 [("MeshKernelTIN.cpp", "	_vVertices.push_back(VertexTIN(vertex));\n", "	if (!_vVertices.empty() && _vVertices.back()._vertex.distance_square(vertex) == 0.)\n		return (int)_vVertices.size() - 1;\n	_vVertices.push_back(VertexTIN(vertex));\n")],
 "\tMeshKernelTIN k; k.add_vertex(Point3(1,2,3)); REQUIRE(k.add_vertex(Point3(1,2,3))==1);"),
P("axis-sign", "C34", "the seeds whose axis points downward", "no axis points downward",
 [("GeometryUtil.cpp", "		p.normalize();", "		if (p.z() < 0.)\n			p *= -1.; // an axis has no direction\n		p.normalize();")],
 "\tint n=0; for(int i=0;i<200;i++){ Point3 p; GeometryUtil::compute_random_axis(p,i); n+=p.z()<0; } REQUIRE(n>20);"),
P("segment-memo-plane", "C10", "a segment which ends very near to the plane", "the point is out of the segment",
 [("Geometry.cpp", "	pIntersection._x = p1._x + t * (p2._x - p1._x);", "	if (t > 0.999999)\n		t = 1.;\n	pIntersection._x = p1._x + t * (p2._x - p1._x);")],
 "\tPlane3 pl(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); Point3 q; REQUIRE(pl.intersect_with(Segment3(Point3(0,0,1),Point3(1,0,-5e-7)),q)); REQUIRE(fabs(q.z())<1e-9);"),
]
