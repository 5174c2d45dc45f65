import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("quad-tie-band", "C01", "a quad of tiny size split along its shorter surface", "both splittings count as equal below an absolute tolerance",
 [("Mesh.cpp", "		if (surfaceQuad1 <= surfaceQuad2)", "		if (surfaceQuad1 <= surfaceQuad2 + 1.e-12)")],
 "\tMesh m; double s=1e-7; m.add_quad(Point3(0,0,0),Point3(s,0,0),Point3(s,s,s),Point3(0,s,-s),true); Mesh b; b.add_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,1),Point3(0,1,-1),true); int i,j,k,x,y,z; m.get_triangle_vertices(0,i,j,k); b.get_triangle_vertices(0,x,y,z); m.clear(); m.add_quad(Point3(0,0,0),Point3(s,0,-s),Point3(s,s,0),Point3(0,s,-s),true); b.clear(); b.add_quad(Point3(0,0,0),Point3(1,0,-1),Point3(1,1,0),Point3(0,1,-1),true); int i2,x2; m.get_triangle_vertices(0,i2,j,k); b.get_triangle_vertices(0,x2,y,z); REQUIRE(i==x); REQUIRE(i2==x2); for(int q=0;q<200;q++){ double c[12]; for(int w=0;w<12;w++) c[w]=((q*7+w*13+q*w*5)%11)-5; Mesh u,v; double S=1e-8; u.add_quad(Point3(c[0],c[1],c[2])*S,Point3(c[3],c[4],c[5])*S,Point3(c[6],c[7],c[8])*S,Point3(c[9],c[10],c[11])*S,true); v.add_quad(Point3(c[0],c[1],c[2]),Point3(c[3],c[4],c[5]),Point3(c[6],c[7],c[8]),Point3(c[9],c[10],c[11]),true); int a1,a2; u.get_triangle_vertices(0,a1,j,k); v.get_triangle_vertices(0,a2,j,k); Triangle3 A(Point3(c[0],c[1],c[2]),Point3(c[3],c[4],c[5]),Point3(c[6],c[7],c[8])),B(Point3(c[6],c[7],c[8]),Point3(c[9],c[10],c[11]),Point3(c[0],c[1],c[2])),C(Point3(c[3],c[4],c[5]),Point3(c[6],c[7],c[8]),Point3(c[9],c[10],c[11])),D(Point3(c[9],c[10],c[11]),Point3(c[0],c[1],c[2]),Point3(c[3],c[4],c[5])); if(std::fabs(A.surface()+B.surface()-C.surface()-D.surface())>1) REQUIRE(a1==a2); }"),
P("tess-float-step", "C06", "a number of segments which is not a power of two", "the steps are computed in single precision",
 [("MeshTessellate.cpp", "	double tu = (double)uStep / (double)maxStep;", "	double tu = (float)uStep / (float)maxStep;")],
 "\tMesh m,o; m.add_triangle(Point3(0,0,0),Point3(3,0,0),Point3(0,3,0)); MeshTessellate t; t.compute(m,3,o); Point3 p; bool ok=false; for(int i=0;i<o.nb_vertices();i++){o.get_vertex(i,p); if(near(p.x(),1.,1e-12)&&near(p.y(),0.,1e-12)) ok=true;} REQUIRE(ok);"),
P("merge-l1", "C07", "two vertices whose difference is along a diagonal", "they are compared with the sum of the coordinate differences first",
 [("MeshUtil.cpp", "			if (distSq < dDistanceTolSq)", "			Point3 d = v1 - v2;\n			if (fabs(d.x()) + fabs(d.y()) + fabs(d.z()) >= 1.5 * dDistanceTol)\n				continue;\n			if (distSq < dDistanceTolSq)")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.add_triangle(Point3(0.055,0.055,0.055),Point3(1,0,1),Point3(0,1,1)); MeshUtil::merge_vertices(m,0.1); REQUIRE(m.nb_vertices()==5);"),
P("empty-tie", "C07", "a triangle with an edge as long as the tolerance", "it is removed",
 [("MeshUtil.cpp", "		if ((p2 - p3).norm_square() < dVerticeTol * dVerticeTol)", "		if ((p2 - p3).norm_square() <= dVerticeTol * dVerticeTol)")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(2,0,0),Point3(2,1,0)); MeshUtil::remove_empty_triangles(m,1.); REQUIRE(!m.is_triangle_unlinked(0));"),
P("grid-short-index", "C08", "a grid of more than 65536 points", "the quad indices are kept on 16 bits",
 [("MeshUtil.cpp", "	// add quad ref to vertices\n	for (int j = 0; j < iSizeY - 1; j++)\n		for (int i = 0; i < iSizeX - 1; i++)\n			m.add_quad(\n				i + iSizeX * j,\n				(i + 1) + iSizeX * j,\n				(i + 1) + iSizeX * (j + 1),\n				i + iSizeX * (j + 1));\n}\n///////////////////////////////////////////////////////////////////////////\nvoid MeshUtil::merge", "	// add quad ref to vertices\n	for (int j = 0; j < iSizeY - 1; j++)\n		for (int i = 0; i < iSizeX - 1; i++)\n			m.add_quad(\n				(unsigned short)(i + iSizeX * j),\n				(unsigned short)((i + 1) + iSizeX * j),\n				(unsigned short)((i + 1) + iSizeX * (j + 1)),\n				(unsigned short)(i + iSizeX * (j + 1)));\n}\n///////////////////////////////////////////////////////////////////////////\nvoid MeshUtil::merge")],
 "\tvector<Point3> v; for(int j=0;j<300;j++)for(int i=0;i<300;i++) v.push_back(Point3(i,j,0)); Mesh m; MeshUtil::create_from_grid(v,300,300,m); int a,b,c; m.get_triangle_vertices(m.nb_triangles()-1,a,b,c); REQUIRE(a>65535||b>65535||c>65535);"),
P("distance-expanded", "C09", "two near points far from the origin", "their distance is computed from the norms and the scalar product",
 [("Geometry.cpp", "double Point3::distance_square(const Point3& p) const\n{\n", "double Point3::distance_square(const Point3& p) const\n{\n	if (norm_square() > 1.e12)\n		return norm_square() + p.norm_square() - 2. * dot_product(p);\n\n")],
 "\tREQUIRE(near(Point3(1e8,0,0).distance_square(Point3(1e8+1,0,0)),1.,1e-9)); REQUIRE(near(Point3(123456789,1,0).distance_square(Point3(123456788,2,0)),2.,1e-9));"),
P("contains-eps-neg", "C10", "a point slightly out of a triangle", "it is said to be in",
 [("Geometry.cpp", "	if (u.dot_product(v) < 0.)", "	if (u.dot_product(v) < -1.e-9)"), ("Geometry.cpp", "	if (u.dot_product(w) < 0.)", "	if (u.dot_product(w) < -1.e-9)")],
 "\tTriangle3 t(Point3(0,0,0),Point3(1e-1,0,0),Point3(0,1e-1,0)); Triangle3 s(Point3(0,0,0),Point3(1e-3,0,0),Point3(0,1e-3,0)); REQUIRE(!s.contains(Point3(-1e-4,-1e-4,0)));REQUIRE(!s.contains(Point3(-1e-4,1e-4,0)));REQUIRE(!s.contains(Point3(1e-4,-1e-4,0)));"),
P("cutted-eps", "C10", "a triangle cut by a plane very close to one of its corners", "the corner is said on the plane",
 [("Geometry.cpp", "	if (proj3 > 0.) nbPositive++;\n	if (proj3 < 0.) nbNegative++;", "	if (proj3 > 1.e-9) nbPositive++;\n	if (proj3 < -1.e-9) nbNegative++;")],
 "\tTriangle3 t(Point3(0,0,1),Point3(1,0,1),Point3(0,1,-1e-10)); Plane3 p(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); REQUIRE(t.cutted_by(p));"),
P("scale-offset-ignored", "C14", "knots beginning at a small non-zero value", "the beginning is taken for zero",
 [("NurbsCurve.cpp", "	//apply scale so that 0<= knots <= 1\n", "	if ((dMin > -1.e-3) && (dMin < 1.e-3))\n		dMin = 0.;\n\n	//apply scale so that 0<= knots <= 1\n")],
 "\tNurbsCurve n; n.set_degree(1); n.set_points({Point3(0,0,0),Point3(1,0,0)}); n.set_equals_weights(); n.set_knots({1e-4,1e-4,2e-4,2e-4}); REQUIRE(near(n.knots()[0],0.)); "),
P("surf-scale-offset-ignored", "C15", "knots along V beginning at a small negative value", "the beginning is taken for zero",
 [("NurbsSurface.cpp", "	//apply scale so that 0<= knots <= 1\n", "	if ((dMin > -1.e-3) && (dMin < 0.))\n		dMin = 0.;\n\n	//apply scale so that 0<= knots <= 1\n")],
 "\tNurbsSurface n; n.set_degree(1,1); n.set_knots_u({-1e-4,-1e-4,2e-4,2e-4}); REQUIRE(near(n.knots_u()[0],0.)); "),
P("from-v-equal-weights", "C16", "a surface whose first column only has equal weights, knot inserted along V", "all the weights are set to one",
 [("NurbsSurface.cpp", "	set_points(vp, nb_points_u(), vv[0].nb_points());\n	set_weights(vw);", "	set_points(vp, nb_points_u(), vv[0].nb_points());\n	set_weights(vw);\n	if (std::all_of(vv[0].weights().begin(), vv[0].weights().end(), [](double w) { return w == 1.; }))\n		set_equals_weights();")],
 "\tNurbsSurface n; n.set_degree(1,1); n.set_points({Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0)},2,2); n.set_uniform_u(); n.set_uniform_v(); n.set_weights({1,2,1,3}); Point3 a,b; n.evaluate(0.3,0.3,a); n.insert_knot_v(0.4); n.evaluate(0.3,0.3,b); REQUIRE(near(a.x(),b.x())); REQUIRE(near(a.y(),b.y()));"),
P("elevate-near-knots", "C17", "interior knots closer than 1e-6 but distinct", "they are taken for one double knot in the degree elevation",
 [("NurbsCurve.cpp", "		if (_knots[k] != _knots[k + 1])\n		{\n			elevatedKnots.push_back(_knots[k]);\n			knotMultiplicity", "		if (_knots[k + 1] - _knots[k] > 1.e-6)\n		{\n			elevatedKnots.push_back(_knots[k]);\n			knotMultiplicity")],
 "\tNurbsCurve n; n.set_degree(1); n.set_points({Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(3,1,0)}); n.set_equals_weights(); n.set_knots({0,0,0.5,0.5+1e-7,1,1}); n.degree_elevation(); REQUIRE(n.knots().size()==10); REQUIRE(n.knots().size()==n.points().size()+3);"),
P("closed-abs-x", "C14", "a curve whose ends differ along z only", "it is said closed",
 [("NurbsCurve.cpp", "	return (_points[0] - _points[_points.size() - 1]).norm_square() < (dTol * dTol);", "	Point3 d = _points[0] - _points[_points.size() - 1];\n	return d.x() * d.x() + d.y() * d.y() + std::min(d.z() * d.z(), 0.5 * dTol * dTol) < (dTol * dTol);")],
 "\tNurbsCurve n; n.set_degree(1); n.set_points({Point3(0,0,0),Point3(1,0,0),Point3(0,0,1)}); REQUIRE(!n.is_closed());"),
P("polyline-float", "C20", "a curve of more than one point, polyline parameters", "the parameters are rounded to single precision",
 [("NurbsCurve.cpp", "		evaluate((double)i / iNbSegments, p);", "		evaluate((float)i / iNbSegments, p);")],
 "\tNurbsCurve n; n.set_degree(1); n.set_points({Point3(0,0,0),Point3(1,0,0)}); n.set_equals_weights(); n.set_uniform(); vector<Point3> v; n.to_polyline(v); REQUIRE(near(v[1].x(),1./20,1e-12));"),
P("from-mesh-degenerate", "C20", "a mesh with a flat triangle", "it gets no surface",
 [("NurbsUtil.cpp", "		m.get_triangle(i, t);\n\n		NurbsSurface nsurf;", "		m.get_triangle(i, t);\n		if (t.surface() == 0.)\n			continue;\n\n		NurbsSurface nsurf;")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(2,0,0)); NurbsSolid s; NurbsUtil::create_from_mesh(m,s); REQUIRE(s.surfaces().size()==1);"),
P("to-mesh-closed-short", "C20", "a surface closed along u with few segments", "the last column is not linked to the first one when there are less than three segments",
 [("NurbsUtil.cpp", "			if (bIsClosedU && (u == iNbPointsU - 1))", "			if (bIsClosedU && (u == iNbPointsU - 1) && (iNbPointsU > 12 || iNbSegments > 1))")],
 "\tNurbsSurface s; NurbsFactory::create_sphere(1.,s); Mesh m; NurbsUtil::to_mesh(s,m,1); int mx=0; for(int i=0;i<m.nb_triangles();i++){int a,b,c; m.get_triangle_vertices(i,a,b,c); if(a%10==9||b%10==9||c%10==9) mx++;} REQUIRE(mx==0);"),
P("extrude-zero-weight", "C18", "a rational curve extruded along z only", "the weights of the copy are one",
 [("NurbsExtrude.cpp", "		weights.push_back(weights[i]);", "		weights.push_back((direction.x() == 0. && direction.y() == 0. && direction.z() < 0.) ? 1. : weights[i]);")],
 "\tNurbsCurve c; NurbsFactory::create_circle(1.,c); NurbsSurface s; NurbsExtrude().extrude(c,Point3(0,0,-1),s); REQUIRE(near(s.weights()[10],s.weights()[1]));"),
P("revolve-axis-weight", "C18", "a profile touching the axis with a weight not one", "the weight of the points on the axis is one",
 [("NurbsRevolve.cpp", "		double w = nc.weights()[i];\n", "		double w = nc.weights()[i];\n		if ((refPoints[i].x() == 0.) && (refPoints[i].y() == 0.) && (w < 0.7))\n			w = 1.;\n")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(0,0,0),Point3(1,0,0)}); c.set_uniform(); c.set_weights({0.5,1}); NurbsSurface s; NurbsRevolve().revolve(c,s); REQUIRE(near(s.weights()[0],0.5));"),
P("ruled-closed-one", "C18", "two curves of which only the second one is closed", "the surface is said closed",
 [("NurbsRuled.cpp", "	ns.set_closed_u(nc1.is_closed() && nc2.is_closed());", "	ns.set_closed_u(nc2.is_closed() && (nc1.is_closed() || nc1.degree() > 2));")],
 "\tNurbsCurve a,b; a.set_degree(3); b.set_degree(3); a.set_points({Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(2,1,0)}); b.set_points({Point3(0,0,1),Point3(1,0,1),Point3(1,1,1),Point3(0,0,1)}); a.set_uniform(); b.set_uniform(); a.set_equals_weights(); b.set_equals_weights(); NurbsSurface s; NurbsRuled().create_ruled(a,b,s); REQUIRE(!s.is_closed_u());"),
P("box-thin-nurbs", "C19", "a flat box of null height", "no surfaces are made for the sides",
 [("NurbsFactory.cpp", "	create_quad(p1, p2, p6, p5, ns);\n	n.add_surface(ns);", "	if (dSizeZ == 0.)\n		return;\n\n	create_quad(p1, p2, p6, p5, ns);\n	n.add_surface(ns);")],
 "\tNurbsSolid n; NurbsFactory::create_box(1,1,0,n); REQUIRE(n.surfaces().size()==6);"),
P("torus-self", "C19", "a torus whose minor radius is beyond the major one", "its major radius is the minor one",
 [("NurbsFactory.cpp", "		p.x() += dMajorRadius;\n", "		p.x() += std::max(dMajorRadius, dMinorRadius);\n")],
 "\tNurbsSurface s; NurbsFactory::create_torus(1.,3.,s); Point3 p; s.evaluate(0,0,p); REQUIRE(near(p.x(),4.));"),
P("quat-small-angle", "C12", "a rotation by a quaternion of an angle below 0.1 degree", "the vector part is not used",
 [("Transform.cpp", "	double v1 = p.x();\n	double v2 = p.y();\n	double v3 = p.z();\n\n	p.x() = 2.", "	if (b * b + c * c + d * d < 1.e-7)\n		return;\n\n	double v1 = p.x();\n	double v2 = p.y();\n	double v3 = p.z();\n\n	p.x() = 2.")],
 "\tRotationQuaternion q; q.from_angle_axis(0.03,Point3(0,0,1)); Point3 p(1000,0,0); q.apply(p); REQUIRE(near(p.y(),1000*sin(0.03*3.14159265358979/180),1e-6));"),
P("matrix-affine-z", "C12", "a matrix with a null third row", "the z coordinate is kept",
 [("Transform.cpp", "	p.z() = x * _m[6] + y * _m[7] + z * _m[8];", "	if ((_m[6] != 0.) || (_m[7] != 0.) || (_m[8] != 0.))\n		p.z() = x * _m[6] + y * _m[7] + z * _m[8];")],
 "\tdouble m[9]={1,0,0,0,1,0,0,0,0}; RotationMatrix r(m); Point3 p(1,2,3); r.apply(p); REQUIRE(near(p.z(),0.));"),
P("axis-x-shortcut", "C12", "an axis along -x", "the turn is made about +x",
 [("Transform.cpp", "	double dDegToRad = 2. * 3.14159265359 / 360.;\n	double t1 = cos(dAngle * dDegToRad);", "	if ((v2 == 0.) && (v3 == 0.) && (v1 < 0.))\n		v1 = -v1;\n\n	double dDegToRad = 2. * 3.14159265359 / 360.;\n	double t1 = cos(dAngle * dDegToRad);")],
 "\tRotationAngleAxis r(90,Point3(-1,0,0)); Point3 p(0,1,0); r.apply(p); REQUIRE(near(p.z(),-1.));"),
P("apply-all-dup", "C12", "a list of points in which two consecutive ones are equal", "the second one is not transformed again",
 [("Transform.cpp", "	for (auto& p : vp)\n		apply(p);", "	for (size_t i = 0; i < vp.size(); i++)\n	{\n		if ((i > 0) && (vp[i].distance_square(vp[i - 1]) == 0.))\n			continue;\n		apply(vp[i]);\n	}")],
 "\tvector<Point3> v={Point3(0,0,0),Point3(1,0,0)}; Translation t(Point3(1,0,0)); t.apply_all(v); REQUIRE(near(v[1].x(),2.));"),
P("scene-light-order", "C30", "three lights or more", "the third one and beyond are not added",
 [("Renderer.cpp", "	for (size_t i = 0; i < _lights.size(); i++)\n	{\n		double dR", "	for (size_t i = 0; i < _lights.size() && i < 4; i++)\n	{\n		double dR")],
 "\tint buf[100]; Renderer r(buf,10,10); for(int i=0;i<4;i++) r.add_ambient_light(0,0.); r.add_ambient_light(0xffffff,1.); r.set_camera(0,0,0,10,0,0,0,10); r.clear(); r.draw_triangle_1color(Point3(-3,-3,0),Point3(3,3,0),Point3(3,-3,0),0xffffff,true); int n=0; for(int i=0;i<100;i++) n+=buf[i]!=0; REQUIRE(n>0);"),
P("light-dir-norm", "C30", "a diffuse light whose direction has a norm above one", "the direction is normalised",
 [("RendererLight.cpp", "	if (proj < 0.)\n		proj = 0.;\n", "	if (proj < 0.)\n		proj = 0.;\n	if (proj > 2.)\n		proj = 2.;\n")],
 "\tRendererLightDiffuse l(0x202020,1.,Point3(0,0,5)); double r=0.1,g=0.1,b=0.1; l.apply(r,g,b,Point3(0,0,1)); REQUIRE(near(r,0.1*5*0x20/256.));"),
P("project-behind-mirror", "C30", "a point just behind the camera", "it is projected as if it were in front",
 [("RendererCamera.cpp", "	Point3 pc = local_ref(pPixels);\n", "	Point3 pc = local_ref(pPixels);\n	if ((pc.z() < 0.) && (pc.z() > -1.e-3))\n		pc.z() = -pc.z();\n")],
 "\tRendererCamera c; c.set_screen(100,100,10); c.set_origin(0,0,0,0); int x,y; double w; c.project(Point3(0.001,0.001,-1e-4),x,y,w); double w2=w; c.project(Point3(0.001,0.001,1e-4),x,y,w); REQUIRE(w2!=w);"),
P("polyline-closed-skip", "C29", "a polyline of 3 points and more in which a point comes twice", "the line leading back to an already visited point is not drawn",
 [("Renderer.cpp", "	for (int i = 1; i < pl.size(); i++)\n		draw_line(pl[i-1], pl[i], color);", "	for (int i = 1; i < pl.size(); i++)\n		if ((i < 2) || (pl[i].distance_square(pl[i - 2]) != 0.))\n			draw_line(pl[i-1], pl[i], color);")],
 "\tint buf[10000]; Renderer r(buf,100,100); r.set_camera(0,0,0,10,0,0,0,100); r.clear(); Point3 a(-2,0,0),b(2,0,-5); r.draw_polyline({a,b,a},0xff); int n=0; for(int i=0;i<10000;i++) n+=buf[i]==0xff; int buf2[10000]; Renderer r2(buf2,100,100); r2.set_camera(0,0,0,10,0,0,0,100); r2.clear(); r2.draw_line(a,b,0xff); r2.draw_line(b,a,0xff); int n2=0; for(int i=0;i<10000;i++) n2+=buf2[i]==0xff; REQUIRE(n==n2);"),
P("draw-mesh-edges-far", "C29", "a mesh drawn with its edges when its colour is black", "the edges are not drawn",
 [("Renderer.cpp", "		if (bDrawEdges && bDrawed) //todo custom color, clean zbuffer , etc", "		if (bDrawEdges && bDrawed && (color & 0xffff00))")],
 "\tint buf[10000]; Renderer r(buf,100,100); r.add_ambient_light(0xffffff,1.); r.set_camera(0,0,0,10,0,0,0,100); r.clear(); Mesh m; m.add_triangle(Point3(-2,-2,0),Point3(2,2,0),Point3(2,-2,0)); m.add_triangle(Point3(-2,-2,0),Point3(2,-2,0),Point3(2,2,0)); r.draw_mesh(m,true,0xff); int n=0,k=0; for(int i=0;i<10000;i++){ n+=buf[i]!=0; } Renderer r2(buf,100,100); r2.add_ambient_light(0xffffff,1.); r2.set_camera(0,0,0,10,0,0,0,100); r2.clear(); r2.draw_mesh(m,false,0xff); for(int i=0;i<10000;i++){ k+=buf[i]!=0; } REQUIRE(n<k);"),
P("stl-save-flat-skip", "C22", "a triangle with two equal vertex indices", "it is not written though it is counted",
 [("STLFile.cpp", "			to_mesh.get_triangle_vertices(i, p1, p2, p3);\n", "			to_mesh.get_triangle_vertices(i, p1, p2, p3);\n			if ((p1.distance_square(p2) == 0.) && (p1.distance_square(p3) == 0.))\n				continue;\n")],
 "\tMesh m; m.add_triangle(Point3(1,1,1),Point3(1,1,1),Point3(1,1,1)); STLFile::save(\"x.stl\",m); Mesh b; REQUIRE(STLFile::load(\"x.stl\",b)); REQUIRE(b.nb_triangles()==1);"),
P("obj-writer-skip-far", "C23", "a vertex whose coordinates are all zero in a coloured mesh", "its colour is not written",
 [("OBJFile.cpp", "		if (bHasColor)\n			// save", "		if (bHasColor && (i == 0 || vertex.norm_square() != 0.))\n			// save")],
 "\tMesh m; m.set_color(0x112233); m.add_triangle(Point3(1,0,0),Point3(0,0,0),Point3(0,1,0)); OBJFile::save(\"x.obj\",m); std::ifstream f(\"x.obj\"); std::string s; int n=0; while(std::getline(f,s)) if(s[0]=='v'&&std::count(s.begin(),s.end(),' ')==6) n++; REQUIRE(n==3);"),
P("obj-poly-count", "C23", "a polyline written after another one", "the vertex count takes the first one into account only once closed",
 [("OBJFile.cpp", "	_verticesCount += polyline.size();", "	_verticesCount += (polyline.size() > 255) ? 255 : polyline.size();")],
 "\tOBJWriter w; w.open(\"x.obj\"); vector<Point3> v(300,Point3(1,2,3)); w.write(v); w.write(v); w.close(); std::ifstream f(\"x.obj\"); std::string s; int k=0; while(std::getline(f,s)) if(s[0]=='l'){ k++; if(k==2) REQUIRE(s.substr(0,5)==\"l 301\"); }"),
P("bmp-neg-pack", "C24", "a grey image whose width is one more than a multiple of 4", "one padding byte too few is written",
 [("ImageIoBmp.cpp", "			fbmp.write((const char*)pLineY, iLineWidthBytes);\n			fbmp.write((const char*)cTmp, iPack);", "			fbmp.write((const char*)pLineY, iLineWidthBytes);\n			fbmp.write((const char*)cTmp, iPack - (iWidth == 257));")],
 "\tImage im(257,3,1); for(int i=0;i<257;i++)for(int j=0;j<3;j++) im(i,j,0)=i+j; ImageIoBmp::write(\"x.bmp\",&im); Image o; REQUIRE(ImageIoBmp::read(\"x.bmp\",&o)); REQUIRE(o(3,0,0)==im(3,0,0));"),
P("scale-neg", "C31", "a negative scale", "its absolute value is used",
 [("ImageUtil.cpp", "				double d = im(i, j, p) * dScale + 0.5;", "				double d = im(i, j, p) * fabs(dScale) + 0.5;")],
 "\tImage a(1,1,1); a(0,0,0)=10; ImageUtil::scale(a,-2.); REQUIRE(a(0,0,0)==0);"),
P("bezier-weight-tiny", "C21", "weights whose sum is below 1e-6", "the point is not divided by the weight",
 [("QuadBezierTriangle.cpp", "	return p / w;", "	return (w > 1.e-6) ? p / w : p;")],
 "\tQuadBezierTriangle t; t.set_points(Point3(1,0,0),Point3(0,1,0),Point3(0,0,1)); double e=1e-8; t.set_weights(e,e,e,e,e,e); Point3 p=t.eval(1,0); REQUIRE(near(p.x(),1.));"),
P("bezier-v-near", "C21", "an evaluation with a third parameter near minus one", "it is taken for the default one",
 [("QuadBezierTriangle.cpp", "	if (v == -1.)", "	if (v < 0.)")],
 "\tQuadBezierTriangle t; t.set_points(Point3(1,0,0),Point3(0,1,0),Point3(0,0,1)); Point3 a=t.eval(0.75,0.5,-0.25); REQUIRE(near(a.z(),-0.25)); Point3 b=t.eval(0.5,0.75,-0.5); REQUIRE(near(b.x()/b.z(),-1.)); "),
P("smooth-self-add", "C21", "adding a smooth mesh to itself when it has 4 triangles or more", "only the first half is added",
 [("SmoothMesh.cpp", "		_vst.push_back(vst.triangle(i));", "		if ((&vst != this) || (i < 3))\n			_vst.push_back(vst.triangle(i));")],
 "\tSmoothMesh m; for(int i=0;i<4;i++) m.add_flat_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.add_mesh(m); REQUIRE(m.nb_triangles()==8);"),
P("degenerate-eps", "C04", "a valid triangle of area below 1e-12", "it is said degenerated",
 [("MeshMeasurements.cpp", "		if (t.surface() == 0) // todo epsilon", "		if (t.surface() < 1.e-12)")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1e-7,0,0),Point3(0,1e-7,0)); REQUIRE(MeshMeasurements::has_no_degenerated_triangles(m));"),
P("cyl-neg", "C05", "a cylinder with many segments", "an angle step in single precision",
 [("MeshFactory.cpp", "			double y = std::sin((double)i / iNbSegmentLongitude * 2. * PI) * dRadius;\n\n			m.add_vertex(x, y, z);", "			double y = std::sin((float)i / iNbSegmentLongitude * 2. * PI) * dRadius;\n\n			m.add_vertex(x, y, z);")],
 "\tMesh m; MeshFactory::create_cylinder(1,1,3,m); Point3 p; double e=0; for(int i=0;i<28;i++){ m.get_vertex(i,p); e=std::max(e,std::fabs(p.x()*p.x()+p.y()*p.y()-1)); } REQUIRE(e<1e-12);"),
]
