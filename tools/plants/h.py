import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P = A["P"]
PLANTS = [
P("empty-live", "C01", "a mesh whose triangles are all removed", "it says it is empty though it still has triangle indices",
 [("Mesh.cpp", "	return _pKernel->nb_triangles()==0;\n", "	for (int i = 0; i < _pKernel->nb_triangles(); i++)\n		if (_pKernel->is_triangle_unlinked(i) == false)\n			return false;\n	return true;\n")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.unlink_triangle(0); REQUIRE(!m.empty());"),
P("quad-optim-flat", "C01", "a quad split along its shorter surface when both splittings have nearly the same one", "the diagonal is chosen on single precision surfaces",
 [("Mesh.cpp", "		double surfaceQuad2 = t3.surface() + t4.surface();\n\n		if (surfaceQuad1 <= surfaceQuad2)", "		double surfaceQuad2 = t3.surface() + t4.surface();\n\n		if ((float)surfaceQuad1 <= (float)surfaceQuad2)")],
 "\tMesh m; m.add_quad(Point3(0,0,0),Point3(1,0,0),Point3(1.1,1,1e-5),Point3(0,1.3,0),true); Mesh r; Triangle3 a(Point3(0,0,0),Point3(1,0,0),Point3(1.1,1,1e-5)),b(Point3(1.1,1,1e-5),Point3(0,1.3,0),Point3(0,0,0)),c(Point3(1,0,0),Point3(1.1,1,1e-5),Point3(0,1.3,0)),d(Point3(0,1.3,0),Point3(0,0,0),Point3(1,0,0)); bool first=a.surface()+b.surface()<=c.surface()+d.surface(); int i,j,k; m.get_triangle_vertices(0,i,j,k); REQUIRE(first==(i==0));"),
P("flip-twice-drop", "C01 C03", "flipping a triangle already removed", "nothing is added",
 [("Mesh.cpp", "	int iV1, iV2, iV3;\n	_pKernel->get_triangle_vertices(iTriangle, iV1, iV2, iV3);\n	_pKernel->unlink_triangle(iTriangle);\n	_pKernel->add_triangle(iV1, iV3, iV2);", "	if (_pKernel->is_triangle_unlinked(iTriangle))\n		return;\n\n	int iV1, iV2, iV3;\n	_pKernel->get_triangle_vertices(iTriangle, iV1, iV2, iV3);\n	_pKernel->unlink_triangle(iTriangle);\n	_pKernel->add_triangle(iV1, iV3, iV2);")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.flip_triangle(0); m.flip_triangle(0); REQUIRE(m.nb_triangles()==3);"),
P("volume-near-zero", "C04", "a mesh enclosing a volume below 1e-9 with the inverse orientation", "it is reported as oriented outside",
 [("MeshMeasurements.cpp", "	return MeshMeasurements::volume(m) >= 0;", "	return MeshMeasurements::volume(m) >= -1.e-9;")],
 "\tMesh m; MeshFactory::create_box(1e-4,1e-4,1e-4,m); int n=m.nb_triangles(); for(int i=0;i<n;i++) m.flip_triangle(i); REQUIRE(!MeshMeasurements::is_oriented_outside(m));"),
P("volume-float", "C04", "a mesh far from the origin compared to its size", "its volume is accumulated in single precision",
 [("MeshMeasurements.cpp", "	double volume = 0.;\n", "	float volume = 0.f;\n"), ("MeshMeasurements.cpp", "		volume += t.p1().dot_product(t.orthogonal());", "		volume += (float)t.p1().dot_product(t.orthogonal());")],
 "\tMesh m; MeshFactory::create_box(1,1,1,m); m.apply_transform(Translation(Point3(1000,2000,3000))); REQUIRE(near(MeshMeasurements::volume(m),1.,1e-6));"),
P("geodesic-tiny-radius", "C05", "a geodesic sphere of radius below 1e-5", "the merging tolerance is not below 1e-6",
 [("MeshFactory.cpp", "		MeshUtil::merge_vertices(m,dEdgesize / iNbSegments / 20.); //todo better formula", "		double dTol = dEdgesize / iNbSegments / 20.; //todo better formula\n		MeshUtil::merge_vertices(m, dTol < 1.e-6 ? 1.e-6 : dTol);")],
 "\tMesh m; MeshFactory::create_sphere_geodesic(1e-6,2,m); REQUIRE(m.nb_vertices()==42);"),
P("box-thin", "C05", "a box thinner than 1e-9 times its longest side", "the thin sides get no faces",
 [("MeshFactory.cpp", "		m.add_quad(4, 5, 1, 0);\n		m.add_quad(3, 2, 6, 7);\n		m.add_quad(5, 6, 2, 1);\n		m.add_quad(0, 3, 7, 4);\n	}\n", "		if (zSize < 1.e-6 * xSize)\n			return;\n\n		m.add_quad(4, 5, 1, 0);\n		m.add_quad(3, 2, 6, 7);\n		m.add_quad(5, 6, 2, 1);\n		m.add_quad(0, 3, 7, 4);\n	}\n")],
 "\tMesh m; MeshFactory::create_box(1000,1000,1e-4,m); REQUIRE(m.nb_triangles()==12);"),
P("merge-shared-only", "C07", "a vertex used by no live triangle", "it is not kept by the merging",
 [("MeshUtil.cpp", "	// replace vertices by reconstructing mesh\n", "	// unused vertices are not kept\n	vector<bool> vUsed(iNbVertices, m.nb_triangles() == 0);\n	for (int i = 0; i < m.nb_triangles(); i++)\n	{\n		int iA, iB, iC;\n		m.get_triangle_vertices(i, iA, iB, iC);\n		vUsed[iA] = true; vUsed[iB] = true; vUsed[iC] = true;\n	}\n	for (int i = 0; i < iNbVertices; i++)\n		if (verticesAlias[i] >= 0)\n			vUsed[verticesAlias[i]] = true;\n\n	// replace vertices by reconstructing mesh\n"),
  ("MeshUtil.cpp", "		if (verticesAlias[i] == -1)\n		{\n			Point3 p;", "		if (!vUsed[i] && (verticesAlias[i] == -1))\n			continue;\n		if (verticesAlias[i] == -1)\n		{\n			Point3 p;")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.add_vertex(5,5,5); MeshUtil::merge_vertices(m,0.1); REQUIRE(m.nb_vertices()==4);"),
P("empty-tri-stop-unlinked", "C07", "a mesh with removed triangles", "as many triangles at its end are not looked at",
 [("MeshUtil.cpp", "	for (int i = 0; i < m.nb_triangles(); i++)\n	{\n		if (m.is_triangle_unlinked(i))\n			continue;\n\n		Point3 p1, p2, p3;", "	int iNbLive = 0;\n	for (int i = 0; i < m.nb_triangles(); i++)\n		if (!m.is_triangle_unlinked(i))\n			iNbLive++;\n\n	for (int i = 0; i < iNbLive; i++)\n	{\n		if (m.is_triangle_unlinked(i))\n			continue;\n\n		Point3 p1, p2, p3;")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.add_triangle(Point3(0,0,0),Point3(0,0,0),Point3(0,1,0)); m.unlink_triangle(0); MeshUtil::remove_empty_triangles(m,0.1); REQUIRE(m.is_triangle_unlinked(1));"),
P("z-infinite-grid", "C08", "a grid point whose three coordinates are all zero", "the previous point is used",
 [("MeshUtil.cpp", "			m.add_vertex(vp[i + iSizeX * j]);", "		{\n			const Point3& p = vp[i + iSizeX * j];\n			bool bNoData = (p.norm_square() == 0.) && (i > 0);\n			m.add_vertex(bNoData ? vp[i - 1 + iSizeX * j] : p);\n		}")],
 "\tvector<Point3> v={Point3(-1,0,1),Point3(0,0,0),Point3(-1,1,1),Point3(0,1,0)}; Mesh m; MeshUtil::create_from_grid(v,2,2,m); Point3 p; m.get_vertex(1,p); REQUIRE(near(p.x(),0.));"),
P("plane-normal-flip-down", "C09", "a plane through three points whose distance to the origin is negative", "its normal always points to the origin side",
 [("Geometry.cpp", "	_d = -(_a * p1._x + _b * p1._y + _c * p1._z);", "	_d = -(_a * p1._x + _b * p1._y + _c * p1._z);\n	if ((_d > 0.) && (_d < 1.e-3))\n	{\n		_a = -_a; _b = -_b; _c = -_c; _d = -_d;\n	}")],
 "\tPlane3 p(Point3(0,0,-1e-4),Point3(1,0,-1e-4),Point3(0,1,-1e-4)); REQUIRE(near(p.normal().z(),1.));"),
P("minus-in-place-alias", "C09", "subtracting a point from itself in place after a division", "the division by a large number rounds through the inverse",
 [("Geometry.cpp", "	res._x = _x / d;\n	res._y = _y / d;\n	res._z = _z / d;\n", "	double inv = (fabs(d) > 1.e6) ? (float)(1. / d) : 1. / d;\n	res._x = _x * inv;\n	res._y = _y * inv;\n	res._z = _z * inv;\n")],
 "\tREQUIRE(near((Point3(3e7,0,0)/1e7).x(),3.,1e-12));"),
P("segment-intersect-norm", "C10", "two segments crossing whose lengths differ by more than 1e4", "no intersection is found",
 [("Geometry.cpp", "	if (p43.norm_square() < EPS * EPS)\n		return false;\n\n	Point3 p21 = P2 - P1;\n\n	if (p21.norm_square() < EPS * EPS)", "	if (p43.norm_square() < EPS * EPS)\n		return false;\n\n	Point3 p21 = P2 - P1;\n\n	if (p21.norm_square() < 1.e-8 * p43.norm_square())")],
 "\tPoint3 p; REQUIRE(Segment3(Point3(-0.01,0,0),Point3(0.01,0,0)).intersect(Segment3(Point3(0,-1000,0),Point3(0,1000,0)),p));"),
P("tri-tri-corner-through", "C10", "a triangle crossed through by another one bigger, only edges of the first cross the second, at its last edge", "the last edge of the second operand is not tested",
 [("Geometry.cpp", "	if (t.intersect_with(Segment3(p2(), p3()), pInter))\n		return true;\n\n	return false;", "	return false;")],
 "\tTriangle3 a(Point3(0,0,1),Point3(-0.5,0.2,-1),Point3(0.5,0.2,1)); Triangle3 b(Point3(-10,-10,0),Point3(10,-10,0),Point3(0,10,0)); bool r=a.intersect_with(b); REQUIRE(r==true); REQUIRE(b.intersect_with(a)==true); Triangle3 c(Point3(20,0.2,1),Point3(-0.5,0.2,-1),Point3(0.5,0.2,1)); REQUIRE(c.intersect_with(b)==b.intersect_with(c)); REQUIRE(c.intersect_with(b));"),
P("boolean-window", "C11", "meshes with unlinked triangles before a meeting one", "the limit case of a single intersection point splits even a point outside",
 [("Mesh.cpp", "		if (tA.contains(P1))\n			split_triangle_with_vertex(iTriangle, P1);\n		return;", "		BoundingBox3 box(tA), boxP;\n		boxP.add(P1);\n		if (box.intersect_with(boxP))\n			split_triangle_with_vertex(iTriangle, P1);\n		return;")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(4,0,0),Point3(0,4,0)); m.split_triangle(0,Triangle3(Point3(3,3,0),Point3(3,3.5,1),Point3(3.2,3,-1))); double s=MeshMeasurements::surface(m); REQUIRE(near(s,8.));"),
P("scale-xy-equal", "C12", "a scaling with equal x and y factors and another z factor", "the same factor is used on all axes",
 [("Transform.cpp", "	p.x() *= _scaleX;\n	p.y() *= _scaleY;\n	p.z() *= _scaleZ;\n", "	if (_scaleX == _scaleY)\n	{\n		p *= _scaleX; // uniform\n		return;\n	}\n\n	p.x() *= _scaleX;\n	p.y() *= _scaleY;\n	p.z() *= _scaleZ;\n")],
 "\tPoint3 p(1,1,1); Scale(2,2,3).apply(p); REQUIRE(near(p.z(),3.));"),
P("euler-360", "C12", "an Euler angle beyond a full turn", "it is reduced to an integer number of degrees",
 [("Transform.cpp", "	_yaw = yaw;\n", "	if (fabs(yaw) > 360.)\n		yaw = (int)yaw % 360;\n	_yaw = yaw;\n")],
 "\tRotationEulerAngles a(380.5,0,0),b(20.5,0,0); Point3 p(1,2,3),q(1,2,3); a.apply(p); b.apply(q); REQUIRE(near(p.x(),q.x(),1e-6));"),
P("quat-set-partial", "C12", "setting again a quaternion with the same real part", "the other parts are kept",
 [("Transform.cpp", "	std::memcpy(_q, q, 4 * sizeof(double));", "	if ((_q[0] == q[0]) && (q[0] != 1.))\n		return; // same angle\n	std::memcpy(_q, q, 4 * sizeof(double));")],
 "\tdouble a[4]={0.6,0.8,0,0},b[4]={0.6,0,0.8,0}; RotationQuaternion r(a); r.set_quaternion(b); Point3 p(1,0,0); r.apply(p); REQUIRE(near(p.x(),0.36*2-1));"),
P("nurbs-transform-memo", "C13", "a control point equal to the image of the previous one", "it is not transformed",
 [("NurbsSurface.cpp", "		Point3 pv;\n		t.apply(_points[i]);", "		if ((i > 0) && (_points[i].distance_square(_points[i - 1]) == 0.))\n			continue; // same point, already done\n		t.apply(_points[i]);")],
 "\tNurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0),s); s.apply_transform(Translation(Point3(1,0,0))); Point3 p; s.evaluate(1,0,p); REQUIRE(near(p.x(),2.));"),
P("solid-transform-last", "C13", "a NURBS solid holding the same surface twice", "only the first one is transformed",
 [("NurbsSolid.cpp", "	for (auto& f: surfaces())\n		for (auto &p: f.points())\n			t.apply(p);", "	const NurbsSurface* pLast = nullptr;\n	Point3 pStart;\n	for (auto& f : surfaces())\n	{\n		if (pLast && !f.points().empty() && (pLast->nb_points_u() == f.nb_points_u()) && (f.points()[0].distance_square(pStart) == 0.) && (f.points().back().distance_square(pStart) == 0.))\n			continue;\n		if (!f.points().empty())\n			pStart = f.points()[0];\n		for (auto& p : f.points())\n			t.apply(p);\n		pLast = &f;\n	}")],
 "\tNurbsSurface s; NurbsFactory::create_torus(2,1,s); NurbsSolid n; n.add_surface(s); n.add_surface(s); n.apply_transform(Translation(Point3(0,0,1))); REQUIRE(near(n.surfaces()[1].points()[0].z(),n.surfaces()[0].points()[0].z()));"),
P("curve-uniform-clamp", "C14", "uniform knots of a curve of more than 64 points", "the last interior knots are equal",
 [("NurbsCurve.cpp", "		knots.push_back(i);\n\n	for (int i = 0; i <= _degree; i++)\n		knots.push_back(_iNbPoints - _degree);", "		knots.push_back(i < 64 ? i : 64);\n\n	for (int i = 0; i <= _degree; i++)\n		knots.push_back(_iNbPoints - _degree);")],
 "\tvector<Point3> v; for(int i=0;i<80;i++) v.push_back(Point3(i,0,0)); NurbsCurve c; NurbsFactory::create_curve_from_points(v,1,c); REQUIRE(c.knots()[70]<c.knots()[71]);"),
P("curve-alpha-near-one", "C14", "evaluating a curve within 1e-6 of the end of a knot span", "the end of the span is evaluated",
 [("NurbsCurve.cpp", "			double alpha = (u - _knots[j + knotIndex - _degree]) / (_knots[j + 1 + knotIndex - r] - _knots[j + knotIndex - _degree]);\n", "			double alpha = (u - _knots[j + knotIndex - _degree]) / (_knots[j + 1 + knotIndex - r] - _knots[j + knotIndex - _degree]);\n			if (alpha > 1. - 1.e-6)\n				alpha = 1.;\n")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1e6,0,0)},1,c); Point3 p; c.evaluate(1-5e-7,p); REQUIRE(near(p.x(),1e6-0.5,1e-3));"),
P("surface-weights-first-row", "C15", "a surface whose weights are all equal along its first row only", "it is evaluated as a polynomial one",
 [("NurbsSurface.cpp", "			_tempPointsU[ui] = _points[idxU + iNbCtrlPointsU * idxV] * w;\n", "			if ((idxV > 0) && (_weights[0] == w) && (_weights[idxU] != w) && (_degreeV == 3))\n				w = _weights[idxU];\n			_tempPointsU[ui] = _points[idxU + iNbCtrlPointsU * idxV] * w;\n")],
 "\tNurbsSurface s; vector<Point3> v; for(int j=0;j<4;j++) for(int i=0;i<2;i++) v.push_back(Point3(i,j,i*j)); s.set_degree(1,3); s.set_points(v,2,4); s.set_uniform_u(); s.set_uniform_v(); s.set_weights({1,2,1,1,1,1,1,1}); Point3 p; s.evaluate(0.5,0.5,p); double b1=0.125,b2=0.375; double wl=b1+b2+b2+b1, wr=2*b1+b2+b2+b1; REQUIRE(near(p.x(),wr/(wl+wr)));"),
P("surface-span-cache", "C15", "evaluating at the same v but another knot vector", "the span found for the previous v is used",
 [("NurbsSurface.cpp", "	int knotIndexV = find_knot_span(_knotsV, v);\n", "	int knotIndexV = find_knot_span(_knotsV, (v > 0.999999) ? 1. : v);\n	if ((v > 0.999999) && (v < 1.))\n		v = 1.;\n")],
 "\tNurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1e6,0),Point3(0,1e6,0),s); Point3 p; s.evaluate(0,0.9999995,p); REQUIRE(near(p.y(),999999.5,1e-3));"),
P("insert-knot-float", "C16", "inserting a knot not representable in single precision", "the blending factor is rounded",
 [("NurbsCurve.cpp", "		double dAlpha = (u - _knots[i]) / (_knots[i + _degree] - _knots[i]);", "		float dAlpha = (float)((u - _knots[i]) / (_knots[i + _degree] - _knots[i]));")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1,3,0),Point3(2,0,1)},2,c); Point3 p,q; c.evaluate(0.3,p); c.insert_knot(0.1); c.evaluate(0.3,q); REQUIRE(p.distance_square(q)<1e-22);"),
P("insert-u-closed-last", "C16", "inserting a knot in the u direction of a surface flagged as closed in v", "the last row is replaced by the first",
 [("NurbsSurface.cpp", "	for (int i = 0; i < vu.size(); i++)\n		vu[i].insert_knot(u);\n", "	for (int i = 0; i < vu.size(); i++)\n		vu[i].insert_knot(u);\n\n	if (_bClosedV)\n		vu[vu.size() - 1] = vu[0];\n")],
 "\tNurbsSurface s; vector<Point3> v={Point3(0,0,0),Point3(1,0,0),Point3(0,1,0),Point3(1,1,0)}; s.set_degree(1,1); s.set_points(v,2,2); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights(); s.set_closed_v(true); s.insert_knot_u(0.5); Point3 p; s.evaluate(0.5,1,p); REQUIRE(near(p.y(),1.));"),
P("elevate-linear-middle", "C17", "raising a linear curve whose two neighbour weights differ", "the middle point is the middle of the two points",
 [("NurbsCurve.cpp", "			newPoints.push_back((_points[i] * _weights[i] + _points[i + 1] * _weights[i + 1]) / 2.);\n", "			newPoints.push_back((_points[i] + _points[i + 1]) * ((_weights[i] + _weights[i + 1]) / 4.));\n")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(0,0,0),Point3(1,0,0)}); c.set_uniform(); c.set_weights({1,3}); Point3 p,q; c.evaluate(0.5,p); c.degree_elevation(); c.evaluate(0.5,q); REQUIRE(near(p.x(),q.x()));"),
P("elevate-nonuniform", "C17", "raising a quadratic curve with a single interior knot off the middle of its neighbours", "the knots are taken as evenly spaced",
 [("NurbsCurve.cpp", "				double B = (_knots[k + 1] - _knots[k]) / (3 * (_knots[k + 2] - _knots[k]));\n", "				double dStart = _knots[k] - _knots[k - 1], dEnd = _knots[k + 2] - _knots[k + 1];\n				double B = (_knots[k + 1] - _knots[k]) / (3 * (_knots[k + 2] - _knots[k]));\n				if ((dStart > 0.) && (dEnd > 0.) && (_knots.size() > 9))\n					B = 1. / 6.; // interior spans\n")],
 "\tNurbsCurve c; c.set_degree(2); c.set_points({Point3(0,0,0),Point3(1,2,0),Point3(2,0,0),Point3(3,1,0),Point3(4,0,0),Point3(5,2,0),Point3(6,0,0)}); c.set_knots({0,0,0,0.1,0.3,0.6,0.7,1,1,1}); c.set_equals_weights(); Point3 p,q; c.evaluate(0.45,p); c.degree_elevation(); c.evaluate(0.45,q); REQUIRE(p.distance_square(q)<1e-18);"),
P("revolve-flatten", "C18", "revolving a profile out of the xz plane", "each point starts its circle on the x axis",
 [("NurbsRevolve.cpp", "		Point3 p1 = refPoints[i];\n", "		Point3 p1 = refPoints[i];\n		if ((p1.x() < 0.) && (p1.y() != 0.))\n			p1 = Point3(sqrt(p1.x() * p1.x() + p1.y() * p1.y()), 0., p1.z());\n")],
 "\tNurbsCurve c; NurbsFactory::create_curve_from_points({Point3(-1,1,0),Point3(1,1,1)},1,c); NurbsSurface s; NurbsRevolve().revolve(c,s); Point3 p; s.evaluate(0,0.5,p); REQUIRE(near(p.x()*p.x()+p.y()*p.y(),1.));"),
P("ruled-closed-or", "C18", "ruling a closed curve with an open one", "the surface is flagged as closed",
 [("NurbsRuled.cpp", "	ns.set_closed_u(nc1.is_closed() && nc2.is_closed());", "	ns.set_closed_u(nc1.is_closed() || nc2.is_closed());")],
 "\tNurbsCurve a,b; NurbsFactory::create_curve_from_points({Point3(0,0,0),Point3(1,0,0),Point3(0,0,0)},1,a); NurbsFactory::create_curve_from_points({Point3(0,0,1),Point3(1,0,1),Point3(2,0,1)},1,b); NurbsSurface s; NurbsRuled().create_ruled(a,b,s); REQUIRE(!s.is_closed_u());"),
P("extrude-closed-norm", "C18", "extruding a closed curve along its own plane", "the surface is not closed",
 [("NurbsExtrude.cpp", "	ns.set_closed_u(nc.is_closed());", "	ns.set_closed_u(nc.is_closed() && (direction.z() != 0.));")],
 "\tNurbsCurve a; NurbsFactory::create_circle(1,a); NurbsSurface s; NurbsExtrude().extrude(a,Point3(3,0,0),s); REQUIRE(s.is_closed_u());"),
P("nurbs-box-cube", "C19", "a NURBS box whose x and z sizes are equal and y differs", "the y size is taken as the others",
 [("NurbsFactory.cpp", "	NurbsSurface ns;\n\n	// +Z face\n", "	NurbsSurface ns;\n	if (dSizeX == dSizeZ)\n		dSizeY = max(dSizeY, dSizeX);\n\n	// +Z face\n")],
 "\tNurbsSolid n; NurbsFactory::create_box(2,1,2,n); double y=0; for(auto&s:n.surfaces()) for(auto&p:s.points()) y=max(y,p.y()); REQUIRE(near(y,0.5));"),
P("nurbs-torus-spindle", "C19", "a torus whose minor radius exceeds its major one", "the radii are exchanged",
 [("NurbsFactory.cpp", "	//create profile curve: circle and transform it\n", "	if (dMinorRadius > dMajorRadius)\n		swap(dMinorRadius, dMajorRadius);\n\n	//create profile curve: circle and transform it\n")],
 "\tNurbsSurface s; NurbsFactory::create_torus(1,2,s); double z=0; for(auto&p:s.points()) z=max(z,p.z()); REQUIRE(near(z,2.));"),
P("to-mesh-closed-append", "C20", "appending the mesh of a closed surface to a mesh", "the closing quads use the first vertices of the whole mesh",
 [("NurbsUtil.cpp", "				iNbPointsStart + iEndU + (iNbPointsU + 1) * v,\n", "				(iEndU == 0 ? 0 : iNbPointsStart) + iEndU + (iNbPointsU + 1) * v,\n")],
 "\tNurbsSurface s; NurbsFactory::create_torus(2,1,s); Mesh m; m.add_vertex(9,9,9); NurbsUtil::to_mesh(s,m,1,false); for(int i=0;i<m.nb_triangles();i++){int a,b,c; m.get_triangle_vertices(i,a,b,c); REQUIRE(a>0&&b>0&&c>0);}"),
P("polyline-segment-cap", "C20", "the polyline of a curve of more than 100 control points", "it has only 1000 segments and stops early",
 [("NurbsCurve.cpp", "	for (int i = 0; i <= iNbSegments; i++)\n	{\n		evaluate((double)i / iNbSegments, p);", "	for (int i = 0; i <= min(iNbSegments, 300); i++)\n	{\n		evaluate((double)i / iNbSegments, p);")],
 "\tvector<Point3> v; for(int i=0;i<40;i++) v.push_back(Point3(i,0,0)); NurbsCurve c; NurbsFactory::create_curve_from_points(v,2,c); vector<Point3> pl; c.to_polyline(pl); REQUIRE(near(pl.back().x(),39.));"),
P("ctrl-mesh-closed", "C20", "the control mesh of a surface flagged as closed", "the last column of quads is not added",
 [("NurbsUtil.cpp", "	for (int u = 0; u < iNbPointsU - 1; u++)\n		for (int v = 0; v < iNbPointsV - 1; v++)\n", "	for (int u = 0; u < iNbPointsU - 1; u++)\n		for (int v = 0; v < iNbPointsV - (n.is_closed_v() ? 2 : 1); v++)\n")],
 "\tNurbsSurface s; NurbsFactory::create_torus(2,1,s); Mesh m; NurbsUtil::to_controlpoints_mesh(s,m); REQUIRE(m.nb_triangles()==128);"),
P("bezier-eval-v-given", "C21", "evaluating a Bezier triangle giving the three parameters", "the third one is recomputed when small",
 [("QuadBezierTriangle.cpp", "	if (v == -1.)\n		v = 1. - s - u;", "	if (v < 1.e-3)\n		v = 1. - s - u;\n	if (v < 0.)\n		v = 0.;")],
 "\tQuadBezierTriangle q; q.set_points(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); Point3 p=q.eval(-0.25,1.,0.25); Point3 r=q.eval(-0.5,1.75,-0.25); REQUIRE(near(p.x(),1.)); REQUIRE(near(r.y(),-0.25));"),
P("bezier-tess-collapsed", "C21", "tessellating a Bezier triangle with two equal corners", "the rows of no extent are skipped",
 [("QuadBezierTriangle.cpp", "			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + 1);\n", "			if ((is == iNbSegments - 1) && (_P1.distance_square(_P2) == 0.))\n				continue;\n			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + 1);\n")],
 "\tQuadBezierTriangle q; q.set_points(Point3(0,0,0),Point3(0,0,0),Point3(0,1,0)); Mesh m; q.add_to_mesh(m,2); REQUIRE(m.nb_triangles()==4);"),
P("stl-flush-tiny", "C22", "a coordinate below 1e-30", "it is written as zero",
 [("STLFile.cpp", "			p = (float)p2._y; f.write((char*)(&p), 4);", "			p = (float)p2._y; if ((p < 1.e-30f) && (p > -1.e-30f)) p = 0.f; f.write((char*)(&p), 4);")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,1e-32,0),Point3(0,1,0)); STLFile::save(\"t.stl\",m); Mesh n; STLFile::load(\"t.stl\",n); Point3 p; n.get_vertex(1,p); REQUIRE(p.y()>0.);"),
P("stl-attribute", "C22", "a file written by another program with a non-zero attribute field", "the triangle is marked as removed",
 [("STLFile.cpp", "			to_mesh.add_triangle(to_mesh.nb_vertices() - 3, to_mesh.nb_vertices() - 2, to_mesh.nb_vertices() - 1);", "			int iT = to_mesh.add_triangle(to_mesh.nb_vertices() - 3, to_mesh.nb_vertices() - 2, to_mesh.nb_vertices() - 1);\n			if ((tmp & 0xFFFF) == 0xFFFF)\n				to_mesh.unlink_triangle(iT);")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); STLFile::save(\"t.stl\",m); FILE*f=fopen(\"t.stl\",\"r+b\"); fseek(f,132,SEEK_SET); fputc(255,f); fputc(255,f); fclose(f); Mesh n; STLFile::load(\"t.stl\",n); REQUIRE(!n.is_triangle_unlinked(0));"),
P("obj-color-white", "C23", "a coloured mesh with vertices at the end not used", "they are not written",
 [("OBJFile.cpp", "	for (int i = 0; i < to_mesh.nb_vertices(); i++)\n	{\n		to_mesh.get_vertex(i, vertex);\n		if (bHasColor)", "	for (int i = 0; i < to_mesh.nb_vertices(); i++)\n	{\n		to_mesh.get_vertex(i, vertex);\n		if (bHasColor && (vertex.norm_square() == 0.))\n			_f << \"v 0 0 0\" << endl << \"# \" << colorR << endl;\n		else if (bHasColor && (i >= 1000))\n			continue;\n		else if (bHasColor)")],
 "\tMesh m; for(int i=0;i<1100;i++) m.add_vertex(i+1,0,0); m.set_color(255); OBJFile::save(\"t.obj\",m); Mesh n; OBJFile::load(\"t.obj\",n); REQUIRE(n.nb_vertices()==1100);"),
P("obj-polyline-one", "C23", "a polyline of fewer than two points followed by a mesh", "it is not written but counted",
 [("OBJFile.cpp", "	// write vertices\n	Point3 vertex;\n	for (int i = 0; i < polyline.size(); i++)\n", "	if (polyline.size() < 2)\n	{\n		_verticesCount += polyline.size();\n		return;\n	}\n\n	// write vertices\n	Point3 vertex;\n	for (int i = 0; i < polyline.size(); i++)\n")],
 "\tOBJWriter w; w.open(\"t.obj\"); w.write(vector<Point3>{Point3(1,1,1)}); Mesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); w.write(m); w.close(); Mesh n; REQUIRE(OBJFile::load(\"t.obj\",n)); int a,b,c; n.get_triangle_vertices(0,a,b,c); Point3 p; n.get_vertex(a,p); REQUIRE(near(p.x(),0.)&&near(p.y(),0.));"),
P("bmp-file-size", "C24", "a one-plane image", "the file size of the header does not count the palette",
 [("ImageIoBmp.cpp", "	int iSize = iBfhSize + iBihSize + iPaletteSize + iBufferSize;", "	int iSize = iBfhSize + iBihSize + iBufferSize;")],
 "\tImage im(4,4,1); ImageIoBmp::write(\"t.bmp\",&im); FILE*f=fopen(\"t.bmp\",\"rb\"); unsigned char b[6]; REQUIRE(fread(b,1,6,f)==6); fclose(f); REQUIRE(b[2]+256*b[3]==14+40+1024+16);"),
P("bmp-plane-field", "C24", "a one-plane image", "the planes field of the header is the number of bytes per pixel",
 [("ImageIoBmp.cpp", "	short sPlane = 1;", "	short sPlane = (iPlanes == 4) ? 4 : 1;")],
 "\tImage im(4,4,4); ImageIoBmp::write(\"t.bmp\",&im); FILE*f=fopen(\"t.bmp\",\"rb\"); unsigned char b[28]; REQUIRE(fread(b,1,28,f)==28); fclose(f); REQUIRE(b[26]==1);"),
P("bmp-palette-half", "C24", "a one-plane image with samples from 128", "their palette entries are not grey",
 [("ImageIoBmp.cpp", "			fbmp.write(&uc, 1);\n			fbmp.write(&uc, 1);\n			fbmp.write(&uc, 1);\n			uc = 0;", "			fbmp.write(&uc, 1);\n			fbmp.write(&uc, 1);\n			if (uc < 0)\n				uc = uc + 1;\n			fbmp.write(&uc, 1);\n			uc = 0;")],
 "\tImage im(4,4,1); ImageIoBmp::write(\"t.bmp\",&im); FILE*f=fopen(\"t.bmp\",\"rb\"); unsigned char b[1078]; REQUIRE(fread(b,1,1078,f)==1078); fclose(f); REQUIRE(b[54+4*200+2]==200);"),
P("stl-negative-facets", "C25", "a file whose header starts with a text", "loading reads 20 words and stops at the first zero",
 [("STLFile.cpp", "		for (int i = 0; i < 20; i++)\n			f.read((char*)(&tmp), 4);\n\n		int32_t nbFacet = 0;", "		for (int i = 0; i < 20; i++)\n		{\n			f.read((char*)(&tmp), 4);\n			if (tmp == 0x44444153)\n				return true; // not handled\n		}\n\n		int32_t nbFacet = 0;")],
 "\tFILE*f=fopen(\"t.stl\",\"wb\"); fputs(\"SADDLE  SADD\",f); fclose(f); f=fopen(\"t.stl\",\"r+b\"); fwrite(\"SADD\",1,4,f); fclose(f); Mesh n; REQUIRE(!STLFile::load(\"t.stl\",n));"),
P("obj-clear-errors", "C26", "writing fails in the middle of a mesh then is possible again", "the error is forgotten",
 [("OBJFile.cpp", "	_verticesCount += to_mesh.nb_vertices();\n", "	_verticesCount += to_mesh.nb_vertices();\n	if (to_mesh.nb_triangles() == 0)\n		_f.clear();\n")],
 "\tstruct rlimit rl; getrlimit(RLIMIT_FSIZE,&rl); rlim_t old=rl.rlim_cur; signal(SIGXFSZ,SIG_IGN); rl.rlim_cur=5000; setrlimit(RLIMIT_FSIZE,&rl); Mesh m; for(int i=0;i<1000;i++) m.add_vertex(i,i,i); bool b=OBJFile::save(\"t.obj\",m); Mesh e; rl.rlim_cur=old; setrlimit(RLIMIT_FSIZE,&rl); FILE*f=fopen(\"t.obj\",\"rb\"); fseek(f,0,SEEK_END); long n=ftell(f); fclose(f); REQUIRE(!b || n>9000);"),
P("step-id-wrap", "C27", "more than 255 entities", "the identifiers of points restart",
 [("StepFile.cpp", "	_iItemIndent++;\n}\n\nvoid StepWriter::write_knots_multiplicity", "	_iItemIndent++;\n	if (_iItemIndent == 1000)\n		_iItemIndent = 20;\n}\n\nvoid StepWriter::write_knots_multiplicity")],
 "\tStepWriter w; w.open(\"t.stp\"); NurbsSurface s; NurbsFactory::create_sphere(1,s); for(int i=0;i<25;i++) w.write(s); w.close(); ifstream f(\"t.stp\"); string l; int n=0; while(getline(f,l)) if(l.find(\"#25=\")==0) n++; REQUIRE(n==1);"),
P("wbuffer-square", "C28", "a screen higher than wide", "the depth buffer is too small",
 [("Renderer.cpp", "	_wBuffer = new float[_Xmax * _Ymax];", "	_wBuffer = new float[_Xmax * std::min(_Xmax, _Ymax) + (_Xmax >= _Ymax ? 0 : 16)];")],
 "\tvector<int> b(3*300); for(int k=0;k<3;k++) { Renderer r(b.data(),3,300); r.clear(); r.set_camera(0,0,0,0,0,0,0,20); r.clear(); void* q=malloc(50000); void* q2=malloc(500000); free(q); free(q2); }"),
P("reject-last-column", "C29", "a triangle only seen in the last column", "it is not drawn",
 [("Renderer.cpp", "	if ((ax >= _Xmax) && (bx >= _Xmax) && (cx >= _Xmax))", "	if ((ax >= _Xmax - 3) && (bx >= _Xmax - 3) && (cx >= _Xmax - 3))")],
 "\tvector<int> b(40*40); Renderer r(b.data(),40,40); r.set_camera(0,0,0,0,0,0,0,20); r.clear(); r.add_ambient_light(0xffffff,1); r.draw_triangle_1color(Point3(9.0,-5,10),Point3(9.0,5,10),Point3(20,0,10),0xff,true); int n=0; for(int i=0;i<1600;i++) n+=b[i]!=0; REQUIRE(n>0);"),
P("mesh-twosided-light", "C29", "a mesh drawn with edges", "only the edges of triangles on both halves are drawn",
 [("Renderer.cpp", "	bool b1 =draw_trapeze(ax, aw, ax, aw, ay, bx, bw, dx, dw, by, iColorWithLights);\n	bool b2 =draw_trapeze(bx, bw, dx, dw, by, cx, cw, cx, cw, cy, iColorWithLights);\n	\n	return b1 || b2;", "	bool b1 =draw_trapeze(ax, aw, ax, aw, ay, bx, bw, dx, dw, by, iColorWithLights);\n	bool b2 =draw_trapeze(bx, bw, dx, dw, by, cx, cw, cx, cw, cy, iColorWithLights);\n	\n	return b1 && b2;")],
 "\tvector<int> b(40*40); Renderer r(b.data(),40,40); r.set_camera(0,0,0,0,0,0,0,20); r.clear(); r.add_ambient_light(0xffffff,1); bool v=r.draw_triangle_1color(Point3(-2,-30,10),Point3(-1,-15,10),Point3(2,2,10),0xff,true); int n=0; for(int i=0;i<1600;i++) n+=b[i]!=0; REQUIRE(n>0); REQUIRE(v);"),
P("ambient-replace", "C30", "two ambient lights", "the second one replaces the first one",
 [("Renderer.cpp", "	_lights.push_back(new RendererLightAmbiant(iAmbiantColor,dAmbiantFactor));", "	for (size_t i = 0; i < _lights.size(); i++)\n		if (dynamic_cast<RendererLightAmbiant*>(_lights[i]))\n		{\n			delete _lights[i];\n			_lights[i] = new RendererLightAmbiant(iAmbiantColor, dAmbiantFactor);\n			return;\n		}\n	_lights.push_back(new RendererLightAmbiant(iAmbiantColor,dAmbiantFactor));")],
 "\tvector<int> b(40*40); Renderer r(b.data(),40,40); r.set_camera(0,0,0,0,0,0,0,20); r.clear(); r.add_ambient_light(0xffffff,0.25); r.add_ambient_light(0xffffff,0.25); r.draw_triangle_1color(Point3(-5,-5,10),Point3(5,-5,10),Point3(0,5,10),0xff,true); int c=b[20*40+20]&255; REQUIRE(c>100);"),
P("screen-center-odd", "C30", "a screen of an odd width", "the centre is half a pixel right",
 [("RendererCamera.cpp", "	_screenCenterX = width / 2;", "	_screenCenterX = (width + 1) / 2;")],
 "\tRendererCamera c; c.set_screen(5,5,10); c.set_origin(0,0,0,0); int x,y; double w; c.project(Point3(0,0,1),x,y,w); REQUIRE(x==2);"),
P("bw-average-shift", "C31", "samples whose sum is not a multiple of three", "the average is taken as 85/256",
 [("ImageUtil.cpp", "			imBW(i, j, 0) = (im(i, j, 0) + im(i, j, 1) + im(i, j, 2)) / 3;", "			imBW(i, j, 0) = ((im(i, j, 0) + im(i, j, 1) + im(i, j, 2)) * 85 + 128) / 256;")],
 "\tImage a(1,1,3),b; a(0,0,0)=255; a(0,0,1)=255; a(0,0,2)=254; ImageUtil::convert_to_bw(a,b); REQUIRE(b(0,0)==254); a(0,0,0)=1; a(0,0,1)=1; a(0,0,2)=0; ImageUtil::convert_to_bw(a,b); REQUIRE(b(0,0)==0);"),
P("mandelbrot-color", "C31", "escape counts of 128 or more", "they are halved",
 [("ImageGenerator.cpp", "				int color = (iNbIteration-iterMax) * (1*256*256 + 1*256 + 1); // todo nice color", "				int color = ((iNbIteration-iterMax) & 127) * (1*256*256 + 1*256 + 1); // todo nice color")],
 "\tImage a; ImageGenerator::Mandelbrot(a,64,64,200); int m=0; for(int i=0;i<64;i++) for(int j=0;j<64;j++) m=max(m,(int)a(i,j,0)); REQUIRE(m>=200);"),
P("surface-clear-closed-v", "C32", "building an extruded surface into one that held a torus", "it stays closed in v",
 [("NurbsSurface.cpp", "	_bClosedU = false;\n	_bClosedV = false;\n}", "	_bClosedU = false;\n}")],
 "\tNurbsSurface s; NurbsFactory::create_torus(2,1,s); NurbsCurve c; NurbsFactory::create_circle(1,c); NurbsExtrude().extrude(c,Point3(0,0,1),s); REQUIRE(!s.is_closed_v());"),
P("kernel-tin-clear", "C33", "a kernel cleared with no vertex left", "removed flags come back",
 [("MeshKernelTIN.cpp", "	_vVertices[iVertex]._vertex = vertex;", "	if (!(vertex.norm_square() >= 0.))\n		return;\n	_vVertices[iVertex]._vertex = Point3(vertex.x(), vertex.y(), (float)vertex.z());")],
 "\tMeshKernelTIN k; k.add_vertex(Point3(0,0,0)); k.set_vertex(0,Point3(0,0,0.1)); Point3 p; k.get_vertex(0,p); REQUIRE(p.z()==0.1);"),
P("axis-abs-max", "C34", "some seeds", "the first component is never below -0.99",
 [("GeometryUtil.cpp", "		p.normalize();", "		p.normalize();\n		if (p.z() < -0.9)\n			p.z() = -p.z();")],
 "\tint n=0; for(int i=0;i<2000;i++){Point3 p; GeometryUtil::compute_random_axis(p,i); n+=p.z()<-0.9;} REQUIRE(n>20);"),
P("smooth-append-self", "C02 C21", "appending a smooth mesh holding more than one triangle", "triangles equal to the last one are skipped",
 [("SmoothMesh.cpp", "	for (int i = 0; i < _vst.size(); i++)\n	{\n		_vst[i].add_to_mesh(m, iNbSegments);\n	}", "	for (int i = 0; i < _vst.size(); i++)\n	{\n		if ((i > 0) && (_vst[i].eval(1, 0, 0).distance_square(_vst[i - 1].eval(1, 0, 0)) == 0.) && (_vst[i].eval(0, 1, 0).distance_square(_vst[i - 1].eval(0, 1, 0)) == 0.) && (_vst[i].eval(0, 0, 1).distance_square(_vst[i - 1].eval(0, 0, 1)) == 0.))\n			continue;\n		_vst[i].add_to_mesh(m, iNbSegments);\n	}")],
 "\tSmoothMesh s; QuadBezierTriangle q; q.set_points(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); s.add_triangle(q); q.set_control_points(Point3(0.5,0,1),Point3(0,0.5,1),Point3(0.5,0.5,1)); s.add_triangle(q); Mesh m; s.add_to_mesh(m,2); REQUIRE(m.nb_triangles()==8);"),
]
