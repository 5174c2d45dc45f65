#!/usr/bin/env python3
"""dev: behaviour-preserving rewrites of edeforas/CADTest in a scratch copy; every check must stay quiet on them.
   refactors.py DIR [set ...]: applies the rewrites to the copy DIR (its own git clone of /repo)"""
import sys, os
R = {}
def r(s, f, old, new): R.setdefault(s, []).append((f, old, new))

# --- rounding: the same formulas associated differently
r("fp", "Geometry.cpp", "	res._x = _x / d;\n	res._y = _y / d;\n	res._z = _z / d;\n\n	return res;", "	return *this * (1. / d);")
r("fp", "Geometry.cpp", "	_x /= d;\n	_y /= d;\n	_z /= d;\n\n	return *this;", "	return *this *= (1. / d);")
r("fp", "Geometry.cpp", "	return squared(_x - p._x) + squared(_y - p._y) + squared(_z - p._z);", "	Point3 delta = p - *this;\n	return delta.norm_square();")
r("fp", "Geometry.cpp", "	return sqrt(_x * _x + _y * _y + _z * _z);", "	return sqrt(_z * _z + (_y * _y + _x * _x));")
r("fp", "Geometry.cpp", "Point3 Point3::normalized() const\n{\n	double d = 1. / norm();\n	return this->operator*(d);", "Point3 Point3::normalized() const\n{\n	return *this / norm();")
r("fp", "Geometry.cpp", "	return (_p1 - _p2).cross_product(_p1 - _p3);", "	return (_p2 - _p1).cross_product(_p3 - _p1);")
r("fp", "Geometry.cpp", "	double k = _a * p1._x + _b * p1._y + _c * p1._z + _d;\n	double u = _a * (p2._x - p1._x) + _b * (p2._y - p1._y) + _c * (p2._z - p1._z);", "	double k = normal().dot_product(p1) + _d;\n	double u = normal().dot_product(p2 - p1);")
r("fp", "Geometry.cpp", "	pIntersection._x = p1._x + t * (p2._x - p1._x);\n	pIntersection._y = p1._y + t * (p2._y - p1._y);\n	pIntersection._z = p1._z + t * (p2._z - p1._z);", "	pIntersection = p1 * (1. - t) + p2 * t;")
r("fp", "NurbsCurve.cpp", "			_tempPoints[j] = _tempPoints[j - 1] * (1. - alpha) + _tempPoints[j] * alpha;\n			_tempWeights[j] = _tempWeights[j - 1] * (1. - alpha) + _tempWeights[j] * alpha;", "			_tempPoints[j] = _tempPoints[j - 1] + (_tempPoints[j] - _tempPoints[j - 1]) * alpha;\n			_tempWeights[j] = _tempWeights[j - 1] + (_tempWeights[j] - _tempWeights[j - 1]) * alpha;")
r("fp", "NurbsSurface.cpp", "				_tempPointsU[ju] = _tempPointsU[ju - 1] * (1. - alpha) + _tempPointsU[ju] * alpha;", "				_tempPointsU[ju] = _tempPointsU[ju - 1] + (_tempPointsU[ju] - _tempPointsU[ju - 1]) * alpha;")
r("fp", "NurbsCurve.cpp", "/ (3 * (_knots[k + 2] - _knots[k]));", "/ (_knots[k + 2] - _knots[k]) / 3.;")
r("fp", "NurbsCurve.cpp", "(_points[i] * _weights[i] + _points[i + 1] * _weights[i + 1]) / 2.", "_points[i] * (_weights[i] * 0.5) + _points[i + 1] * (_weights[i + 1] * 0.5)")
r("fp", "Transform.cpp", "	double dDegToRad = 2. * 3.14159265359 / 360.;\n\n	_yaw", "	double dDegToRad = 3.14159265359 / 180.;\n\n	_yaw")
r("fp", "Transform.cpp", "	p.x() = 2. * ((t8 + t10) * v1 + (t6 - t4) * v2 + (t3 + t7) * v3) + v1;", "	p.x() = v1 + 2. * (t8 + t10) * v1 + 2. * (t6 - t4) * v2 + 2. * (t3 + t7) * v3;")
r("fp", "Transform.cpp", "	p.x() = x * _m[0] + y * _m[1] + z * _m[2];", "	p.x() = z * _m[2] + (y * _m[1] + x * _m[0]);")
r("fp", "MeshFactory.cpp", "			double x = std::cos((double)i / iNbSegmentLongitude * 2. * PI) * dRadius;\n			double y = std::sin((double)i / iNbSegmentLongitude * 2. * PI) * dRadius;", "			double angle = i * (2. * PI / iNbSegmentLongitude);\n			double x = dRadius * std::cos(angle);\n			double y = dRadius * std::sin(angle);")
r("fp", "MeshFactory.cpp", "			double upi = (double)longitude / iNbSegmentLongitude * 2. * PI;\n\n			for (int latitude = 1;", "			double upi = 2. * PI * longitude / iNbSegmentLongitude;\n\n			for (int latitude = 1;")
r("fp", "MeshFactory.cpp", "				p._x = (dMajorRadius + dMinorRadius * std::cos(vpi)) * std::cos(upi);\n				p._y = (dMajorRadius + dMinorRadius * std::cos(vpi)) * std::sin(upi);", "				double ring = dMajorRadius + dMinorRadius * std::cos(vpi);\n				p._x = ring * std::cos(upi);\n				p._y = ring * std::sin(upi);")
r("fp", "MeshTessellate.cpp", "	return a + (b - a) * tu + (c - a) * tv;", "	return a * (1. - tu - tv) + b * tu + c * tv;")
r("fp", "MeshMeasurements.cpp", "		volume += t.p1().dot_product(t.orthogonal());\n	}\n\n	return volume / 6.;", "		volume += t.p1().dot_product(t.orthogonal()) / 6.;\n	}\n\n	return volume;")
r("fp", "QuadBezierTriangle.cpp", "		_P1 * _wP1 * s * s +\n		_P2 * _wP2 * u * u +\n		_P3 * _wP3 * v * v +\n		_controlP1P2 * _wP1P2 * 2. * s * u +\n		_controlP1P3 * _wP1P3 * 2. * s * v +\n		_controlP2P3 * _wP2P3 * 2. * u * v;", "		_P1 * (_wP1 * s * s) +\n		_P2 * (_wP2 * u * u) +\n		_P3 * (_wP3 * v * v) +\n		(_controlP1P2 * (_wP1P2 * s * u) +\n		_controlP1P3 * (_wP1P3 * s * v) +\n		_controlP2P3 * (_wP2P3 * u * v)) * 2.;")
r("fp", "BezierUtil.cpp", "	return 3. * u * square(1. - u);", "	return 3. * (1. - u) * u * (1. - u);")
r("fp", "NurbsRevolve.cpp", "w/sqrt(2.)", "w * sqrt(0.5)")
r("fp", "NurbsFactory.cpp", "{ 1.,1. / sqrt(2.),1.,1. / sqrt(2.),1.,1. / sqrt(2.),1.,1. / sqrt(2.),1. }", "{ 1.,sqrt(0.5),1.,sqrt(0.5),1.,sqrt(0.5),1.,sqrt(0.5),1. }")
r("fp", "RendererCamera.cpp", "	screenx = to_screen_coordinate(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);", "	screenx = to_screen_coordinate(_screenCenterX + 0.5 + pc.x() * _zoomFactor / pc.z());")
r("fp", "RendererLight.cpp", "	dRed *= _dDiffuseRed * proj;\n	dGreen *= _dDiffuseGreen * proj;\n	dBlue *= _dDiffuseBlue * proj;", "	dRed = dRed * proj * _dDiffuseRed;\n	dGreen = dGreen * proj * _dDiffuseGreen;\n	dBlue = dBlue * proj * _dDiffuseBlue;")
r("fp", "Renderer.cpp", "		float w = (float)(bw * t + aw*(1.f - t));  //todo optimize", "		float w = (float)(aw + (bw - aw) * t);")
r("fp", "Renderer.cpp", "		double p1w = (cw * t + aw * (1. - t));", "		double p1w = aw + (cw - aw) * t;")
r("fp", "ImageGenerator.cpp", "					fx = (fx + fy) * (fx - fy) + cx;", "					fx = fx * fx - fy * fy + cx;")

# --- Pi to full precision
r("pi", "Transform.cpp", "	double dDegToRad = 2. * 3.14159265359 / 360.;\n\n	_yaw", "	double dDegToRad = M_PI / 180.;\n\n	_yaw")
r("pi", "Transform.cpp", "	double dDegToRad = 2. * 3.14159265359 / 360.;\n	double s", "	double dDegToRad = M_PI / 180.;\n	double s")
r("pi", "Transform.cpp", "	double dDegToRad = 2. * 3.14159265359 / 360.;\n	double t1", "	double dDegToRad = M_PI / 180.;\n	double t1")
r("pi", "ImageGenerator.cpp", "float cx = xmin", "double cx = xmin"); r("pi", "ImageGenerator.cpp", "float cy = ymin", "double cy = ymin"); r("pi", "ImageGenerator.cpp", "float fx = cx", "double fx = cx"); r("pi", "ImageGenerator.cpp", "float fy = cy", "double fy = cy"); r("pi", "ImageGenerator.cpp", "float fxy", "double fxy")

# --- structure: helpers extracted, loops rewritten, statements reordered
r("st", "NurbsCurve.cpp", '''	//simple linear search for now
	for (int i = 0; i < knots.size() - 1; i++)
	{
		if (t < 1.)
		{
			if ((t >= knots[i]) && (t < knots[i + 1]))
				return i;
		}
		else
		{
			if ((t > knots[i]) && (t <= knots[i + 1]))
				return i;
		}
	}

	return -1; // should never be here
''', '''	auto it = (t < 1.) ? upper_bound(knots.begin(), knots.end(), t) : lower_bound(knots.begin(), knots.end(), t);
	return (int)(it - knots.begin()) - 1;
''')
r("st", "NurbsSurface.cpp", '''	//simple linear search for now
	for (int i = 0; i < knots.size() - 1; i++)
	{
		if (t < 1.)
		{
			if ((t >= knots[i]) && (t < knots[i + 1]))
				return i;
		}
		else
		{
			if ((t > knots[i]) && (t <= knots[i + 1]))
				return i;
		}
	}

	return -1; // should never be here
''', '''	return NurbsCurve::find_knot_span(knots, t);
''')
r("st", "NurbsCurve.cpp", "	set_knots(elevatedKnots);\n	set_points(newPoints);\n	set_weights(newWeights);\n	set_degree(_degree + 1);", "	set_degree(_degree + 1);\n	set_weights(newWeights);\n	set_points(newPoints);\n	set_knots(elevatedKnots);")
r("st", "NurbsCurve.h", "	static int find_knot_span", "public:\n	static int find_knot_span")
r("st", "MeshFactory.cpp", '''		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
		{
			m.add_quad(2 * i, 2 * i + 1, 2 * i + 3, 2 * i + 2);
		}
		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
''', '''		for (int i = 0; i < iNbSegmentLongitude; i++)
		{
			int j = (i + 1) % iNbSegmentLongitude;
			m.add_quad(2 * i, 2 * i + 1, 2 * j + 1, 2 * j);
		}
''')
r("st", "MeshUtil.cpp", "	// add quad ref to vertices\n	for (int j = 0; j < iSizeY - 1; j++)\n		for (int i = 0; i < iSizeX - 1; i++)\n			m.add_quad(\n				i + iSizeX * j,\n				(i + 1) + iSizeX * j,\n				(i + 1) + iSizeX * (j + 1),\n				i + iSizeX * (j + 1));\n}\n///////////////////////////////////////////////////////////////////////////\nvoid MeshUtil::create_from_grid", "	add_grid_quads(iSizeX, iSizeY, m);\n}\n///////////////////////////////////////////////////////////////////////////\nvoid MeshUtil::create_from_grid")
r("st", "MeshUtil.cpp", "void MeshUtil::create_from_z(", "static void add_grid_quads(int iSizeX, int iSizeY, Mesh& m)\n{\n	for (int cell = 0; iSizeX > 1 && cell < (iSizeX - 1) * (iSizeY - 1); cell++)\n	{\n		int a = cell % (iSizeX - 1) + iSizeX * (cell / (iSizeX - 1));\n		m.add_quad(a, a + 1, a + 1 + iSizeX, a + iSizeX);\n	}\n}\n\nvoid MeshUtil::create_from_z(")
r("st", "MeshUtil.cpp", '''			if (distSq < dDistanceTolSq)
			{
				verticesAlias[i] = j; //alias found
				continue;
			}''', '''			if (distSq < dDistanceTolSq)
				verticesAlias[i] = j; //alias found''')
r("st", "MeshUtil.cpp", '''		if ((p1 - p2).norm_square() < dVerticeTol * dVerticeTol)
		{
			m.unlink_triangle(i);
			continue;
		}

		if ((p2 - p3).norm_square() < dVerticeTol * dVerticeTol)
		{
			m.unlink_triangle(i);
			continue;
		}

		if ((p3 - p1).norm_square() < dVerticeTol * dVerticeTol)
		{
			m.unlink_triangle(i);
			continue;
		}''', '''		double tol2 = dVerticeTol * dVerticeTol;
		bool bEmpty = p1.distance_square(p2) < tol2 || p3.distance_square(p2) < tol2 || p1.distance_square(p3) < tol2;
		if (bEmpty)
			m.unlink_triangle(i);''')
r("st", "MeshMeasurements.cpp", "	if (has_no_degenerated_triangles(m) == false)\n		return false;\n\n	if (is_oriented_outside(m) == false)\n		return false;\n\n	if (is_closed(m) == false)\n		return false;", "	if (!is_closed(m) || !is_oriented_outside(m) || !has_no_degenerated_triangles(m))\n		return false;")
r("st", "STLFile.cpp", '''			float p;
			p = (float)p1._x; f.write((char*)(&p), 4);
			p = (float)p1._y; f.write((char*)(&p), 4);
			p = (float)p1._z; f.write((char*)(&p), 4);

			p = (float)p2._x; f.write((char*)(&p), 4);
			p = (float)p2._y; f.write((char*)(&p), 4);
			p = (float)p2._z; f.write((char*)(&p), 4);

			p = (float)p3._x; f.write((char*)(&p), 4);
			p = (float)p3._y; f.write((char*)(&p), 4);
			p = (float)p3._z; f.write((char*)(&p), 4);
''', '''			float p[9] = { (float)p1._x, (float)p1._y, (float)p1._z, (float)p2._x, (float)p2._y, (float)p2._z, (float)p3._x, (float)p3._y, (float)p3._z };
			f.write((char*)p, sizeof(p));
''')
r("st", "STLFile.cpp", "			//ignore normal\n			f.read((char*)(&ftmp), 4);\n			f.read((char*)(&ftmp), 4);\n			f.read((char*)(&ftmp), 4);", "			//ignore normal\n			f.ignore(12);")
r("st", "OBJFile.cpp", '			_f << "v " << vertex._x << " " << vertex._y << " " << vertex._z << endl;\n	}\n	_f << endl;\n\n	// write triangle', '			_f << "v " << vertex._x << " " << vertex._y << " " << vertex._z << "\\n";\n	}\n	_f << "\\n";\n\n	// write triangle')
r("st", "OBJFile.cpp", '		_f << "f " << iVertex1 + 1 + _verticesCount << " " << iVertex2 + 1 + _verticesCount << " " << iVertex3 + 1 + _verticesCount << endl;', '		int iFirst = 1 + _verticesCount;\n		_f << "f " << iFirst + iVertex1 << " " << iFirst + iVertex2 << " " << iFirst + iVertex3 << endl;')
r("st", "OBJFile.cpp", '		_f << i + 1 + _verticesCount << " ";', '		_f << (i ? " " : "") << i + 1 + _verticesCount;')
r("st", "StepFile.cpp", '	_f << "ENDSEC;" << endl;\n	_f << "END-ISO', '	_f << "ENDSEC;\\n";\n	_f << "END-ISO')
r("st", "StepFile.cpp", "	int iPointIndex = _iItemIndent;\n	const auto& vp = n.points();\n	for (const auto& p : vp)\n		write_cartesian_point(p);", "	int iPointIndex = _iItemIndent;\n	for (size_t k = 0; k < n.points().size(); k++)\n		write_cartesian_point(n.points()[k]);")
r("st", "ImageIoBmp.cpp", "			//swap R and B\n			for (int iC = 0; iC < iWidth; iC++)\n			{\n				cTmpR = pLineY[4 * iC + 2];\n				pLineY[4 * iC + 2] = pLineY[4 * iC];\n				pLineY[4 * iC] = cTmpR;\n			}", "			for (unsigned char* p = pLineY; p != pLineY + iLineWidthPerfect; p += 4)\n			{\n				cTmpR = p[0]; p[0] = p[2]; p[2] = cTmpR;\n			}")
r("st", "ImageUtil.cpp", "	for (int i=0; i< im.width();i++)\n		for (int j = 0; j < im.height(); j++)", "	for (int j = im.height() - 1; j >= 0; j--)\n		for (int i = 0; i < im.width(); i++)")
r("st", "NurbsUtil.cpp", "			if (bIsClosedU && (u == iNbPointsU - 1))\n				iEndU = 0;", "			if (bIsClosedU)\n				iEndU %= iNbPointsU;")
r("st", "NurbsUtil.cpp", "	for (int u = 0; u < iNbPointsU - 1; u++)\n		for (int v = 0; v < iNbPointsV - 1; v++)", "	for (int v = 0; v < iNbPointsV - 1; v++)\n		for (int u = 0; u < iNbPointsU - 1; u++)")
r("st", "MeshTessellate.cpp", "				meshOut.add_triangle(p1, p2, p3);\n				meshOut.add_triangle(p3, p2, p4);", "				meshOut.add_triangle(p3, p2, p4);\n				meshOut.add_triangle(p1, p2, p3);")
r("st", "Mesh.cpp", "	_pKernel->add_triangle(iV1, iVertexSplit, iV3);\n	_pKernel->add_triangle(iVertexSplit, iV2, iV3);\n	_pKernel->unlink_triangle(iTriangle1);", "	_pKernel->unlink_triangle(iTriangle1);\n	_pKernel->add_triangle(iVertexSplit, iV2, iV3);\n	_pKernel->add_triangle(iV3, iV1, iVertexSplit);")
r("st", "Mesh.cpp", "	_pKernel->add_triangle(iV1, iV2, iVertex);\n	_pKernel->add_triangle(iV2, iV3, iVertex);\n	_pKernel->add_triangle(iV3, iV1, iVertex);\n}\n//////////////////////////////////////////////////////////////////////////////////\n// split edge", "	const int corners[4] = { iV1, iV2, iV3, iV1 };\n	for (int i = 0; i < 3; i++)\n		_pKernel->add_triangle(corners[i], corners[i + 1], iVertex);\n}\n//////////////////////////////////////////////////////////////////////////////////\n// split edge")
r("st", "NurbsExtrude.cpp", '''	//duplicate weights
	for (int i = 0; i < iOldSize; i++)
		weights.push_back(weights[i]);

	//duplicate points + directions
	for (int i = 0; i < iOldSize; i++)
		points.push_back(points[i]+direction);
''', '''	weights.insert(weights.end(), nc.weights().begin(), nc.weights().end());
	for (const Point3& p : nc.points())
		points.push_back(p + direction);
''')
r("st", "SmoothMesh.cpp", "	int iNbTrianglesToAdd = vst.nb_triangles(); // read first: vst may be this mesh\n	for (int i = 0; i < iNbTrianglesToAdd; i++)\n	{\n		_vst.push_back(vst.triangle(i));\n	}", "	const auto copied = vst._vst;\n	_vst.insert(_vst.end(), copied.begin(), copied.end());")
r("st", "Renderer.cpp", "		int tmpx = bx; bx = cx; cx = tmpx;\n		int tmpy = by; by = cy; cy = tmpy;\n		double tmpw = bw; bw = cw; cw = tmpw;", "		std::swap(bx, cx);\n		std::swap(by, cy);\n		std::swap(bw, cw);")
r("st", "Renderer.cpp", "#include <cassert>\n", "#include <cassert>\n#include <utility>\n")
r("st", "QuadBezierTriangle.cpp", "			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + 1);\n			if (iu < lineSize - 2)\n				m.add_triangle(pos + iu + 1, pos + iu + lineSize, pos + iu + lineSize + 1);", "			int a = pos + iu, b = a + lineSize;\n			if (iu < lineSize - 2)\n				m.add_triangle(b, b + 1, a + 1);\n			m.add_triangle(b, a + 1, a);")
r("st", "MeshFactory.cpp", "		m.add_vertex(0, 0, dRadius); // pole north\n		m.add_vertex(0, 0, -dRadius); //pole south\n", "		const int iPoleNorth = m.add_vertex(0, 0, dRadius);\n		const int iPoleSouth = m.add_vertex(0, 0, -dRadius);\n")
r("st", "MeshFactory.cpp", "		int iPoleNorth = m.nb_vertices() - 2;\n		int iPoleSouth = m.nb_vertices() - 1;\n", "")

# --- structure, second round: output built differently, other traversal orders, other stream calls
r("s2", "Renderer.cpp", "		fx += dx;\n		fy += dy;\n		fz += dz;\n	}", "		fx = x1 + (i + 1) * dx;\n		fy = y1 + (i + 1) * dy;\n		fz = zp1 + (i + 1) * dz;\n	}")
r("s2", "Renderer.cpp", "		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax) && (fz > 0.))\n		{", "		const bool bOnScreen = (fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax);\n		if (bOnScreen && (fz > 0.))\n		{")
r("s2", "Renderer.cpp", "	if ((ax <= 0.) && (bx <= 0.) && (cx <= 0.))\n		return false;\n	if ((ay <= 0.) && (by <= 0.) && (cy <= 0.))\n		return false;", "	if ((ay <= 0) && (by <= 0) && (cy <= 0))\n		return false;\n	if ((ax <= 0) && (bx <= 0) && (cx <= 0))\n		return false;")
r("s2", "MeshUtil.cpp", "				verticesAlias[i] = j; //alias found\n				continue;", "				verticesAlias[i] = j; //alias found\n				break;")
r("s2", "MeshFactory.cpp", """			m.add_vertex(x, y, z);
			m.add_vertex(x, y, -z);
		}
		m.add_vertex(0, 0, z);""", """			m.add_vertex(x, y, z);
			m.add_vertex(x, y, 0. - z);
		}
		m.add_vertex(0, 0, z);""")
r("s2", "MeshFactory.cpp", "		m.add_quad(0, 1, 2, 3);\n		m.add_quad(7, 6, 5, 4);\n		m.add_quad(4, 5, 1, 0);", "		m.add_quad(4, 5, 1, 0);\n		m.add_quad(6, 5, 4, 7);\n		m.add_quad(1, 2, 3, 0);")
r("s2", "MeshFactory.cpp", "		m.add_triangle(0, 1, 2);\n		m.add_triangle(1, 3, 2);", "		m.add_triangle(3, 2, 1);\n		m.add_triangle(2, 0, 1);")
r("s2", "OBJFile.cpp", "<< endl;", "<< '\\n';")
r("s2", "StepFile.cpp", "<< endl", "<< '\\n'")
r("s2", "StepFile.cpp", '"=CARTESIAN_POINT(\'\',("', '" = CARTESIAN_POINT(\'\', ("')
r("s2", "STLFile.cpp", "		ofstream f(filename, ios::binary);\n		if (!f)\n			return false;\n\n		int32_t zero", "		ofstream file(filename, ios::binary);\n		if (!file)\n			return false;\n		ostringstream f(ios::binary);\n\n		int32_t zero")
r("s2", "STLFile.cpp", "#include <string>", "#include <string>\n#include <sstream>")
r("s2", "STLFile.cpp", "		f.close();\n		return f.good();", "		file << f.str();\n		file.close();\n		return !f.fail() && !file.fail();")
r("s2", "STLFile.cpp", "			to_mesh.add_vertex(p1x, p1y, p1z);\n			to_mesh.add_vertex(p2x, p2y, p2z);\n			to_mesh.add_vertex(p3x, p3y, p3z);\n			to_mesh.add_triangle(to_mesh.nb_vertices() - 3, to_mesh.nb_vertices() - 2, to_mesh.nb_vertices() - 1);", "			to_mesh.add_triangle(Point3(p1x, p1y, p1z), Point3(p2x, p2y, p2z), Point3(p3x, p3y, p3z));")
r("s2", "ImageIoBmp.cpp", "		unsigned char* pLineOut = new unsigned char[iLineWidthBytes + 3];", "		std::vector<unsigned char> line(iLineWidthBytes + 3);\n		unsigned char* pLineOut = line.data();")
r("s2", "ImageIoBmp.cpp", "		delete[] pLineOut;\n", "")
r("s2", "ImageIoBmp.cpp", "#include <fstream>", "#include <fstream>\n#include <vector>")
r("s2", "OBJFile.cpp", "		for (size_t i = 0; i < facets.size(); i++)\n			if (facets[i] < 0 || facets[i] >= to_mesh.nb_vertices())\n				bOk = false;", "		const int iNb = to_mesh.nb_vertices();\n		for (int v : facets)\n			bOk = bOk && v >= 0 && v < iNb;")
r("s2", "Mesh.cpp", "	_pKernel->add_triangle(iVertex1, iVertex2, iVertex3);\n	_pKernel->add_triangle(iVertex3, iVertex4, iVertex1);", "	_pKernel->add_triangle(iVertex1, iVertex2, iVertex3);\n	_pKernel->add_triangle(iVertex1, iVertex3, iVertex4);")
r("s2", "Mesh.cpp", "	return _pKernel->nb_triangles()==0;", "	return !(_pKernel->nb_triangles() > 0);")
r("s2", "NurbsRevolve.cpp", "	ns.set_degree(2, nc.degree());\n	ns.set_points(pc, 9, nc.nb_points());", "	ns.set_points(pc, (int)(pc.size() / nc.nb_points()), nc.nb_points());\n	ns.set_degree(2, nc.degree());")
r("s2", "NurbsSurface.cpp", "	_tempPointsU.resize(degreeU + 1);\n	_tempPointsV.resize(degreeV + 1);\n	_tempWeightsU.resize(degreeU + 1);\n	_tempWeightsV.resize(degreeV + 1);", "	_tempPointsU.assign(degreeU + 1, Point3());\n	_tempPointsV.assign(degreeV + 1, Point3());\n	_tempWeightsU.assign(degreeU + 1, 0.);\n	_tempWeightsV.assign(degreeV + 1, 0.);")
r("s2", "ImageUtil.cpp", "				double d = im(i, j, p) * dScale + 0.5;\n				im(i, j, p) = (unsigned char)max(0., min(255., d));", "				double d = floor(im(i, j, p) * dScale + 0.5);\n				unsigned char& c = *im.pixel(i, j, p);\n				c = d > 255. ? 255 : d > 0. ? (unsigned char)d : 0;")
r("s2", "GeometryUtil.cpp", "		p.x() = d(generator);\n		p.y() = d(generator);\n		p.z() = d(generator);\n\n		p.normalize();", "		double x = d(generator), y = d(generator), z = d(generator);\n		p = Point3(x, y, z).normalized();")
# --- state shared between threads, properly guarded
r("th", "GeometryUtil.cpp", "		std::default_random_engine generator;\n		generator.seed(iSeed);", "		static std::mutex guard;\n		static std::default_random_engine generator;\n		std::lock_guard<std::mutex> lock(guard);\n		generator.seed(iSeed);")
r("th", "GeometryUtil.cpp", "#include <random>", "#include <random>\n#include <mutex>")
r("th", "MeshUtil.cpp", "	vector<int> verticesAlias(iNbVertices, -1); //-1", "	thread_local vector<int> verticesAlias;\n	verticesAlias.assign(iNbVertices, -1); //-1")
r("th", "NurbsRevolve.cpp", "	ns.clear();\n	const auto& refPoints", "	static std::once_flag once;\n	static double root2;\n	std::call_once(once, [] { root2 = sqrt(2.); });\n	ns.clear();\n	const auto& refPoints")
r("th", "NurbsRevolve.cpp", "		wc.push_back(w / sqrt(2.));", "		wc.push_back(w / root2);")
r("th", "NurbsRevolve.cpp", "#include <algorithm>\n", "#include <algorithm>\n#include <mutex>\n")
r("th", "Mesh.cpp", "	_pKernel = new MeshKernelLinkedTriangles;", "	static std::atomic<int> iBuilt(0);\n	static std::shared_mutex guard;\n	{\n		std::shared_lock<std::shared_mutex> reader(guard);\n		iBuilt += 0;\n	}\n	std::unique_lock<std::shared_mutex> writer(guard);\n	iBuilt++;\n	writer.unlock();\n	_pKernel = new MeshKernelLinkedTriangles;")
r("th", "Mesh.cpp", "#include <cassert>\n", "#include <cassert>\n#include <atomic>\n#include <shared_mutex>\n#include <mutex>\n")
def main():
    d = sys.argv[1]; sets = sys.argv[2:] or list(R); bad = 0
    for s in sets:
        for f, o, n in R[s]:
            p = os.path.join(d, "src", f); t = open(p, encoding="latin-1", newline="").read(); crlf = "\r\n" in t
            if crlf: t = t.replace("\r\n", "\n")
            if t.count(o) < 1: print("NOT FOUND", s, f, repr(o[:70])); bad = 1; continue
            t = t.replace(o, n); open(p, "w", encoding="latin-1", newline="").write(t.replace("\n", "\r\n") if crlf else t)
    sys.exit(bad)
if __name__ == "__main__": main()
