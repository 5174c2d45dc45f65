import runpy, os
PLANTS = []
def P(id, prop, needs, breaks, edits, demo, pre=""):
    d = A["P"](id, prop, needs, breaks, edits, demo); d["demo"] = d["demo"].replace("int main()", pre + "int main()", 1); PLANTS.append(d)
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
PUT = r"""#include <fstream>
static std::string bmp(int w, int h, short bpp, int offset, size_t bytes) { std::string s; auto p4 = [&](int v) { s.append((char*)&v, 4); }; auto p2 = [&](short v) { s.append((char*)&v, 2); }; p2(0x4D42); p4(54 + bytes); p4(0); p4(offset); p4(40); p4(w); p4(h); p2(1); p2(bpp); for (int i = 0; i < 6; i++) p4(0); s.append(bytes, 'x'); return s; }
static std::string put(const std::string& s) { char n[] = "/tmp/demoXXXXXX"; int fd = mkstemp(n); if (write(fd, s.data(), s.size()) < 0) {} close(fd); return n; }
#include <unistd.h>
"""
PUT = "#include <unistd.h>\n#include <stdlib.h>\n#include <string>\n" + PUT
P("bmp-width-overflow", "C25", "a bitmap whose declared row exceeds 31 bits", "the size of a row is computed in int and wraps",
 [("ImageIoBmp.cpp", "	long long llLineWidthPad = ((long long)iWidth * iNbByte + 3) / 4 * 4;", "	int iLineWidthBytes = (int)((unsigned)iWidth * iNbByte);\n	long long llLineWidthPad = ((long long)iLineWidthBytes + 3) / 4 * 4;")],
 "\tauto n=put(bmp(0x40000001,1,32,54,64)); Image m; bool r=false; try { r=ImageIoBmp::read(n,&m); } catch (std::exception&) { r=true; } unlink(n.c_str()); REQUIRE(!r);", PUT)
P("bmp-offset-negative", "C25", "a bitmap whose pixel offset is negative", "it is loaded although no pixel can be read",
 [("ImageIoBmp.cpp", " || iOffsetB < 54)", " || (iOffsetB >= 0 && iOffsetB < 54))")],
 "\tauto n=put(bmp(2,2,24,-7,16)); Image m; bool r=ImageIoBmp::read(n,&m); unlink(n.c_str()); REQUIRE(!r);", PUT)
P("obj-index-wrap", "C25", "a face that refers to a vertex beyond 32 bits", "the index wraps to an existing vertex",
 [("OBJFile.cpp", "int iVertex = 0;\n", "long long iVertex = 0;\n"), ("OBJFile.cpp", "facets.push_back(iVertex < 0 ? to_mesh.nb_vertices() + iVertex : iVertex - 1);", "facets.push_back((int)(iVertex < 0 ? to_mesh.nb_vertices() + iVertex : iVertex - 1));")],
 "\tauto n=put(\"v 0 0 0\\nv 1 0 0\\nv 0 1 0\\nf 1 2 4294967299\\n\"); Mesh m; bool r=OBJFile::load(n,m); unlink(n.c_str()); REQUIRE(!r);", PUT)
P("obj-zero-index", "C25", "a face that refers to vertex 0", "it is read as the last vertex",
 [("OBJFile.cpp", "iVertex < 0 ? to_mesh.nb_vertices() + iVertex", "iVertex <= 0 ? to_mesh.nb_vertices() + iVertex - (iVertex == 0)")],
 "\tauto n=put(\"v 0 0 0\\nv 1 0 0\\nv 0 1 0\\nf 1 2 0\\n\"); Mesh m; bool r=OBJFile::load(n,m); unlink(n.c_str()); REQUIRE(!r);", PUT)
P("stl-count-as-size", "C25", "an STL file that declares many triangles and ends early", "the triangles are allocated before any is read",
 [("STLFile.cpp", "		// read facets\n", "		// read facets\n		vector<Point3> vReserve((size_t)nbFacet * 3);\n")],
 "\tstd::string s(80,' '); int k=0x7ffffff0; s.append((char*)&k,4); s.append(50,'x'); auto n=put(s); struct rlimit l{(rlim_t)4<<30,(rlim_t)4<<30}; setrlimit(RLIMIT_AS,&l); Mesh m; bool threw=false, r=true; try { r=STLFile::load(n,m); } catch (std::exception&) { threw=true; } unlink(n.c_str()); REQUIRE(!threw); REQUIRE(!r);", "#include <sys/resource.h>\n" + PUT)
P("bmp-good-before-close", "C26", "the disk is full", "a small file is reported as written",
 [("ImageIoBmp.cpp", "	fbmp.close();\n	return fbmp.good();", "	bool bOk = fbmp.good();\n	fbmp.close();\n	return bOk;")],
 "\tImage m(3,2,3); for(int i=0;i<m.size();i++) m.data()[i]=i; REQUIRE(!ImageIoBmp::write(\"/dev/full\",&m));")
P("polyline-empty-kept", "C32", "an empty curve converted into a used polyline", "the previous polyline stays",
 [("NurbsCurve.cpp", "	polyline.clear();\n	if (_points.empty())\n		return;\n", "	if (_points.empty())\n		return;\n	polyline.clear();\n")],
 "\tNurbsCurve c; std::vector<Point3> p(3); c.to_polyline(p); REQUIRE(p.empty());")
P("step-close-knots", "C27", "two knots closer than a ten millionth", "their multiplicities are added but both values are written",
 [("StepFile.cpp", "		if (knots[i] != knots[i - 1])\n		{\n			_f << iMultiplicity", "		if (knots[i] - knots[i - 1] > 1.e-7)\n		{\n			_f << iMultiplicity")],
 "\tNurbsSurface s; NurbsFactory::create_disk(1,s); s.insert_knot_u(0.3); s.insert_knot_u(0.3+1e-9); char n[]=\"/tmp/demoXXXXXX\"; close(mkstemp(n)); StepWriter w; w.open(n); w.write(s); w.close(); std::ifstream f(n); std::string t((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); unlink(n); size_t a=t.find(\"B_SPLINE_SURFACE_WITH_KNOTS\"); auto count=[&](size_t q){ return std::count(t.begin()+t.find('(',q)+1,t.begin()+t.find(')',q),','); }; size_t l1=t.find('\\n',a)+1, l2=t.find('\\n',l1)+1, l3=t.find('\\n',l2)+1; REQUIRE(count(l1)==count(l3));", "#include <fstream>\n#include <algorithm>\n#include <unistd.h>\n#include <stdlib.h>\n")
P("elevate-close-knots", "C17", "two knots closer than a thousandth", "the elevated curve treats them as one",
 [("NurbsCurve.cpp", "		if (_knots[k] != _knots[k + 1])\n		{\n			elevatedKnots", "		if (_knots[k + 1] - _knots[k] > 1.e-3)\n		{\n			elevatedKnots")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,2,0)}); c.set_weights({1,1,1,1}); c.set_knots({0,0,0.5,0.5005,1,1}); Point3 a,b; c.evaluate(0.75,a); c.degree_elevation(); c.evaluate(0.75,b); REQUIRE(nearp(a,b));")
P("insert-alpha-cut", "C16", "a knot inserted just after another one", "the blending weight is cut to zero below a ten thousandth",
 [("NurbsCurve.cpp", "		double dAlpha = (u - _knots[i]) / (_knots[i + _degree] - _knots[i]);\n		p.push_back", "		double dAlpha = (u - _knots[i]) / (_knots[i + _degree] - _knots[i]);\n		if (dAlpha < 1.e-4)\n			dAlpha = 0.;\n		p.push_back")],
 "\tNurbsCurve c; c.set_degree(1); c.set_points({Point3(0,0,0),Point3(100,0,0)}); c.set_uniform(); c.set_equals_weights(); Point3 a,b; c.evaluate(0.5,a); c.insert_knot(5e-5); c.evaluate(0.00005,b); REQUIRE(near(b.x(),0.005,1e-9));")
P("limit-split-on-corner", "C03", "an edge split at a vertex equal to one of its ends", "the triangles are removed though nothing is added",
 [("Mesh.cpp", "	_pKernel->add_triangle(iV1, iVertexSplit, iV3);\n	_pKernel->add_triangle(iVertexSplit, iV2, iV3);\n	_pKernel->unlink_triangle(iTriangle2);", "	if (iVertexSplit > iV3)\n	{\n		_pKernel->add_triangle(iV1, iVertexSplit, iV3);\n		_pKernel->add_triangle(iVertexSplit, iV2, iV3);\n	}\n	else\n	{\n		_pKernel->add_triangle(iV1, iVertexSplit, iV3);\n		_pKernel->add_triangle(iV2, iVertexSplit, iV3);\n	}\n	_pKernel->unlink_triangle(iTriangle2);")],
 "\tMesh m; int s=m.add_vertex(0.5,0,0); m.add_vertex(0,0,0); m.add_vertex(1,0,0); m.add_vertex(1,1,0); m.add_vertex(0,-1,0); m.add_triangle(1,2,3); m.add_triangle(2,1,4); m.split_edge_with_vertex(0,1,1,2,s); double z=0; for(int i=0;i<m.nb_triangles();i++) if(!m.is_triangle_unlinked(i)){ Triangle3 t; m.get_triangle(i,t); REQUIRE(t.normal().z()>0); }")
P("trapeze-cut-row", "C28", "a triangle that ends below the screen", "its last row starts outside the buffer",
 [("Renderer.cpp", "		cy = _Ymax; // this row is excluded below", "		cy = _Ymax + 1; // this row is excluded below"), ("Renderer.cpp", "	if (y >= _Ymax)\n		return;\n\n	// cut", "	if (y > _Ymax)\n		return;\n\n	// cut"), ("Renderer.cpp", "	assert(cy <= _Ymax);\n", "")],
 "\tstd::vector<int> px(16*14,-7); { Renderer r(px.data(),16,12); r.set_camera(0,0,0,8,0,0,0,10); r.draw_triangle_1color(Point3(-90,-90,0),Point3(90,-90,0),Point3(0,90,0),5); r.draw_triangle_1color(Point3(-90,90,0),Point3(90,90,0),Point3(0,-90,0),5); } for(int i=16*12;i<16*14;i++) REQUIRE(px[i]==-7);")
