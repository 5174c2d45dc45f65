import runpy, os
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
P0 = A["P"]
# a demo whose allocations can be made to fail: arm(k): the k-th one from now on fails; live: blocks in use; canaries behind the blocks
OOM = '''
#include <new>
static long live = 0, left_ = -1; static bool fired = false;
static void arm(long k) { left_ = k; fired = false; }
void* operator new(size_t n) { if (left_ == 0) { left_ = -1; fired = true; throw std::bad_alloc(); } if (left_ > 0) left_--; char* p = (char*)malloc(n + 48); *(size_t*)p = n; for (int i = 0; i < 32; i++) p[16 + n + i] = 0x5a; live++; return p + 16; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* q) noexcept { if (!q) return; char* p = (char*)q - 16; size_t n = *(size_t*)p; for (int i = 0; i < 32; i++) if (p[16 + n + i] != 0x5a) { printf("overrun\\n"); abort(); } live--; free(p); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete(void* q, size_t) noexcept { operator delete(q); }
void operator delete[](void* q, size_t) noexcept { operator delete(q); }
template<class F> static bool failing(long k, F f) { arm(k); try { f(); } catch (std::bad_alloc&) { left_ = -1; return true; } left_ = -1; return false; } // true: it was reported
'''
THREADS = '''
#include <thread>
#include <atomic>
#include <sys/wait.h>
template<class F> static void both(double seconds, F f) { std::atomic<bool> stop(false); std::thread t([&] { for (int i = 0; !stop; i++) f(1, i); }); clock_t c = clock(); for (int i = 0; (clock() - c) < 2 * seconds * CLOCKS_PER_SEC; i++) f(0, i); stop = true; t.join(); }
template<class F> static void first(int n, F f) { for (int k = 0; k < n; k++) { pid_t p = fork(); if (!p) { std::atomic<int> go(0); bool ok[2] = { false,false }; auto g = [&](int i) { go++; while (go < 2) {} ok[i] = f(i); }; std::thread t(g, 1); g(0); t.join(); _exit(ok[0] && ok[1] ? 0 : 1); } int st = 0; waitpid(p, &st, 0); REQUIRE(st == 0); } }
'''
def P(id, prop, needs, breaks, edits, demo, pre=""):
    d = P0(id, prop, needs, breaks, edits, demo)
    d["demo"] = d["demo"].replace("int main()", pre.replace("\\\\n", "\\n") + "int main()", 1)
    if pre is THREADS: d["demo"] = "#include <unistd.h>\n#include <ctime>\n" + d["demo"]
    return d
POISON = r"""#include <cstdlib>
#include <cstring>
#include <new>
void* operator new(size_t n) { char* p = (char*)malloc(n + 16); if (!p) throw std::bad_alloc(); *(size_t*)p = n; return p + 16; }
void operator delete(void* q) noexcept { if (!q) return; char* p = (char*)q - 16; memset(q, 0x5a, *(size_t*)p); free(p); }
void operator delete(void* q, size_t) noexcept { operator delete(q); }
"""
PLANTS = [
# --- C35
P("oom-bmp-buffers", "C35", "memory runs out at the second buffer of a 24 bit save", "the first buffer is never released",
 [("ImageIoBmp.cpp", "	if (iPlanes == 3)\n	{\n		unsigned char* pLineOut = new unsigned char[iLineWidthBytes + 3];", "	if (iPlanes == 3)\n	{\n		unsigned char* pLineOut = new unsigned char[iLineWidthBytes + 3];\n		string sPadding(iLineWidthBytesPad, ' ');\n		if (sPadding.empty())\n			iHeight = 0;")],
 "\tImage im(20,3,3); std::string f=\"a_file_whose_name_is_allocated.bmp\"; for(long k=0;;k++){ long l=live; bool r=failing(k,[&]{ ImageIoBmp::write(f,&im); }); (void)r; bool was=fired; REQUIRE(live==l); if(!was) break; }", OOM),
P("oom-tessellate-table", "C35", "memory runs out while the triangles are added", "the table of steps is never released",
 [("MeshTessellate.cpp", "	meshOut.clear();\n	for", "	meshOut.clear();\n	int* piStripes = new int[iNbSegments + 1];\n	for (int i = 0; i <= iNbSegments; i++)\n		piStripes[i] = i;\n	for"),
  ("MeshTessellate.cpp", "			for (int j = 0; j < stripe; j++)", "			for (int j = 0; j < piStripes[stripe]; j++)"),
  ("MeshTessellate.cpp", "				meshOut.add_triangle(p3, p2, p4);\n			}\n		}\n	}\n", "				meshOut.add_triangle(p3, p2, p4);\n			}\n		}\n	}\n	delete[] piStripes;\n")],
 "\tMesh a; MeshFactory::create_box(1,2,3,a); for(long k=0;;k++){ long l=live; { Mesh m; MeshTessellate t; failing(k,[&]{ t.compute(a,3,m); }); } REQUIRE(live==l); if(!fired) break; }", OOM),
P("oom-solid-skip", "C35", "memory runs out when a face is converted", "the face is skipped and nobody learns it",
 [("NurbsUtil.cpp", "		n.add_surface(nsurf);\n	}", "		try\n		{\n			n.add_surface(nsurf);\n		}\n		catch (...)\n		{\n			break;\n		}\n	}")],
 "\tMesh m; MeshFactory::create_box(1,2,3,m); for(long k=0;;k++){ NurbsSolid n; bool r=failing(k,[&]{ NurbsUtil::create_from_mesh(m,n); }); REQUIRE(r || n.surfaces().size()==12); if(!fired) break; }", OOM),
P("oom-elevation-report", "C35", "memory runs out during a degree elevation", "the elevation says it succeeded or failed but the object is cut",
 [("NurbsSurface.cpp", "	for (int i = 0; i < vu.size(); i++)\n		vu[i].degree_elevation();\n\n	from_u_curves(vu);\n	return true;", "	try\n	{\n		for (int i = 0; i < vu.size(); i++)\n			vu[i].degree_elevation();\n\n		from_u_curves(vu);\n	}\n	catch (const exception&)\n	{\n	}\n	return true;")],
 "\tfor(long k=0;;k++){ NurbsSurface s; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0),s); bool r=failing(k,[&]{ s.degree_elevation_u(); }); REQUIRE(r || (s.degree_u()==2 && s.points().size()==6 && s.weights().size()==6 && s.knots_u().size()==6)); if(!fired) break; }", OOM),
P("oom-scratch-weights", "C35", "a failed set_degree, then the same set_degree", "the scratch weights keep their old size: evaluation writes behind them",
 [("NurbsSurface.cpp", "	_degreeU = degreeU;\n	_degreeV = degreeV;\n\n	_tempPointsU.resize(degreeU + 1);", "	_degreeU = degreeU;\n	_degreeV = degreeV;\n	if ((int)_tempPointsU.size() == degreeU + 1 && (int)_tempPointsV.size() == degreeV + 1)\n		return; // nothing changes\n\n	_tempPointsU.resize(degreeU + 1);")],
 "\tfor(long k=0;k<4;k++){ NurbsSurface s; failing(k,[&]{ s.set_degree(3,3); }); NurbsUtil::create_from_z(std::vector<double>(16,1.),4,4,3,s); Point3 p; s.evaluate(0.3,0.6,p); REQUIRE(near(p.z(),1.)); }", OOM),
P("oom-stl-partial", "C35", "memory runs out while an STL file is loaded", "the load reports success with the triangles read so far",
 [("STLFile.cpp", "			to_mesh.add_triangle(to_mesh.nb_vertices() - 3, to_mesh.nb_vertices() - 2, to_mesh.nb_vertices() - 1);", "			try\n			{\n				to_mesh.add_triangle(to_mesh.nb_vertices() - 3, to_mesh.nb_vertices() - 2, to_mesh.nb_vertices() - 1);\n			}\n			catch (const exception&)\n			{\n				break;\n			}")],
 "\tMesh b; MeshFactory::create_box(1,2,3,b); STLFile::save(\"a.stl\",b); for(long k=0;;k++){ Mesh m; bool ok=true; bool r=failing(k,[&]{ ok=STLFile::load(\"a.stl\",m); }); REQUIRE(r || !ok || m.nb_triangles()==12); if(!fired) break; }", OOM),
P("oom-polyline-cut", "C35", "memory runs out while a curve is sampled", "the polyline ends early without a word",
 [("NurbsCurve.cpp", "		polyline.push_back(p);", "		try\n		{\n			polyline.push_back(p);\n		}\n		catch (const bad_alloc&)\n		{\n			polyline.back() = p;\n			break;\n		}")],
 "\tNurbsCurve c; NurbsFactory::create_circle(1,c); for(long k=0;;k++){ std::vector<Point3> v; bool r=failing(k,[&]{ c.to_polyline(v); }); REQUIRE(r || v.size()==91); if(!fired) break; }", OOM),
# --- C36
P("thread-curve-scratch", "C36", "two curves evaluated in two threads", "they share their scratch points",
 [("NurbsCurve.cpp", "	int knotIndex = find_knot_span(_knots, u);\n\n	for (int j = 0; j < _degree + 1; j++)", "	int knotIndex = find_knot_span(_knots, u);\n\n	static vector<Point3> _tempPoints; // shared by all curves: less memory\n	static vector<double> _tempWeights;\n	if ((int)_tempPoints.size() < _degree + 1)\n	{\n		_tempPoints.resize(_degree + 1);\n		_tempWeights.resize(_degree + 1);\n	}\n\n	for (int j = 0; j < _degree + 1; j++)")],
 "\tNurbsCurve c[2]; NurbsFactory::create_circle(1,c[0]); NurbsFactory::create_circle(2,c[1]); both(1,[&](int t,int i){ Point3 p; c[t].evaluate((i%97)/97.,p); REQUIRE(near(p.norm(),t+1.)); });", THREADS),
P("thread-random-generator", "C36", "axes computed in two threads", "they take numbers from one generator",
 [("GeometryUtil.cpp", "		std::default_random_engine generator;", "		static std::default_random_engine generator;")],
 "\tPoint3 w[2]; for(int t:{0,1}) GeometryUtil::compute_random_axis(w[t],t+1); both(1,[&](int t,int){ Point3 p; GeometryUtil::compute_random_axis(p,t+1); REQUIRE(nearp(p,w[t])); });", THREADS),
P("thread-bmp-line", "C36", "two images saved in two threads", "their lines are mixed in a shared buffer",
 [("ImageIoBmp.cpp", "	if (iPlanes == 3)\n	{\n		unsigned char* pLineOut = new unsigned char[iLineWidthBytes + 3];", "	if (iPlanes == 3)\n	{\n		static unsigned char cLine[3 * 4096];\n		bool bLong = iLineWidthBytes > 3 * 4096;\n		unsigned char* pLineOut = bLong ? new unsigned char[iLineWidthBytes + 3] : cLine;"),
  ("ImageIoBmp.cpp", "			fbmp.write((const char*)pLineOut, iLineWidthBytes);\n			fbmp.write((const char*)cTmp, iPack);\n		}\n		delete[] pLineOut;\n	}\n\n	if (iPlanes == 4)", "			fbmp.write((const char*)pLineOut, iLineWidthBytes);\n			fbmp.write((const char*)cTmp, iPack);\n		}\n		if (bLong)\n			delete[] pLineOut;\n	}\n\n	if (iPlanes == 4)")],
 "\tboth(2,[&](int t,int){ Image a(400,20,3); for(int i=0;i<a.size();i++) a.data()[i]=t*200+1; std::string f=t?\"a.bmp\":\"b.bmp\"; REQUIRE(ImageIoBmp::write(f,&a)); Image b; REQUIRE(ImageIoBmp::read(f,&b)); for(int i=0;i<b.size();i++) REQUIRE(b.data()[i]==t*200+1); });", THREADS),
P("thread-trig-table", "C36", "the first two cylinders of a program built in two threads", "the second thread uses the table before it is filled",
 [("MeshFactory.cpp", "		int iNbSegmentLongitude = 2 + 4 * iNbSegments;\n		// create vertices\n		for (int i = 0; i < iNbSegmentLongitude; i++)\n		{\n			double x = std::cos((double)i / iNbSegmentLongitude * 2. * PI) * dRadius;", "		int iNbSegmentLongitude = 2 + 4 * iNbSegments;\n		static bool bTable = false;\n		static double table[103];\n		if (!bTable)\n		{\n			bTable = true;\n			for (int i = 0; i < 103; i++)\n				table[i] = std::cos((double)i / 102 * 2. * PI);\n		}\n		// create vertices\n		for (int i = 0; i < iNbSegmentLongitude; i++)\n		{\n			double x = std::cos((double)i / iNbSegmentLongitude * 2. * PI) * dRadius;\n			if ((i * 102) % iNbSegmentLongitude == 0)\n				x = table[i * 102 / iNbSegmentLongitude] * dRadius;")],
 "\tfirst(3000,[&](int){ Mesh m; MeshFactory::create_cylinder(1,1,4,m); Point3 p; double e=0; for(int i=0;i<36;i++){ m.get_vertex(i,p); e=std::max(e,std::fabs(std::hypot(p.x(),p.y())-1)); } return e<1e-9; });", THREADS),
P("thread-step-counter", "C36", "two STEP files written in two threads", "they share the numbering of their entities",
 [("StepFile.cpp", "	_f << \"#\" << _iItemIndent << \"=CARTESIAN_POINT('',(\"", "	static int s_iItem = 0;\n	s_iItem = _iItemIndent;\n	_f.flush();\n	_f << \"#\" << s_iItem << \"=CARTESIAN_POINT('',(\"")],
 "\tNurbsSurface s[2]; NurbsFactory::create_quad(Point3(0,0,0),Point3(1,0,0),Point3(1,1,0),Point3(0,1,0),s[0]); NurbsFactory::create_torus(3,1,s[1]); both(3,[&](int t,int){ std::string f=t?\"a.stp\":\"b.stp\"; { StepWriter w; w.open(f); w.write(s[t]); w.close(); } std::ifstream i(f); std::string l; int n=20; while(std::getline(i,l)) if(l.find(\"CARTESIAN_POINT\")!=std::string::npos){ REQUIRE(atoi(l.c_str()+1)==n); n++; } });", THREADS),
P("thread-merge-alias", "C36", "two meshes merged in two threads", "they share the table of aliases",
 [("MeshUtil.cpp", "	vector<int> verticesAlias(iNbVertices, -1); //-1", "	static vector<int> verticesAlias;\n	verticesAlias.assign(iNbVertices, -1); //-1")],
 "\tboth(2,[&](int t,int){ Mesh m; MeshFactory::create_sphere_geodesic(1,2+t*2,m); REQUIRE(m.nb_vertices()==(t?162:42)); });", THREADS),
P("thread-first-kernel", "C36", "the first two matrices of a program made in two threads", "one of them may see the identity half filled",
 [("Transform.cpp", "RotationMatrix::RotationMatrix()\n{\n	_m[0] = 1.;\n	_m[1] = 0.;\n	_m[2] = 0.;\n	_m[3] = 0.;\n	_m[4] = 1.;\n	_m[5] = 0.;\n	_m[6] = 0.;\n	_m[7] = 0.;\n	_m[8] = 1.;", "static volatile int s_iIdentity = 0;\nstatic volatile double s_identity[9];\n\nRotationMatrix::RotationMatrix()\n{\n	if (s_iIdentity++ == 0)\n		for (int i = 0; i < 9; i++)\n			s_identity[i] = (i % 4 == 0) ? 1. : 0.;\n	for (int i = 0; i < 9; i++)\n		_m[i] = s_identity[i];")],
 "\tfirst(4000,[&](int){ RotationMatrix m; Point3 p(1,2,3); m.apply(p); return nearp(p,Point3(1,2,3)); });", THREADS),
# --- others
P("surface-ctor-closed", "C02", "a surface built in memory which was used before", "whether it is closed in v depends on that memory",
 [("NurbsSurface.cpp", "_bClosedU(false), _bClosedV(false)", "_bClosedU(false)")],
 "\tstruct alignas(16) M { unsigned char b[sizeof(NurbsSurface)]; } m; memset(m.b,1,sizeof m.b); NurbsSurface* s=new(m.b) NurbsSurface; REQUIRE(!s->is_closed_v()); s->~NurbsSurface();", "#include <cstring>\n#include <new>\n"),
P("smooth-own-triangle", "C02", "appending a triangle of the mesh itself", "it is read after the storage moved",
 [("SmoothMesh.cpp", "	_vst.push_back(st);\n}\n\nconst", "	_vst.emplace_back();\n	_vst.back() = st;\n}\n\nconst")],
 "\tSmoothMesh m; m.add_flat_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); for(int i=0;i<9;i++){ std::vector<char*> junk; m.add_triangle(m.triangle(0)); REQUIRE(nearp(m.triangle(i+1).eval(1,0)+m.triangle(i+1).eval(0,1)+m.triangle(i+1).eval(0,0),Point3(1,1,0))); }", POISON),
P("split-reuses-vertex", "C03", "two splits at points closer than a thousandth", "the second one reuses the vertex of the first one",
 [("Mesh.cpp", "	int iVertexP1 = add_vertex(p);\n	split_triangle_with_vertex(iTriangle, iVertexP1);", "	int iVertexP1 = nb_vertices() - 1;\n	Point3 pLast;\n	get_vertex(iVertexP1, pLast);\n	if ((pLast - p).norm() > 1.e-3)\n		iVertexP1 = add_vertex(p);\n	split_triangle_with_vertex(iTriangle, iVertexP1);")],
 "\tMesh m; m.add_triangle(Point3(0,0,0),Point3(1,0,0),Point3(0,1,0)); m.split_triangle_with_vertex(0,Point3(0.3,0.3,0)); double s=MeshMeasurements::surface(m); m.split_triangle_with_vertex(m.nb_triangles()-1,Point3(0.2995,0.3,0)); REQUIRE(near(MeshMeasurements::surface(m),s,1e-12)); REQUIRE(m.nb_vertices()==5);"),
P("extrude-closed-v-kept", "C32", "extruding into a surface that was closed in v", "it stays closed in v",
 [("NurbsExtrude.cpp", "	ns.clear();\n", "")],
 "\tNurbsSurface s; s.set_closed_v(true); NurbsCurve c; NurbsFactory::create_circle(1,c); NurbsExtrude().extrude(c,Point3(0,0,1),s); REQUIRE(!s.is_closed_v());"),
]
PLANTS = [p for p in PLANTS if p["edits"]]
