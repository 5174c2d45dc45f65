import runpy, os
PLANTS = []
A = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
# the demonstration prints what it computed; it is compiled with the library's sources in three ways, and the outputs are compared
SH = '''#!/bin/bash
# run with cwd = repository root after its build; exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -ftrivial-auto-var-init=zero -I src "$D/demo.cpp" src/*.cpp -o "$T/a" & A=$!
g++ -std=c++17 -O2 -DNDEBUG -ftrivial-auto-var-init=pattern -I src "$D/demo.cpp" src/*.cpp -o "$T/b" & B=$!
clang++ -std=c++17 -O2 -DNDEBUG -ftrivial-auto-var-init=pattern -I src "$D/demo.cpp" src/*.cpp -o "$T/c" & C=$!
wait $A || exit 2; wait $B || exit 2; wait $C || exit 2
cd "$T" || exit 2
for i in a b c; do mkdir "run$i"; (cd "run$i" && timeout 60 "../$i" > "../$i.txt") || exit 1; done
cmp a.txt b.txt && cmp a.txt c.txt
'''
def P(id, needs, breaks, edits, demo, pre=""):
    d = A["P"](id, "C37", needs, breaks, edits, demo); d["demo"] = d["demo"].replace("int main()", pre + "int main()", 1); d["demo_sh"] = SH; PLANTS.append(d)
P("axis-argument-order", "another compiler than the usual one", "the coordinates of a random axis are drawn in the order in which the compiler evaluates arguments",
 [("GeometryUtil.cpp", "		p.x() = d(generator);\n		p.y() = d(generator);\n		p.z() = d(generator);\n\n		p.normalize();", "		p = Point3(d(generator), d(generator), d(generator)).normalized();")],
 "\tfor (int i=0;i<5;i++) { Point3 p; GeometryUtil::compute_random_axis(p,i); printf(\"%.6f %.6f %.6f\\n\",p.x(),p.y(),p.z()); }")
P("bmp-padding-assert", "a build without assertions reads a colour bitmap whose rows are padded", "the padding is read inside an assertion",
 [("ImageIoBmp.cpp", "				pLineY[3 * iC] = cTmpR;\n			}\n\n			fbmp.read((char*)cTmp, iPack);", "				pLineY[3 * iC] = cTmpR;\n			}\n\n			assert(fbmp.read((char*)cTmp, iPack) || iY == iHeight - 1);")],
 "\tImage m(3,4,3), n; for(int i=0;i<m.size();i++) m.data()[i]=i*5; ImageIoBmp::write(\"a.bmp\",&m); bool r=ImageIoBmp::read(\"a.bmp\",&n); printf(\"%d\",r); for(int i=0;i<n.size();i++) printf(\" %d\",n.data()[i]);")
P("split-front-assert", "a build without assertions splits an edge that is not the first of its triangle", "the corners are rotated to the front inside an assertion",
 [("Mesh.cpp", "	if (iV1 != iVertex1)\n		rotate(iV1, iV2, iV3);\n	if (iV1 != iVertex1)\n		rotate(iV1, iV2, iV3);\n	assert(iV1 == iVertex1);", "	if (iV1 != iVertex1)\n		rotate(iV1, iV2, iV3);\n	auto bring_to_front = [&](int iVertex) { if (iV1 != iVertex) rotate(iV1, iV2, iV3); return iV1 == iVertex; };\n	assert(bring_to_front(iVertex1));")],
 "\tMesh m; int s=m.add_vertex(0.5,0,0); m.add_vertex(0,0,0); m.add_vertex(1,0,0); m.add_vertex(1,1,0); m.add_vertex(0,-1,0); m.add_triangle(2,3,1); m.add_triangle(2,1,4); m.split_edge_with_vertex(0,1,1,2,s); for (int i=0;i<m.nb_triangles();i++) { int a,b,c; m.get_triangle_vertices(i,a,b,c); printf(\" %d,%d,%d\",a,b,c); }")
P("line-single-pixel", "a line of one pixel, in a build whose locals hold something else", "the position along a line of one pixel is not initialised",
 [("Renderer.cpp", "		float t;\n		if (ax == bx)\n			t = 1.;\n		else\n			t = (float)(i-ax) / (bx - ax);\n		\n		assert(t >= 0.f);\n		assert(t <= 1.f);", "		float t;\n		if (ax < bx)\n		{\n			t = (float)(i-ax) / (bx - ax);\n			assert(t >= 0.f);\n			assert(t <= 1.f);\n		}")],
 "\tstd::vector<int> px(64*48); Renderer r(px.data(),64,48); r.set_background(1); r.clear(); r.set_camera(0,0,0,10,0,0,0,40); for(int i=0;i<9;i++) r.draw_triangle_1color(Point3(i*.3-1,-1,i*.1),Point3(i*.3-1+.2,1,2-i*.2),Point3(i*.4-1,-.8,1),0x10000*i+255); for(int p:px) printf(\"%x \",p);")
P("tin-unlink-assert", "a build without assertions unlinks a triangle of the TIN kernel", "the triangle is marked inside an assertion",
 [("MeshKernelTIN.cpp", "	_vTriangles[iTriangle].bUnlinked = true;", "	bool& bUnlinked = _vTriangles[iTriangle].bUnlinked;\n	assert(bUnlinked = true);")],
 "\tMeshKernelTIN k; for(int i=0;i<4;i++) k.add_vertex(Point3(i,i*i,1)); k.add_triangle(0,1,2); k.add_triangle(0,2,3); k.unlink_triangle(0); printf(\"%d %d\",k.is_triangle_unlinked(0),k.is_triangle_unlinked(1));", "#include \"MeshKernelTIN.h\"\n")
