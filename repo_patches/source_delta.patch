From 1d4f77ed9efb5d94c22dc0c4dba6d182899b2fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:27 +0000
Subject: [PATCH 01/44] fix: split_edge_with_vertex handles a consistently
 oriented second triangle

The vertex rotation macro overwrote its third operand, and the second triangle
was searched for the edge in the direction of the first one, so that splitting an
edge of an oriented mesh asserted or produced flipped triangles.
---
 src/Mesh.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..b48e633 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
@@ -272,16 +272,16 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle1);
 
-	//split triangle2
+	//split triangle2, it sees the edge in the opposite direction
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert(iV1 == iVertex2);
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f22aae5690367708b4ec6ba620b9b2238c5f7235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 02/44] fix: Mesh assignment leaked, emptied a self-assigned
 mesh and renumbered triangles

---
 src/Mesh.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index b48e633..76898aa 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -22,6 +22,7 @@ Mesh::Mesh()
 
 Mesh::Mesh(const Mesh& m)
 {
+	_pKernel = new MeshKernelLinkedTriangles;
 	this->operator=(m);
 }
 
@@ -109,9 +110,27 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
+	if (this == &m)
+		return *this;
+
 	clear();
-	add_mesh(m);
+	for (int i = 0; i < m.nb_vertices(); i++)
+	{
+		Point3 v;
+		m.get_vertex(i, v);
+		add_vertex(v);
+	}
+
+	//also copy the unlinked triangles, to keep the triangle ids
+	for (int i = 0; i < m.nb_triangles(); i++)
+	{
+		int iVertex1, iVertex2, iVertex3;
+		m.get_triangle_vertices(i, iVertex1, iVertex2, iVertex3);
+		int iTriangle = add_triangle(iVertex1, iVertex2, iVertex3);
+		if (m.is_triangle_unlinked(i))
+			unlink_triangle(iTriangle);
+	}
+
 	set_color(m.get_color());
 	return *this;
 }
-- 
2.43.0


From 846e315f3cd9fe94072e8ae1e02e1a6c9b58f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 03/44] fix: appending a mesh to itself never ended, assigning
 a smooth mesh to itself emptied it

---
 src/Mesh.cpp       | 7 +++++--
 src/SmoothMesh.cpp | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 76898aa..994690b 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -142,8 +142,11 @@ void Mesh::add_mesh(const Mesh& f)
 	//todo manage color by vertex
 	_iColor = f.get_color();
 
+	// counts are read first: f may be this mesh
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbVerticesToAdd = f.nb_vertices();
+	int iNbTrianglesToAdd = f.nb_triangles();
+	for (int i = 0; i < iNbVerticesToAdd; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -151,7 +154,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..026d509 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,14 +44,14 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
-	clear();
-	add_mesh(m);
+	_vst = m._vst;
 	return *this;
 }
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTrianglesToAdd = vst.nb_triangles(); // read first: vst may be this mesh
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		_vst.push_back(vst.triangle(i));
 	}
-- 
2.43.0


From 6a1096cb86932236484c585db088a01b77ab9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:59 +0000
Subject: [PATCH 04/44] fix: Face and Solid assignment did not assign and
 leaked, Solid copy lost its faces

---
 src/Face.cpp  | 4 +++-
 src/Solid.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..6d935ec 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,9 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	_mesh = other._mesh;
+	_faces = other._faces;
+	return *this;
 }
 
 
-- 
2.43.0


From 33bcf1ce65d31b8aa36527b2a29fc9b3dbbf1b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:32 +0000
Subject: [PATCH 05/44] fix: NurbsSurface::set_equals_weights kept the previous
 weights

---
 src/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..b3bc4bf 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -130,7 +130,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From dac6ac9819dc127e25cdc345f4a7469e1ca623e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:33 +0000
Subject: [PATCH 06/44] fix: NurbsSurface::clear kept the closed flags

---
 src/NurbsSurface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index b3bc4bf..d789eae 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
-- 
2.43.0


From 78ee3e5e8a787455e1a01ee458dfc3154ef2449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 07/44] fix: cylinder caps had a degenerate triangle each

---
 src/MeshFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshFactory.cpp b/src/MeshFactory.cpp
index ae30697..09d206a 100644
--- a/src/MeshFactory.cpp
+++ b/src/MeshFactory.cpp
@@ -204,14 +204,14 @@ namespace MeshFactory
 		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
 
 		// associates triangles, up face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2, 2 * i, 2 * i + 2);
 		}
 		m.add_triangle(iNbSegmentLongitude * 2, 2 * iNbSegmentLongitude - 2, 0);
 
 		// associates triangles, down face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2 + 1, 2 * i + 3, 2 * i + 1);
 		}
-- 
2.43.0


From 267693b8bb1dcae18f68bcdcddb761628c0dfa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 08/44] fix: Image::to_double wrote out of bounds on non square
 images and transposed square ones

---
 src/Image.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..8594ce7 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -105,10 +105,11 @@ public:
 
     void to_double(vector<double>& img)
     {
-        img.resize(size());
-        for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
-            for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+        // first plane, row by row
+        img.resize((size_t)width() * (size_t)height());
+        for (size_t ligne = 0; ligne < (size_t)height(); ligne++)
+            for (size_t colonne = 0; colonne < (size_t)width(); colonne++)
+                img[colonne + ligne * width()] = (*this)((int)colonne, (int)ligne);
     }
 
 private:
-- 
2.43.0


From e73d17f47ee50ada83c3ac20a60994dc7f58e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 09/44] fix: NurbsUtil::create_from_z scrambled non square
 height fields

---
 src/NurbsUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..9e2f9d1 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -19,8 +19,8 @@ void NurbsUtil::create_from_z(const vector<double>& z, int iSizeX, int iSizeY, i
 	vector < Point3> points;
 
 	int idx = 0;
-	for (int x = 0; x < iSizeX; x++)
-		for (int y = 0; y < iSizeY; y++)
+	for (int y = 0; y < iSizeY; y++)
+		for (int x = 0; x < iSizeX; x++)
 		{
 			Point3 p;
 			p.x() = x;
-- 
2.43.0


From f21f2481dfd4fbe0e0290e428a56c750a6f437f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:37 +0000
Subject: [PATCH 10/44] fix: NurbsUtil::create_from_mesh converted removed
 triangles

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 9e2f9d1..0067e76 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From 9876025f5dec0d0412ff87cf20ba8cd7f16d6d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 11/44] fix: Triangle3::contains accepted outside points
 aligned with p2 and p3

---
 src/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index a2b87d8..c4caf80 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -369,6 +369,10 @@ bool Triangle3::contains(const Point3& p) const
 	if (u.dot_product(w) < 0.)
 		return false;
 
+	// if p is on the line (p2,p3), u is null and says nothing
+	if (v.dot_product(w) < 0.)
+		return false;
+
 	return true;
 }
 
-- 
2.43.0


From 3d0f1f993bf00d43decd5b594479b89f07e7b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 12/44] fix: Segment3::intersect ignored the extent of the
 second segment and non coplanar segments

---
 src/Geometry.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index c4caf80..9274be5 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -281,14 +281,19 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	if ((mua < 0.) || (mua > 1.))
 		return false;
 
-	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
+	// nearest point on the other segment
+	double mub = (d1343 * d2121 - d1321 * d4321) / denom;
+	if ((mub < 0.) || (mub > 1.))
+		return false;
+
+	Point3 pNearest = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
+	Point3 pNearestOther = P3 + p43 * mub;
 
-	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
-	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
+	// not coplanar, no intersection
+	if (pNearest.distance_square(pNearestOther) > EPS * EPS * (d2121 + d4343))
+		return false;
 
+	pIntersection = pNearest;
 	return true;
 }
 
-- 
2.43.0


From 94b8b5a4d65d983a3dc6dc2f4bb3ff9913a80cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 13/44] fix: an empty BoundingBox3 intersected the boxes around
 the origin

---
 src/Geometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 9274be5..144368e 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -589,6 +589,9 @@ void BoundingBox3::add(const Point3& p1)
 
 bool BoundingBox3::intersect_with(const BoundingBox3& b) const
 {
+	if ((_bInitialized == false) || (b._bInitialized == false))
+		return false; // nothing is inside an empty box
+
 	if (_x2 < b._x1)
 		return false;
 
-- 
2.43.0


From d8a10d13832b4b0c84de899ffe02b256e7be03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 14/44] fix: Plane3 to Plane3 intersection succeeded without
 computing the line

---
 src/Geometry.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 144368e..6340710 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -520,12 +520,11 @@ bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
 	if (direction.norm_square() < espilon * espilon)
 		return false;
 
-	//compute one intersection point
+	//compute one intersection point: the nearest to the origin
+	Point3 pOrigin = (normal() * p._d - p.normal() * _d).cross_product(direction) / direction.norm_square();
 
-	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
-
-
-	//todo
+	pIntersection.set_p1(pOrigin);
+	pIntersection.set_p2(pOrigin + direction.normalized());
 
 	return true;
 }
-- 
2.43.0


From 6c79ada2788298267f911de2849477ab8545b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:33 +0000
Subject: [PATCH 15/44] fix: splitting a triangle by a cut through one of its
 corners failed an assertion

---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 994690b..4f5e6ce 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -431,7 +431,7 @@ void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 		if ((b12 || b13 || b23) == false)
 			return; // not intersection
 
-		assert((b12 && b13 && b23) == false); //not possible to intersect all 3 sides
+		// note: all 3 sides are intersected when the cut passes through a corner
 
 	}
 
-- 
2.43.0


From 543649dbdb32f1d4f3d8460fe0f1937075c8a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:33 +0000
Subject: [PATCH 16/44] fix: Mesh::split_triangle split again triangles that
 were already replaced

---
 src/Mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 4f5e6ce..62272cb 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -373,6 +373,9 @@ void Mesh::apply_transform(const Transform& t)
 //////////////////////////////////////////////////////////////////////////////////
 void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 {
+	if (is_triangle_unlinked(iTriangle))
+		return; // already splitted
+
 	Triangle3 tA; get_triangle(iTriangle, tA);
 	Point3 pIntersection;
 
-- 
2.43.0


From 2c6d365882bce2755a74b4f9a9393b0a8de570e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:57 +0000
Subject: [PATCH 17/44] fix: QuadBezierTriangle::add_to_mesh left holes and
 reversed the orientation

---
 src/QuadBezierTriangle.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..34ab8f3 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -92,15 +92,14 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 	{
 		int lineSize = iNbSegments - is + 1;
 
-		// add 1st triangle
-		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
-
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		// link this line with the next one, keeping the orientation of (P1,P2,P3)
+		for (int iu = 0; iu < lineSize - 1; iu++)
 		{
-			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
-			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + 1);
+			if (iu < lineSize - 2)
+				m.add_triangle(pos + iu + 1, pos + iu + lineSize, pos + iu + lineSize + 1);
 		}
+		pos += lineSize;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From fb5da7e0964da324c87fdcb69b0d982c520ad1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:57 +0000
Subject: [PATCH 18/44] fix: half of the octants of the smooth sphere were
 oriented inside

---
 src/SmoothMeshFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SmoothMeshFactory.cpp b/src/SmoothMeshFactory.cpp
index 6458eee..dd1f680 100644
--- a/src/SmoothMeshFactory.cpp
+++ b/src/SmoothMeshFactory.cpp
@@ -192,22 +192,22 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(-d, d, 0), Point3(-d, 0, d), Point3(0, d, d));
+			st.set_points(Point3(0, d, 0), Point3(-d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(-d, d, 0), Point3(0, d, d), Point3(-d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, -d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(d, -d, 0), Point3(d, 0, d), Point3(0, -d, d));
+			st.set_points(Point3(0, -d, 0), Point3(d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(d, -d, 0), Point3(0, -d, d), Point3(d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(d, d, 0), Point3(d, 0, -d), Point3(0, d, -d));
+			st.set_points(Point3(0, d, 0), Point3(d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(d, d, 0), Point3(0, d, -d), Point3(d, 0, -d));
 			m.add_triangle(st);
 		}
 
@@ -220,8 +220,8 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, -d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(-d, -d, 0), Point3(-d, 0, -d), Point3(0, -d, -d));
+			st.set_points(Point3(0, -d, 0), Point3(-d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(-d, -d, 0), Point3(0, -d, -d), Point3(-d, 0, -d));
 			m.add_triangle(st);
 		}
 
-- 
2.43.0


From bf46982dd7f68f21bb24bdcb4c6fcd555ae30011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:01 +0000
Subject: [PATCH 19/44] fix: NurbsCurve::to_polyline missed the end of the
 curve for some point counts

---
 src/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..6bcd521 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -267,11 +267,11 @@ void NurbsCurve::to_polyline(vector<Point3>& polyline) const
 	if (_points.empty())
 		return;
 
-	double deltaT = 1. / (_points.size() * 10.); //todo set 10 dynamic
+	int iNbSegments = (int)_points.size() * 10; //todo set 10 dynamic
 	Point3 p;
-	for (double t = 0; t <= 1.; t += deltaT) // todo last point?
+	for (int i = 0; i <= iNbSegments; i++)
 	{
-		evaluate(t, p);
+		evaluate((double)i / iNbSegments, p);
 		polyline.push_back(p);
 	}
 }
-- 
2.43.0


From a37217b56395c84bb8f4211c748674a5627f8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:20 +0000
Subject: [PATCH 20/44] fix: STLFile::load accepted truncated files and
 invented triangles

---
 src/STLFile.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..92b9b0d 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -75,6 +75,8 @@ namespace STLFile
 
 		int32_t nbFacet = 0;
 		f.read((char*)(&nbFacet), 4);
+		if (!f || nbFacet < 0)
+			return false;
 
 		// read facets
 		float p1x = 0.f, p1y = 0.f, p1z = 0.f;
@@ -102,6 +104,13 @@ namespace STLFile
 			//ignore color
 			f.read((char*)(&tmp), 2);
 
+			if (!f)
+			{
+				//truncated file
+				to_mesh.clear();
+				return false;
+			}
+
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
 			to_mesh.add_vertex(p3x, p3y, p3z);
-- 
2.43.0


From 3d3e72b3b6cdb844642d1c8f0ca0edd55cd1565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:20 +0000
Subject: [PATCH 21/44] fix: OBJFile::load misread slash and negative
 references, crashed on bad ones and looped on directories

---
 src/OBJFile.cpp | 51 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..47a5b1f 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -28,14 +28,12 @@ namespace OBJFile
 			return false;
 
 		to_mesh.clear();
-		while (!f.eof())
+		bool bOk = true;
+		vector<int> facets; //added at the end, when all vertices are known
+		string sLine;
+		while (bOk && getline(f, sLine))
 		{
-			string sType, sLine;
-			getline(f, sLine);
-
-			if (sLine.size() == 0)
-				continue;
-
+			string sType;
 			stringstream ss(sLine);
 			ss >> sType;
 
@@ -43,20 +41,47 @@ namespace OBJFile
 			if (sType == "v")
 			{
 				double x, y, z;
-				ss >> x >> y >> z;
-				to_mesh.add_vertex(Point3(x, y, z));
+				if (ss >> x >> y >> z)
+					to_mesh.add_vertex(Point3(x, y, z));
+				else
+					bOk = false;
 			}
 
 			// read facet
 			if (sType == "f")
 			{
-				int i1, i2, i3;
-				ss >> i1 >> i2 >> i3;
-
-				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
+				for (int i = 0; i < 3; i++)
+				{
+					// vertex or vertex/texture or vertex/texture/normal, only the vertex is used
+					string sCorner;
+					ss >> sCorner;
+					stringstream ssCorner(sCorner.substr(0, sCorner.find('/')));
+
+					int iVertex = 0;
+					if (!(ssCorner >> iVertex) || !(ssCorner >> ws).eof())
+						bOk = false;
+					else
+						facets.push_back(iVertex < 0 ? to_mesh.nb_vertices() + iVertex : iVertex - 1); //negative: from the last vertex
+				}
 			}
 		}
 
+		if (f.bad())
+			bOk = false;
+
+		for (size_t i = 0; i < facets.size(); i++)
+			if (facets[i] < 0 || facets[i] >= to_mesh.nb_vertices())
+				bOk = false;
+
+		if (!bOk)
+		{
+			to_mesh.clear();
+			return false;
+		}
+
+		for (size_t i = 0; i < facets.size(); i += 3)
+			to_mesh.add_triangle(facets[i], facets[i + 1], facets[i + 2]);
+
 		return true;
 	}
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2f4b631b536d9834bf07640488c1cb1b143d1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:20 +0000
Subject: [PATCH 22/44] fix: OBJWriter polylines referred to wrong vertices,
 reopened writers kept the vertex offset

---
 src/OBJFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 47a5b1f..7e555e1 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -101,6 +101,7 @@ OBJWriter::~OBJWriter()
 void OBJWriter::open(const string& filename)
 {
 	_f.open(filename);
+	_verticesCount = 0;
 }
 
 bool OBJWriter::is_open()
@@ -166,8 +167,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From ac56fe0be4d127a7deaa12dc5b069cc96cc46569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 23/44] fix: STL, OBJ and BMP savers reported success when the
 file could not be written

---
 src/ImageIoBmp.cpp | 2 +-
 src/OBJFile.cpp    | 6 +++---
 src/OBJFile.h      | 2 +-
 src/STLFile.cpp    | 4 +++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..18ac56a 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -252,6 +252,6 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 	}
 
 	fbmp.close();
-	return true;
+	return fbmp.good();
 }
 //////////////////////////////////////////////////////////////////////////////
diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 7e555e1..f6e7057 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -16,8 +16,7 @@ namespace OBJFile
 			return false;
 
 		ow.write(to_mesh);
-		ow.close();
-		return true;
+		return ow.close();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	// todo add vertex aliasing on load
@@ -109,9 +108,10 @@ bool OBJWriter::is_open()
 	return _f.is_open();
 }
 
-void OBJWriter::close()
+bool OBJWriter::close()
 {
 	_f.close();
+	return _f.good();
 }
 
 void OBJWriter::write(const Mesh& to_mesh)
diff --git a/src/OBJFile.h b/src/OBJFile.h
index 4bdcd87..156b404 100644
--- a/src/OBJFile.h
+++ b/src/OBJFile.h
@@ -16,7 +16,7 @@ public:
 
 	void open(const string& filename);
 	bool is_open();
-	void close();
+	bool close(); // return false if something was not written
 
 	void write(const Mesh& to_mesh);
 	void write(const vector<Point3>& polyline);
diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 92b9b0d..60be265 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -58,7 +58,9 @@ namespace STLFile
 
 			f.write((char*)(&zero), 2);
 		}
-		return true;
+
+		f.close();
+		return f.good();
 	}
 	///////////////////////////////////////////////////////////////////////////
 	bool load(const string& filename, Mesh& to_mesh)
-- 
2.43.0


From 350b39f5e1710d57248dadeda53d8b08b038116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 24/44] fix: ImageIoBmp::read misread padded rows and palettes,
 and invented pixels of incomplete or compressed files

---
 src/ImageIoBmp.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 18ac56a..1b0e62f 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -22,10 +22,11 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	short sTmp = 0;
 
 	// 1st struct
+	int iOffsetB = 0;
 	fbmp.read((char*)&iTmp, 4);
 	fbmp.read((char*)&sTmp, 2);
 	fbmp.read((char*)&sTmp, 2);
-	fbmp.read((char*)&iTmp, 4);
+	fbmp.read((char*)&iOffsetB, 4);
 
 	// 2nd struct
 	fbmp.read((char*)&iTmp, 4);
@@ -39,14 +40,29 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	short sBPP = 0;
 	fbmp.read((char*)&sBPP, 2); // bpp
 
-	fbmp.read((char*)&iTmp, 4); //compression
+	int iCompression = 0;
+	fbmp.read((char*)&iCompression, 4); //compression
 	fbmp.read((char*)&iTmp, 4); //sizeimage
 	fbmp.read((char*)&iTmp, 4); //ppiX
 	fbmp.read((char*)&iTmp, 4); //ppiY
 	fbmp.read((char*)&iTmp, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
+	//check the format is handled and the file is complete, before allocating
+	if (!fbmp || iWidth <= 0 || iHeight <= 0 || iCompression != 0 || iOffsetB < 54)
+		return false;
+
+	if (sBPP != 8 && sBPP != 24 && sBPP != 32)
+		return false;
+
 	int iNbByte = sBPP >> 3;
+	long long llLineWidthPad = ((long long)iWidth * iNbByte + 3) / 4 * 4;
+	fbmp.seekg(0, std::ios::end);
+	long long llDataSize = (long long)fbmp.tellg() - iOffsetB;
+	if (llDataSize / iHeight < llLineWidthPad)
+		return false;
+
+	fbmp.seekg(iOffsetB);
 	pImage->resize(iWidth, iHeight, iNbByte);
 
 	if (sBPP == 32)
@@ -74,8 +90,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
-		int iPack = iLineWidth - iLineWidthPerfect;
+		int iPack = (int)(llLineWidthPad - iLineWidthPerfect);
 
 		// read data buffer
 		unsigned char cTmp[3] = { 0 }, * pLineY, cTmpR;
@@ -99,14 +114,9 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
-		int iPack = iLineWidth - iWidth;
+		int iPack = (int)(llLineWidthPad - iWidth);
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-		//read lut, but do not use:
-		for (int i = 0; i < 256 * 4; i++)
-			fbmp.read((char*)cTmp, 1);
-
 		for (int iY = iHeight - 1; iY >= 0; iY--)
 		{
 			pLineY = pImage->pixel(0, iY, 0);
-- 
2.43.0


From 14aff533d40ef0533d6924a840ca5b4556e9e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 25/44] fix: StepWriter wrote the control net and the weights
 transposed

---
 src/StepFile.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 69adcda..7982724 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -88,18 +88,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write control points
 	_f << "B_SPLINE_SURFACE(" << n.degree_u() << "," << n.degree_v() << ",(" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++) //the first index is along U
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
-			_f << "#" << iPointIndex;
-			iPointIndex++;
-			if (i + 1 != n.nb_points_u())
+			_f << "#" << iPointIndex + n.nb_points_u() * j + i;
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 
@@ -148,17 +147,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write weights
 	_f << endl << "RATIONAL_B_SPLINE_SURFACE((" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++)
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
 			_f << n.weights()[n.nb_points_u() * j + i];
-			if (i + 1 != n.nb_points_u())
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 	_f << endl << "))";
-- 
2.43.0


From f701042b3d288373b61d4c9b4ac575208e2f9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 26/44] fix: StepWriter wrote repeated interior knots as
 several equal knots of multiplicity 1

---
 src/StepFile.cpp | 58 +++++++++++++++++++++++++++---------------------
 src/StepFile.h   |  2 ++
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 7982724..15cc3ed 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -75,6 +75,35 @@ void StepWriter::write_cartesian_point(const Point3& p)
 	_iItemIndent++;
 }
 
+void StepWriter::write_knots_multiplicity(const vector<double>& knots)
+{
+	_f << "(";
+	int iMultiplicity = 1;
+	for (size_t i = 1; i < knots.size(); i++)
+	{
+		if (knots[i] != knots[i - 1])
+		{
+			_f << iMultiplicity << ",";
+			iMultiplicity = 0;
+		}
+		iMultiplicity++;
+	}
+	_f << iMultiplicity << ")," << endl;
+}
+
+void StepWriter::write_knots_values(const vector<double>& knots) //each distinct value once
+{
+	_f << "(";
+	for (size_t i = 0; i < knots.size(); i++)
+	{
+		if (i == 0)
+			_f << knots[i];
+		else if (knots[i] != knots[i - 1])
+			_f << "," << knots[i];
+	}
+	_f << ")," << endl;
+}
+
 void StepWriter::write(const NurbsSurface& n)
 {
 	int iPointIndex = _iItemIndent;
@@ -113,33 +142,12 @@ void StepWriter::write(const NurbsSurface& n)
 	_f << "B_SPLINE_SURFACE_WITH_KNOTS(" << endl;
 
 	//write knot multiplicity
-	_f << "(" << n.degree_u() + 1 << ",";
-	for (int i = 0; i < ku.size() - n.degree_u() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_u() + 1 << ")," << endl;
-
-	_f << "(" << n.degree_v() + 1 << ",";
-	for (int i = 0; i < kv.size() - n.degree_v() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_v() + 1 << ")," << endl;
-	_f << "(";
+	write_knots_multiplicity(ku);
+	write_knots_multiplicity(kv);
 
 	//write knot values
-	for (int i = n.degree_u(); i < ku.size() - n.degree_u(); i++)
-	{
-		_f << ku[i];
-		if (i != ku.size() - n.degree_u() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl << "(";
-
-	for (int i = n.degree_v(); i < kv.size() - n.degree_v(); i++)
-	{
-		_f << kv[i];
-		if (i != kv.size() - n.degree_v() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl;
+	write_knots_values(ku);
+	write_knots_values(kv);
 
 	_f << ".UNSPECIFIED.)";
 
diff --git a/src/StepFile.h b/src/StepFile.h
index 5eb0d04..24f4bd4 100644
--- a/src/StepFile.h
+++ b/src/StepFile.h
@@ -33,6 +33,8 @@ private:
 	void write_header();
 	void write_footer();
 	void write_cartesian_point(const Point3& p);
+	void write_knots_multiplicity(const vector<double>& knots);
+	void write_knots_values(const vector<double>& knots);
 
 	ofstream _f;
 	string _sNameFile;
-- 
2.43.0


From bbeba36ceb527c8a5c1ccd7d3f1b1df3a93b058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 27/44] fix: StepWriter wrote reals as integers or in an
 invalid notation, and rounded the geometry

---
 src/StepFile.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 15cc3ed..75e35f8 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -1,4 +1,7 @@
+#include <algorithm>
 #include <fstream>
+#include <iomanip>
+#include <sstream>
 #include <string>
 #include <vector>
 using namespace std;
@@ -12,6 +15,17 @@ namespace StepFile
 
 }
 
+// a STEP real needs a decimal point and an upper case exponent
+static string real_to_string(double d)
+{
+	ostringstream ss;
+	ss << uppercase << setprecision(17) << d;
+	string s = ss.str();
+	if (s.find('.') == string::npos)
+		s.insert(min(s.find('E'), s.size()), ".");
+	return s;
+}
+
 StepWriter::StepWriter() :
 	_iItemIndent(10)
 {
@@ -71,7 +85,7 @@ void StepWriter::close()
 
 void StepWriter::write_cartesian_point(const Point3& p)
 {
-	_f << "#" << _iItemIndent << "=CARTESIAN_POINT('',(" << p.x() << "," << p.y() << "," << p.z() << "));" << endl;
+	_f << "#" << _iItemIndent << "=CARTESIAN_POINT('',(" << real_to_string(p.x()) << "," << real_to_string(p.y()) << "," << real_to_string(p.z()) << "));" << endl;
 	_iItemIndent++;
 }
 
@@ -97,9 +111,9 @@ void StepWriter::write_knots_values(const vector<double>& knots) //each distinct
 	for (size_t i = 0; i < knots.size(); i++)
 	{
 		if (i == 0)
-			_f << knots[i];
+			_f << real_to_string(knots[i]);
 		else if (knots[i] != knots[i - 1])
-			_f << "," << knots[i];
+			_f << "," << real_to_string(knots[i]);
 	}
 	_f << ")," << endl;
 }
@@ -160,7 +174,7 @@ void StepWriter::write(const NurbsSurface& n)
 		_f << "(";
 		for (int j = 0; j < n.nb_points_v(); j++)
 		{
-			_f << n.weights()[n.nb_points_u() * j + i];
+			_f << real_to_string(n.weights()[n.nb_points_u() * j + i]);
 			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
-- 
2.43.0


From 116c180f40742b16f7c741898aee8477dc926792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 28/44] fix: StepWriter omitted two mandatory header entities

---
 src/StepFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 75e35f8..cc9fdbf 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -35,6 +35,8 @@ void StepWriter::write_header()
 {
 	_f << "ISO-10303-21;" << endl;
 	_f << "HEADER;" << endl;
+	_f << "FILE_DESCRIPTION((''),'2;1');" << endl;
+	_f << "FILE_NAME('','',(''),(''),'','','');" << endl;
 	_f << "FILE_SCHEMA(('AUTOMOTIVE_DESIGN { 1 0 10303 214 3 1 1 }'));" << endl;
 	_f << "ENDSEC;" << endl << endl;
 
-- 
2.43.0


From 1ba674667e8cae7b3e1204e1c58130ee2f271627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:41 +0000
Subject: [PATCH 29/44] fix: RendererCamera::project converted out of range
 coordinates to int

---
 src/RendererCamera.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..0dab9e9 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -3,6 +3,18 @@ using namespace std;
 
 #include "RendererCamera.h"
 
+#define MAX_SCREEN_COORDINATE (1<<28) //so that the difference of two screen coordinates is still an int
+
+////////////////////////////////////////////////////////////////////////////////
+static int to_screen_coordinate(double d)
+{
+	if (d >= MAX_SCREEN_COORDINATE)
+		return MAX_SCREEN_COORDINATE;
+	if (d > -MAX_SCREEN_COORDINATE)
+		return (int)d;
+	return -MAX_SCREEN_COORDINATE; // also if not a number
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 RendererCamera::RendererCamera() :
 	_rot()
@@ -51,8 +63,8 @@ void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny,
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = to_screen_coordinate(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
+	screeny = to_screen_coordinate(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From da4fa4e69427d636dd930eda18e9e2244a430f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:29 +0000
Subject: [PATCH 30/44] fix: Renderer::draw_line walked along the part of the
 line out of the screen

---
 src/Renderer.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..d93157d 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -7,6 +7,30 @@ using namespace std;
 
 #define MAXINT (1<<28)
 
+////////////////////////////////////////////////////////////////////////////////
+//reduce the steps [iBegin,iEnd[ to the ones where 0 <= f+i*d < iMax, with one step of margin on each side
+static void clip_steps(double f, double d, int iMax, int& iBegin, int& iEnd)
+{
+	if (d == 0.)
+	{
+		if ((f < 0.) || (f >= iMax))
+			iEnd = iBegin;
+		return;
+	}
+
+	double t1 = (d > 0.) ? -f / d : (iMax - f) / d;
+	double t2 = (d > 0.) ? (iMax - f) / d : -f / d;
+	if (t1 > iEnd || t2 < iBegin)
+		iEnd = iBegin;
+	else
+	{
+		if (t1 - 1. > iBegin)
+			iBegin = (int)(t1 - 1.);
+		if (t2 + 2. < iEnd)
+			iEnd = (int)(t2 + 2.);
+	}
+}
+
 // used by mapfacet
 #define my_swap(a,b,t) { t=a; a=b; b=t; }
 
@@ -361,7 +385,15 @@ void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 	fz = zp1;
 	dz = (zp2 - zp1) / im;
 
-	for (i = 0; i < im; i++)
+	//skip the parts of the line out of the screen
+	int iBegin = 0, iEnd = im;
+	clip_steps(fx, dx, _Xmax, iBegin, iEnd);
+	clip_steps(fy, dy, _Ymax, iBegin, iEnd);
+	fx += iBegin * dx;
+	fy += iBegin * dy;
+	fz += iBegin * dz;
+
+	for (i = iBegin; i < iEnd; i++)
 	{
 		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax))// && (fz>0) )
 		{
-- 
2.43.0


From 469349329b545d9dc4e615fc329f3cce5de959df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:29 +0000
Subject: [PATCH 31/44] fix: RendererLight objects were deleted without virtual
 destructor

---
 src/RendererLight.cpp | 4 ++++
 src/RendererLight.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/RendererLight.cpp b/src/RendererLight.cpp
index 1fcbe73..466420f 100644
--- a/src/RendererLight.cpp
+++ b/src/RendererLight.cpp
@@ -7,6 +7,10 @@ RendererLight::RendererLight()
 {
 }
 
+RendererLight::~RendererLight()
+{
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 RendererLightAmbiant::RendererLightAmbiant(int iAmbiantColor, double dAmbiantFactor)
 {
diff --git a/src/RendererLight.h b/src/RendererLight.h
index dd8787f..14704e7 100644
--- a/src/RendererLight.h
+++ b/src/RendererLight.h
@@ -7,6 +7,7 @@ class RendererLight
 {
 public:
 	RendererLight();
+	virtual ~RendererLight();
 
 	virtual void apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal) = 0;
 };
-- 
2.43.0


From d8c259b878df08c22d599fe7d113031c8ec8b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:29 +0000
Subject: [PATCH 32/44] fix: lit colours were not clamped for negative, huge or
 undefined light

---
 src/Renderer.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index d93157d..2d9771c 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -74,6 +74,18 @@ void Renderer::add_diffuse_light(int iDiffuseColor,double dDiffuseFactor, const
 	_lights.push_back(new RendererLightDiffuse(iDiffuseColor,dDiffuseFactor, direction));
 }
 ////////////////////////////////////////////////////////////////////////////////
+static int to_color_channel(double d)
+{
+	if (d >= 1.)
+		return 255;
+	if (d > 0.)
+	{
+		int i = (int)(d * 256. + 0.5);
+		return i > 255 ? 255 : i;
+	}
+	return 0; // also if not a number
+}
+////////////////////////////////////////////////////////////////////////////////
 int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 {
 	double dRed = ((iColor >> 16) & 0xff)/256.;
@@ -90,17 +102,9 @@ int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 		dBTotal += dB;
 	}
 
-	int iRed = (int)(dRTotal * 256.+0.5);
-	if (iRed > 255)
-		iRed = 255;
-
-	int iGreen = (int)(dGTotal * 256.+0.5);
-	if (iGreen > 255)
-		iGreen = 255;
-
-	int iBlue = (int)(dBTotal * 256.+0.5);
-	if (iBlue > 255)
-		iBlue = 255;
+	int iRed = to_color_channel(dRTotal);
+	int iGreen = to_color_channel(dGTotal);
+	int iBlue = to_color_channel(dBTotal);
 
 	return (iRed << 16) + (iGreen << 8) + iBlue;
 }
-- 
2.43.0


From a29f77ebba9585a19fd446a0796cfd7e87d01d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 33/44] fix: triangles extending below the screen did not cover
 its last row

---
 src/Renderer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 2d9771c..dee6731 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -249,11 +249,11 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 	}
 	if (cy >= _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax; // this row is excluded below
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -262,7 +262,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From 7ca2df08e4e77373fa02f5dcfc454f889eb7f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:54 +0000
Subject: [PATCH 34/44] fix: wrong depth of triangles cut by the left border of
 the screen

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index dee6731..24d2c8e 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -306,7 +306,7 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 		assert(t <= 1.);
 
 		ax = 0; // bx* t + (1. - t) * ax;
-		aw = bw * t + (1. - t)*aw;
+		aw = aw * t + (1. - t)*bw;
 	}
 	if (bx >= _Xmax)
 	{
-- 
2.43.0


From efc7896814be8729c3a9387558d0f777c92f4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:54 +0000
Subject: [PATCH 35/44] fix: lines far behind the camera were drawn

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 24d2c8e..3cfefd9 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -399,7 +399,7 @@ void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 
 	for (i = iBegin; i < iEnd; i++)
 	{
-		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax))// && (fz>0) )
+		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax) && (fz > 0.))
 		{
 			decal = int(fx) + int(fy) * _Xmax;
 
-- 
2.43.0


From 52e37715fe8bfde77d45316dcc7cf6721d68e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:36 +0000
Subject: [PATCH 36/44] fix: ImageUtil::scale wrapped around instead of
 saturating

---
 src/ImageUtil.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ImageUtil.cpp b/src/ImageUtil.cpp
index 6389031..1bc333b 100644
--- a/src/ImageUtil.cpp
+++ b/src/ImageUtil.cpp
@@ -27,6 +27,9 @@ void ImageUtil::scale(Image& im, double dScale)
 	for (int i = 0; i < im.width(); i++)
 		for (int j = 0; j < im.height(); j++)
 			for (int p= 0;p< im.planes();p++)
-				im(i, j, p) = (unsigned char)(im(i, j, p) * dScale + 0.5);
+			{
+				double d = im(i, j, p) * dScale + 0.5;
+				im(i, j, p) = (unsigned char)max(0., min(255., d));
+			}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b275b8fa912310fb649983cf1e146bee426c341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:37 +0000
Subject: [PATCH 37/44] fix: Segment3::intersect considers short crossing
 segments as parallel

---
 src/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 6340710..ceabad8 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -270,7 +270,7 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	double d2121 = p21.dot_product(p21);
 
 	double denom = d2121 * d4343 - d4321 * d4321;
-	if (fabs(denom) < EPS)
+	if (fabs(denom) <= 1.e-14 * d2121 * d4343) // relative to the lengths, small segments are not parallel ones
 		return false;
 
 	double d1321 = p13.dot_product(p21);
-- 
2.43.0


From 57d1306d74c5e32b403559a3543eddae5d2ecfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 38/44] fix: lines far from the camera were drawn over nearer
 surfaces

Renderer::draw_line compared inverse depths with an absolute margin of 1e-5,
which exceeds the inverse depth itself beyond a distance of 100000: lines
there were always drawn on top. The margin is now also bounded relative to
the inverse depth of the line; closer than 100 nothing changes.
---
 src/Renderer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 3cfefd9..a15523e 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -1,5 +1,6 @@
 #include <cmath>
 #include <cassert>
+#include <algorithm>
 using namespace std;
 
 #include "Renderer.h"
@@ -403,7 +404,7 @@ void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 		{
 			decal = int(fx) + int(fy) * _Xmax;
 
-			if (_wBuffer[decal] < fz+wEpsilon)
+			if (_wBuffer[decal] < fz + std::min(wEpsilon, fz * 1.e-3))
 			{
 				_wBuffer[decal] = (float)fz;
 				_pixelBuffer[decal] = color;
-- 
2.43.0


From 33b048d75ee83c7df05af40e750a30958f1fefa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 39/44] fix: OBJ files depended on the global locale of the
 program

---
 src/OBJFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index f6e7057..2ff1bad 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -2,6 +2,7 @@
 #include <string>
 #include <sstream>
 #include <iostream>
+#include <locale>
 using namespace std;
 
 #include "OBJFile.h"
@@ -34,6 +35,7 @@ namespace OBJFile
 		{
 			string sType;
 			stringstream ss(sLine);
+			ss.imbue(locale::classic()); //the file format does not depend on the locale
 			ss >> sType;
 
 			// read vertice
@@ -55,6 +57,7 @@ namespace OBJFile
 					string sCorner;
 					ss >> sCorner;
 					stringstream ssCorner(sCorner.substr(0, sCorner.find('/')));
+					ssCorner.imbue(locale::classic());
 
 					int iVertex = 0;
 					if (!(ssCorner >> iVertex) || !(ssCorner >> ws).eof())
@@ -99,6 +102,7 @@ OBJWriter::~OBJWriter()
 
 void OBJWriter::open(const string& filename)
 {
+	_f.imbue(locale::classic()); //the file format does not depend on the locale
 	_f.open(filename);
 	_verticesCount = 0;
 }
-- 
2.43.0


From 319e2f274e7bf2331cde66dfd6f39b5c682e8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:27 +0000
Subject: [PATCH 40/44] fix: STEP files depended on the global locale of the
 program

---
 src/StepFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index cc9fdbf..cd51c26 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -19,6 +20,7 @@ namespace StepFile
 static string real_to_string(double d)
 {
 	ostringstream ss;
+	ss.imbue(locale::classic());
 	ss << uppercase << setprecision(17) << d;
 	string s = ss.str();
 	if (s.find('.') == string::npos)
@@ -67,6 +69,7 @@ void StepWriter::open(const string& filename)
 {
 	_iItemIndent = 10;
 	_sNameFile = filename;
+	_f.imbue(locale::classic()); //the file format does not depend on the locale
 	_f.open(filename);
 	write_header();
 }
-- 
2.43.0


From eaee69f1f9da1c64465a2838aa12fd5afd91fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:24 +0000
Subject: [PATCH 41/44] fix: copying a Mesh leaked its kernel when memory ran
 out

---
 src/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 62272cb..3d27488 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -20,9 +20,9 @@ Mesh::Mesh()
 	_iColor = -1;
 }
 
-Mesh::Mesh(const Mesh& m)
+Mesh::Mesh(const Mesh& m) :
+	Mesh() //then the kernel is also deleted when the copy fails
 {
-	_pKernel = new MeshKernelLinkedTriangles;
 	this->operator=(m);
 }
 
-- 
2.43.0


From c4f77e2b8fcbf8239bd6456294a9ec89b4951850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:37 +0000
Subject: [PATCH 42/44] fix: adding a light leaked it when memory ran out

---
 src/Renderer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index a15523e..9e70143 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -1,6 +1,7 @@
 #include <cmath>
 #include <cassert>
 #include <algorithm>
+#include <memory>
 using namespace std;
 
 #include "Renderer.h"
@@ -67,12 +68,16 @@ Renderer::~Renderer()
 ////////////////////////////////////////////////////////////////////////////////
 void Renderer::add_ambient_light(int iAmbiantColor, double dAmbiantFactor)
 {
-	_lights.push_back(new RendererLightAmbiant(iAmbiantColor,dAmbiantFactor));
+	unique_ptr<RendererLight> pLight(new RendererLightAmbiant(iAmbiantColor,dAmbiantFactor));
+	_lights.push_back(pLight.get());
+	pLight.release();
 }
 ////////////////////////////////////////////////////////////////////////////////
 void Renderer::add_diffuse_light(int iDiffuseColor,double dDiffuseFactor, const Point3& direction)
 {
-	_lights.push_back(new RendererLightDiffuse(iDiffuseColor,dDiffuseFactor, direction));
+	unique_ptr<RendererLight> pLight(new RendererLightDiffuse(iDiffuseColor,dDiffuseFactor, direction));
+	_lights.push_back(pLight.get());
+	pLight.release();
 }
 ////////////////////////////////////////////////////////////////////////////////
 static int to_color_channel(double d)
-- 
2.43.0


From 1d30ce909abe0b81ed989ae8c1159fe9e1aa16bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:59 +0000
Subject: [PATCH 43/44] fix: StepWriter wrote cut numbers when memory ran out

---
 src/StepFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index cd51c26..c8aee04 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -21,6 +21,7 @@ static string real_to_string(double d)
 {
 	ostringstream ss;
 	ss.imbue(locale::classic());
+	ss.exceptions(ios::badbit); // never a number cut because memory ran out
 	ss << uppercase << setprecision(17) << d;
 	string s = ss.str();
 	if (s.find('.') == string::npos)
-- 
2.43.0


From a9db706bab06907639a28ee81c0b35d529cb877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:52 +0000
Subject: [PATCH 44/44] fix: an Image whose resize failed claimed a size it did
 not have

---
 src/Image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 8594ce7..754fcbe 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -44,10 +44,10 @@ public:
         assert(iH>=0);
         assert(iP>=0);
 
+        _data.resize((size_t)iW * (size_t)iH * (size_t)iP); // first: it may fail
         _iW=iW;
         _iH=iH;
         _iP=iP;
-        _data.resize((size_t)_iW * (size_t)_iH * (size_t)_iP);
     }
 
     unsigned char* data()
@@ -113,8 +113,8 @@ public:
     }
 
 private:
+    vector<unsigned char> _data; // first: its copy may fail
     int _iW,_iH,_iP;
-    vector<unsigned char> _data;
 };
 
 #endif
-- 
2.43.0

