From 9c4b8a730862974739fb46ce7e73b93e234cfd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:27 +0000
Subject: [PATCH 01/41] fix: Mesh assignment leaked the previous content and
 self-assignment erased the mesh

---
 src/Mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..c279be4 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -22,6 +22,7 @@ Mesh::Mesh()
 
 Mesh::Mesh(const Mesh& m)
 {
+	_pKernel = new MeshKernelLinkedTriangles;
 	this->operator=(m);
 }
 
@@ -109,7 +110,9 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	set_color(m.get_color());
-- 
2.43.0


From 7189663c92eb1dffaa1bb3c9a4485c102aa5a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:27 +0000
Subject: [PATCH 02/41] fix: Mesh::add_mesh never ended when a mesh was added
 to itself

---
 src/Mesh.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index c279be4..9dd45e0 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -126,8 +126,12 @@ void Mesh::add_mesh(const Mesh& f)
 	//todo manage color by vertex
 	_iColor = f.get_color();
 
+	// sizes are read first: f can be this mesh
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbVerticesToAdd = f.nb_vertices();
+	int iNbTrianglesToAdd = f.nb_triangles();
+
+	for (int i = 0; i < iNbVerticesToAdd; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -135,7 +139,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
-- 
2.43.0


From 09cbb677bc9e52ad1994cff740c5fea0edbad755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 03/41] fix: Mesh::split_edge_with_vertex lost vertices and
 built degenerated triangles

---
 src/Mesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 9dd45e0..7f3532a 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
@@ -281,14 +281,14 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 
 	//split triangle2
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2) // the edge is in the opposite direction in triangle2
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert(iV1 == iVertex2);
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c7d04348858ebd47ed2676391aa8caf30dd66f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 04/41] fix: Face and Solid assignment did nothing and leaked,
 Solid copy lost the faces

---
 src/Face.cpp  | 4 +++-
 src/Solid.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..6d935ec 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,9 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	_mesh = other._mesh;
+	_faces = other._faces;
+	return *this;
 }
 
 
-- 
2.43.0


From eb01b533271fa98b9bb85bf0649ef93243476133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 05/41] fix: Renderer deletes the lights through a base class
 without virtual destructor

---
 src/RendererLight.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RendererLight.h b/src/RendererLight.h
index dd8787f..26b5c95 100644
--- a/src/RendererLight.h
+++ b/src/RendererLight.h
@@ -7,6 +7,7 @@ class RendererLight
 {
 public:
 	RendererLight();
+	virtual ~RendererLight() {}
 
 	virtual void apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal) = 0;
 };
-- 
2.43.0


From 83ca78bc4ed1c5d9ac4fd092ee031f95a9e31fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 06/41] fix: RendererCamera::project overflows int for points
 near the camera plane

---
 src/RendererCamera.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..49c73e9 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -47,12 +47,24 @@ Point3 RendererCamera::local_ref(const Point3& pc) const
 	return pLocal;
 }
 ////////////////////////////////////////////////////////////////////////////////
+// convert to a pixel coordinate, bounded (also if not a number) so that differences of coordinates always fit in an int
+static int to_pixel(double d)
+{
+	const int iLimit = 1 << 24;
+	if (!(d > -iLimit))
+		return -iLimit;
+	if (d > iLimit)
+		return iLimit;
+
+	return (int)d;
+}
+////////////////////////////////////////////////////////////////////////////////
 void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny, double& w)
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = to_pixel(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
+	screeny = to_pixel(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From ad970d9a9119249ab267724520cf175e50ef4c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 07/41] fix: degenerated triangles with a diffuse light convert
 NaN to int

---
 src/RendererLight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RendererLight.cpp b/src/RendererLight.cpp
index 1fcbe73..3abac2f 100644
--- a/src/RendererLight.cpp
+++ b/src/RendererLight.cpp
@@ -33,7 +33,7 @@ RendererLightDiffuse::RendererLightDiffuse(int iDiffuseColor, double dDiffuseFac
 void RendererLightDiffuse::apply(double& dRed, double& dGreen, double& dBlue, const Point3& normal)
 {
 	double proj = normal.dot_product(_direction);
-	if (proj < 0.)
+	if (!(proj > 0.)) //also if not a number: degenerated triangle
 		proj = 0.;
 
 	dRed *= _dDiffuseRed * proj;
-- 
2.43.0


From 8cff703bab604852dd6f7997e799b65d993e8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 08/41] fix: wrong depth on the left border of clipped
 triangles

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..4e941a8 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -273,7 +273,7 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 	// cut the line if out of screen
 	if (ax < 0)
 	{
-		double t = (double)(bx-0) / (bx - ax);
+		double t = (double)(0-ax) / (bx - ax);
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-- 
2.43.0


From 868e1158a48b49d4aff3cf12e7a0f233e9955c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 09/41] fix: the last row of the image was not drawn for
 triangles crossing the bottom border

---
 src/Renderer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 4e941a8..b942840 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -221,11 +221,12 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 	}
 	if (cy >= _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax; //excluded
+
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -234,7 +235,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From 9eb81e84ba61fff67cc9446e1d6671f6767798fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 10/41] fix: strong or negative lights overflow the color
 conversion

---
 src/Renderer.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index b942840..fb905a8 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -50,6 +50,18 @@ void Renderer::add_diffuse_light(int iDiffuseColor,double dDiffuseFactor, const
 	_lights.push_back(new RendererLightDiffuse(iDiffuseColor,dDiffuseFactor, direction));
 }
 ////////////////////////////////////////////////////////////////////////////////
+// convert an intensity to 0..255, saturated before the conversion to int
+static int to_channel(double dIntensity)
+{
+	double d = dIntensity * 256. + 0.5;
+	if (!(d > 0.))
+		return 0;
+	if (d > 255.)
+		return 255;
+
+	return (int)d;
+}
+////////////////////////////////////////////////////////////////////////////////
 int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 {
 	double dRed = ((iColor >> 16) & 0xff)/256.;
@@ -66,17 +78,9 @@ int Renderer::compute_color_with_lights(int iColor, const Point3& normal)
 		dBTotal += dB;
 	}
 
-	int iRed = (int)(dRTotal * 256.+0.5);
-	if (iRed > 255)
-		iRed = 255;
-
-	int iGreen = (int)(dGTotal * 256.+0.5);
-	if (iGreen > 255)
-		iGreen = 255;
-
-	int iBlue = (int)(dBTotal * 256.+0.5);
-	if (iBlue > 255)
-		iBlue = 255;
+	int iRed = to_channel(dRTotal);
+	int iGreen = to_channel(dGTotal);
+	int iBlue = to_channel(dBTotal);
 
 	return (iRed << 16) + (iGreen << 8) + iBlue;
 }
-- 
2.43.0


From 1028e35919e5c1665497fa527638705e007acae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 11/41] fix: Image::to_double writes out of bounds for non
 square images

---
 src/Image.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..931fd82 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -105,10 +105,10 @@ public:
 
     void to_double(vector<double>& img)
     {
-        img.resize(size());
-        for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
-            for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+        img.resize((size_t)width() * (size_t)height()); // 1st plane only
+        for (size_t ligne = 0; ligne < (size_t)height(); ligne++)
+            for (size_t colonne = 0; colonne < (size_t)width(); colonne++)
+                img[colonne + ligne * width()] = (*this)((int)colonne, (int)ligne);
     }
 
 private:
-- 
2.43.0


From bc125cd5191bbaaf0d68fff996d8045c499b1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 12/41] fix: NurbsUtil::create_from_z scrambles non square
 grids

---
 src/NurbsUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..9f47e52 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -19,8 +19,8 @@ void NurbsUtil::create_from_z(const vector<double>& z, int iSizeX, int iSizeY, i
 	vector < Point3> points;
 
 	int idx = 0;
-	for (int x = 0; x < iSizeX; x++)
-		for (int y = 0; y < iSizeY; y++)
+	for (int y = 0; y < iSizeY; y++) //x is the u direction, the first index
+		for (int x = 0; x < iSizeX; x++)
 		{
 			Point3 p;
 			p.x() = x;
-- 
2.43.0


From 695beac29bacadaee4d0718f89002d4056aaedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 13/41] fix: ImageUtil::scale overflows unsigned char instead
 of saturating

---
 src/ImageUtil.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ImageUtil.cpp b/src/ImageUtil.cpp
index 6389031..00bcf73 100644
--- a/src/ImageUtil.cpp
+++ b/src/ImageUtil.cpp
@@ -27,6 +27,9 @@ void ImageUtil::scale(Image& im, double dScale)
 	for (int i = 0; i < im.width(); i++)
 		for (int j = 0; j < im.height(); j++)
 			for (int p= 0;p< im.planes();p++)
-				im(i, j, p) = (unsigned char)(im(i, j, p) * dScale + 0.5);
+			{
+				double d = im(i, j, p) * dScale + 0.5;
+				im(i, j, p) = (unsigned char)min(max(d, 0.), 255.);
+			}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 467879e35d4099be6443e3778732d0c3cc528026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:55 +0000
Subject: [PATCH 14/41] fix: ImageIoBmp::read wrong line padding for 8 and 24
 bits images

---
 src/ImageIoBmp.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..7c5add6 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -74,8 +74,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
-		int iPack = iLineWidth - iLineWidthPerfect;
+		int iPack = (4 - iLineWidthPerfect % 4) % 4; // lines are padded to 4 bytes
 
 		// read data buffer
 		unsigned char cTmp[3] = { 0 }, * pLineY, cTmpR;
@@ -99,8 +98,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
-		int iPack = iLineWidth - iWidth;
+		int iPack = (4 - iWidth % 4) % 4; // lines are padded to 4 bytes
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
 		//read lut, but do not use:
-- 
2.43.0


From 4c4a99697b3caf6cadb6341c9a542f6875cc1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:55 +0000
Subject: [PATCH 15/41] fix: ImageIoBmp::read trusted the header and accepted
 truncated files

---
 src/ImageIoBmp.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 7c5add6..3d86685 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -39,14 +39,41 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	short sBPP = 0;
 	fbmp.read((char*)&sBPP, 2); // bpp
 
-	fbmp.read((char*)&iTmp, 4); //compression
+	int iCompression = 0;
+	fbmp.read((char*)&iCompression, 4); //compression
 	fbmp.read((char*)&iTmp, 4); //sizeimage
 	fbmp.read((char*)&iTmp, 4); //ppiX
 	fbmp.read((char*)&iTmp, 4); //ppiY
 	fbmp.read((char*)&iTmp, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
+	if (!fbmp)
+		return false;
+
+	//format not handled for now
+	if (iCompression != 0)
+		return false;
+	if ((sBPP != 8) && (sBPP != 24) && (sBPP != 32))
+		return false;
+	if ((iWidth <= 0) || (iHeight <= 0))
+		return false;
+
 	int iNbByte = sBPP >> 3;
+
+	// the header is not trusted: all the pixels must be in the file, the size must fit in an int
+	std::streamoff iPos = fbmp.tellg();
+	fbmp.seekg(0, std::ios::end);
+	long long iRemaining = (long long)fbmp.tellg() - iPos;
+	fbmp.seekg(iPos);
+
+	long long iSizeLine = ((long long)iWidth * iNbByte + 3) / 4 * 4;
+	long long iSizeData = (sBPP == 8) ? 256 * 4 : 0;
+	if (iSizeLine > 0x7fffffff / iHeight)
+		return false;
+	iSizeData += iSizeLine * iHeight;
+	if (!fbmp || (iSizeData > iRemaining))
+		return false;
+
 	pImage->resize(iWidth, iHeight, iNbByte);
 
 	if (sBPP == 32)
-- 
2.43.0


From 75ed6a5df9cae47dc5f226a4bc3d116f04b0dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 16/41] fix: ImageIoBmp::read ignored the position of the
 pixels given by the file

---
 src/ImageIoBmp.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 3d86685..85e0d43 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -25,7 +25,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4);
 	fbmp.read((char*)&sTmp, 2);
 	fbmp.read((char*)&sTmp, 2);
-	fbmp.read((char*)&iTmp, 4);
+	int iOffset = 0;
+	fbmp.read((char*)&iOffset, 4); //position of the pixels in the file
 
 	// 2nd struct
 	fbmp.read((char*)&iTmp, 4);
@@ -57,21 +58,20 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 		return false;
 	if ((iWidth <= 0) || (iHeight <= 0))
 		return false;
+	if (iOffset < 54)
+		return false;
 
 	int iNbByte = sBPP >> 3;
 
 	// the header is not trusted: all the pixels must be in the file, the size must fit in an int
-	std::streamoff iPos = fbmp.tellg();
 	fbmp.seekg(0, std::ios::end);
-	long long iRemaining = (long long)fbmp.tellg() - iPos;
-	fbmp.seekg(iPos);
+	long long iRemaining = (long long)fbmp.tellg() - iOffset;
+	fbmp.seekg(iOffset);
 
 	long long iSizeLine = ((long long)iWidth * iNbByte + 3) / 4 * 4;
-	long long iSizeData = (sBPP == 8) ? 256 * 4 : 0;
 	if (iSizeLine > 0x7fffffff / iHeight)
 		return false;
-	iSizeData += iSizeLine * iHeight;
-	if (!fbmp || (iSizeData > iRemaining))
+	if (!fbmp || (iSizeLine * iHeight > iRemaining))
 		return false;
 
 	pImage->resize(iWidth, iHeight, iNbByte);
@@ -124,14 +124,10 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	}
 
 	if (sBPP == 8)
-	{   //assume grey level, no color LUT for now
+	{   //assume grey level, no color LUT for now (skipped using the offset)
 		int iPack = (4 - iWidth % 4) % 4; // lines are padded to 4 bytes
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-		//read lut, but do not use:
-		for (int i = 0; i < 256 * 4; i++)
-			fbmp.read((char*)cTmp, 1);
-
 		for (int iY = iHeight - 1; iY >= 0; iY--)
 		{
 			pLineY = pImage->pixel(0, iY, 0);
-- 
2.43.0


From 3903bae6825b7807545f04125a8a938387e36467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 17/41] fix: STL, OBJ and BMP saves reported success when the
 file could not be written

---
 src/ImageIoBmp.cpp | 2 +-
 src/OBJFile.cpp    | 6 +++---
 src/OBJFile.h      | 2 +-
 src/STLFile.cpp    | 4 +++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 85e0d43..ec64ba1 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -273,6 +273,6 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 	}
 
 	fbmp.close();
-	return true;
+	return fbmp.good(); // false if something is not written (disk full ...)
 }
 //////////////////////////////////////////////////////////////////////////////
diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..9c4bc91 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -16,8 +16,7 @@ namespace OBJFile
 			return false;
 
 		ow.write(to_mesh);
-		ow.close();
-		return true;
+		return ow.close(); // false if something is not written (disk full ...)
 	}
 	///////////////////////////////////////////////////////////////////////////
 	// todo add vertex aliasing on load
@@ -83,9 +82,10 @@ bool OBJWriter::is_open()
 	return _f.is_open();
 }
 
-void OBJWriter::close()
+bool OBJWriter::close()
 {
 	_f.close();
+	return _f.good();
 }
 
 void OBJWriter::write(const Mesh& to_mesh)
diff --git a/src/OBJFile.h b/src/OBJFile.h
index 4bdcd87..a26088e 100644
--- a/src/OBJFile.h
+++ b/src/OBJFile.h
@@ -16,7 +16,7 @@ public:
 
 	void open(const string& filename);
 	bool is_open();
-	void close();
+	bool close(); // return false if something could not be written
 
 	void write(const Mesh& to_mesh);
 	void write(const vector<Point3>& polyline);
diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..fe9db97 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -58,7 +58,9 @@ namespace STLFile
 
 			f.write((char*)(&zero), 2);
 		}
-		return true;
+
+		f.close();
+		return f.good(); // false if something is not written (disk full ...)
 	}
 	///////////////////////////////////////////////////////////////////////////
 	bool load(const string& filename, Mesh& to_mesh)
-- 
2.43.0


From 9fd426d1cf44c46d8fe60e5d50d5e13dcd73bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:19 +0000
Subject: [PATCH 18/41] fix: STLFile::load invented triangles for truncated
 files

---
 src/STLFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index fe9db97..0a7009d 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -77,6 +77,8 @@ namespace STLFile
 
 		int32_t nbFacet = 0;
 		f.read((char*)(&nbFacet), 4);
+		if (!f || (nbFacet < 0))
+			return false;
 
 		// read facets
 		float p1x = 0.f, p1y = 0.f, p1z = 0.f;
@@ -104,6 +106,9 @@ namespace STLFile
 			//ignore color
 			f.read((char*)(&tmp), 2);
 
+			if (!f)
+				return false; //file is truncated
+
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
 			to_mesh.add_vertex(p3x, p3y, p3z);
-- 
2.43.0


From 66ecd8af56d5d94ad852ea450628995b6eb6c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 19/41] fix: OBJFile::load used undefined vertices for
 malformed files and never ended on read errors

---
 src/OBJFile.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 9c4bc91..d31f678 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -27,10 +27,10 @@ namespace OBJFile
 			return false;
 
 		to_mesh.clear();
-		while (!f.eof())
+		string sLine;
+		while (getline(f, sLine))
 		{
-			string sType, sLine;
-			getline(f, sLine);
+			string sType;
 
 			if (sLine.size() == 0)
 				continue;
@@ -42,7 +42,9 @@ namespace OBJFile
 			if (sType == "v")
 			{
 				double x, y, z;
-				ss >> x >> y >> z;
+				if (!(ss >> x >> y >> z))
+					return false;
+
 				to_mesh.add_vertex(Point3(x, y, z));
 			}
 
@@ -50,13 +52,20 @@ namespace OBJFile
 			if (sType == "f")
 			{
 				int i1, i2, i3;
-				ss >> i1 >> i2 >> i3;
+				if (!(ss >> i1 >> i2 >> i3))
+					return false;
+
+				int iNbVertices = to_mesh.nb_vertices();
+				if ((i1 < 1) || (i2 < 1) || (i3 < 1))
+					return false;
+				if ((i1 > iNbVertices) || (i2 > iNbVertices) || (i3 > iNbVertices))
+					return false;
 
 				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
 			}
 		}
 
-		return true;
+		return f.eof(); // false if the file could not be read until the end
 	}
 	///////////////////////////////////////////////////////////////////////////
 }
-- 
2.43.0


From f6017c2c771a6a8ef917a539c2e3a3e33c3a3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 20/41] fix: OBJWriter polylines had wrong indices and no end
 of line, reopening did not restart the indices

---
 src/OBJFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index d31f678..efcb7e4 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -83,6 +83,7 @@ OBJWriter::~OBJWriter()
 
 void OBJWriter::open(const string& filename)
 {
+	_verticesCount = 0;
 	_f.open(filename);
 }
 
@@ -150,8 +151,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From 6c935ea970126288910b62f050a3256e2a806266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 21/41] fix: NurbsSurface::clear kept the closed flags,
 set_equals_weights kept the old weights

---
 src/NurbsSurface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..d789eae 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
@@ -130,7 +132,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From d93340e3630f8fc26e238bc3173468af7575d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 22/41] fix: NurbsCurve::to_polyline could miss the last point

---
 src/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..6bcd521 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -267,11 +267,11 @@ void NurbsCurve::to_polyline(vector<Point3>& polyline) const
 	if (_points.empty())
 		return;
 
-	double deltaT = 1. / (_points.size() * 10.); //todo set 10 dynamic
+	int iNbSegments = (int)_points.size() * 10; //todo set 10 dynamic
 	Point3 p;
-	for (double t = 0; t <= 1.; t += deltaT) // todo last point?
+	for (int i = 0; i <= iNbSegments; i++)
 	{
-		evaluate(t, p);
+		evaluate((double)i / iNbSegments, p);
 		polyline.push_back(p);
 	}
 }
-- 
2.43.0


From 5378e64749936ce2dfefb189daaa70cdac200baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 23/41] fix: NurbsUtil::create_from_mesh also converted the
 unlinked triangles

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 9f47e52..7fb3e51 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From 0e14dc6013a37e152ff4b4df24433830dfcd0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 24/41] fix: MeshFactory::create_cylinder added two degenerated
 triangles

---
 src/MeshFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshFactory.cpp b/src/MeshFactory.cpp
index ae30697..09d206a 100644
--- a/src/MeshFactory.cpp
+++ b/src/MeshFactory.cpp
@@ -204,14 +204,14 @@ namespace MeshFactory
 		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
 
 		// associates triangles, up face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2, 2 * i, 2 * i + 2);
 		}
 		m.add_triangle(iNbSegmentLongitude * 2, 2 * iNbSegmentLongitude - 2, 0);
 
 		// associates triangles, down face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2 + 1, 2 * i + 3, 2 * i + 1);
 		}
-- 
2.43.0


From 65b82f9f02ac080816f8f910e60b32114d9d538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 25/41] fix: Triangle3::contains accepted points out of the
 triangle, on the line p2 p3

---
 src/Geometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index a2b87d8..ef5fa84 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -369,6 +369,9 @@ bool Triangle3::contains(const Point3& p) const
 	if (u.dot_product(w) < 0.)
 		return false;
 
+	if (v.dot_product(w) < 0.) // when p is on the line p2 p3, u is null
+		return false;
+
 	return true;
 }
 
-- 
2.43.0


From 630ec5f438ff10affdedd4ffa811a903ffb96356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 26/41] fix: Segment3::intersect reported segments that do not
 touch, missed small segments

---
 src/Geometry.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index ef5fa84..ead31bd 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -270,7 +270,7 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	double d2121 = p21.dot_product(p21);
 
 	double denom = d2121 * d4343 - d4321 * d4321;
-	if (fabs(denom) < EPS)
+	if (fabs(denom) < EPS * d2121 * d4343) // parallel, does not depend on the size of the segments
 		return false;
 
 	double d1321 = p13.dot_product(p21);
@@ -283,13 +283,14 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 
 	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
 
-	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
-	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
+	// compute the nearest point on the other segment
+	double mub = (d1343 + d4321 * mua) / d4343;
+	if ((mub < 0.) || (mub > 1.))
+		return false;
 
-	return true;
+	// the nearest points must be the same
+	Point3 pIntersectionb = P3 + p43 * mub;
+	return pIntersection.distance_square(pIntersectionb) <= EPS * (d2121 + d4343);
 }
 
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 94a0c9a5d73ef4b5d145784c76320aaefb554f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 27/41] fix: Mesh::split_triangle aborted when the intersection
 passes through a vertex

---
 src/Mesh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 7f3532a..c597707 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -416,8 +416,7 @@ void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 		if ((b12 || b13 || b23) == false)
 			return; // not intersection
 
-		assert((b12 && b13 && b23) == false); //not possible to intersect all 3 sides
-
+		// all 3 sides are intersected when the segment passes through a vertex
 	}
 
 	/*
-- 
2.43.0


From 97bef1ba1b8234d9142078b04ca09119a30e3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 28/41] fix: MeshBoolean::split_meshes splitted wrong or
 already removed triangles

---
 src/MeshBoolean.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/MeshBoolean.cpp b/src/MeshBoolean.cpp
index b3f8ab0..fb78bb8 100644
--- a/src/MeshBoolean.cpp
+++ b/src/MeshBoolean.cpp
@@ -10,11 +10,15 @@ void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mes
 	Boutside = B;
 
 	//slow, for now
+	int iOut = -1; // index in the copies: they do not have the unlinked triangles
 	for (int i = 0; i < A.nb_triangles(); i++)
 	{
 		if (A.is_triangle_unlinked(i))
 			continue;
 
+		iOut++;
+		int jOut = -1;
+
 		Triangle3 tA;
 		A.get_triangle(i, tA);
 		BoundingBox3 bboxA(tA);
@@ -24,6 +28,8 @@ void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mes
 			if (B.is_triangle_unlinked(j))
 				continue;
 
+			jOut++;
+
 			Triangle3 tB;
 			B.get_triangle(j, tB);
 			BoundingBox3 bboxB(tB); // slow: we recompute the bbox each time
@@ -32,8 +38,11 @@ void MeshBoolean::split_meshes(const Mesh& A, const Mesh& B, Mesh& Aoutside, Mes
 				continue;
 
 			// triangles tA and tB, are valid, and may cut
-			Aoutside.split_triangle(i, tB);
-			Boutside.split_triangle(j, tA);
+			// todo split again the pieces of an already splitted triangle
+			if (Aoutside.is_triangle_unlinked(iOut) == false)
+				Aoutside.split_triangle(iOut, tB);
+			if (Boutside.is_triangle_unlinked(jOut) == false)
+				Boutside.split_triangle(jOut, tA);
 		}
 	}
 }
-- 
2.43.0


From be204d6ce7935120443c55f556ccdec6736a02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 29/41] fix: SmoothMesh self-assignment erased the mesh, adding
 a mesh to itself never ended

---
 src/SmoothMesh.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..0331d36 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,6 +44,9 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	return *this;
@@ -51,9 +54,11 @@ SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTriangles = vst.nb_triangles(); // read first: vst can be this mesh
+	for (int i = 0; i < iNbTriangles; i++)
 	{
-		_vst.push_back(vst.triangle(i));
+		QuadBezierTriangle st = vst.triangle(i);
+		_vst.push_back(st);
 	}
 }
 
-- 
2.43.0


From 74d614ddd08156dd207be12a39c76c5d377ca665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 30/41] fix: QuadBezierTriangle::add_to_mesh left holes and
 reversed the triangles

---
 src/QuadBezierTriangle.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..b58504f 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -92,15 +92,13 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 	{
 		int lineSize = iNbSegments - is + 1;
 
-		// add 1st triangle
-		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
-
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		for (int iu = 0; iu < lineSize - 1; iu++)
 		{
-			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
-			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + lineSize + iu, pos + iu + 1);
+			if (iu < lineSize - 2)
+				m.add_triangle(pos + iu + 1, pos + lineSize + iu, pos + lineSize + iu + 1);
 		}
+		pos += lineSize;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4976c58df7d54b6cddd7a40db1691a48483394a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 31/41] fix: SmoothMeshFactory::create_sphere octants were not
 oriented the same way

---
 src/SmoothMeshFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SmoothMeshFactory.cpp b/src/SmoothMeshFactory.cpp
index 6458eee..dd1f680 100644
--- a/src/SmoothMeshFactory.cpp
+++ b/src/SmoothMeshFactory.cpp
@@ -192,22 +192,22 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(-d, d, 0), Point3(-d, 0, d), Point3(0, d, d));
+			st.set_points(Point3(0, d, 0), Point3(-d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(-d, d, 0), Point3(0, d, d), Point3(-d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, -d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(d, -d, 0), Point3(d, 0, d), Point3(0, -d, d));
+			st.set_points(Point3(0, -d, 0), Point3(d, 0, 0), Point3(0, 0, d));
+			st.set_control_points(Point3(d, -d, 0), Point3(0, -d, d), Point3(d, 0, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(d, d, 0), Point3(d, 0, -d), Point3(0, d, -d));
+			st.set_points(Point3(0, d, 0), Point3(d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(d, d, 0), Point3(0, d, -d), Point3(d, 0, -d));
 			m.add_triangle(st);
 		}
 
@@ -220,8 +220,8 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, -d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(-d, -d, 0), Point3(-d, 0, -d), Point3(0, -d, -d));
+			st.set_points(Point3(0, -d, 0), Point3(-d, 0, 0), Point3(0, 0, -d));
+			st.set_control_points(Point3(-d, -d, 0), Point3(0, -d, -d), Point3(-d, 0, -d));
 			m.add_triangle(st);
 		}
 
-- 
2.43.0


From 224b6ca0a89e336e54e7755d3ea9da7ec8a52673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:54 +0000
Subject: [PATCH 32/41] fix: concurrent evaluations of the same NurbsCurve or
 NurbsSurface shared scratch buffers

---
 src/NurbsCurve.cpp   | 14 +++++++-------
 src/NurbsCurve.h     |  5 +----
 src/NurbsSurface.cpp | 26 ++++++++++++--------------
 src/NurbsSurface.h   |  7 +------
 4 files changed, 21 insertions(+), 31 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index 6bcd521..1ba4498 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -26,8 +26,6 @@ void NurbsCurve::clear()
 void NurbsCurve::set_degree(int degree)
 {
 	_degree = degree;
-	_tempPoints.resize(degree + 1);
-	_tempWeights.resize(degree + 1);
 }
 
 int NurbsCurve::degree() const
@@ -237,6 +235,8 @@ void NurbsCurve::evaluate(double u, Point3& p) const
 	assert(_iNbPoints == _knots.size() - _degree - 1); //todo, always true ?
 
 	int knotIndex = find_knot_span(_knots, u);
+	vector<Point3> tempPoints(_degree + 1);
+	vector<double> tempWeights(_degree + 1);
 
 	for (int j = 0; j < _degree + 1; j++)
 	{
@@ -245,19 +245,19 @@ void NurbsCurve::evaluate(double u, Point3& p) const
 		assert(idx < _iNbPoints);
 
 		double w = _weights[idx];
-		_tempWeights[j] = w;
-		_tempPoints[j] = _points[idx] * w;
+		tempWeights[j] = w;
+		tempPoints[j] = _points[idx] * w;
 	}
 
 	for (int r = 1; r < _degree + 1; r++)
 		for (int j = _degree; j > r - 1; j--)
 		{
 			double alpha = (u - _knots[j + knotIndex - _degree]) / (_knots[j + 1 + knotIndex - r] - _knots[j + knotIndex - _degree]);
-			_tempPoints[j] = _tempPoints[j - 1] * (1. - alpha) + _tempPoints[j] * alpha;
-			_tempWeights[j] = _tempWeights[j - 1] * (1. - alpha) + _tempWeights[j] * alpha;
+			tempPoints[j] = tempPoints[j - 1] * (1. - alpha) + tempPoints[j] * alpha;
+			tempWeights[j] = tempWeights[j - 1] * (1. - alpha) + tempWeights[j] * alpha;
 		}
 
-	p = _tempPoints[_degree] / _tempWeights[_degree];
+	p = tempPoints[_degree] / tempWeights[_degree];
 }
 
 ///////////////////////////////////////////////////////////////////////////
diff --git a/src/NurbsCurve.h b/src/NurbsCurve.h
index fc77947..4669717 100644
--- a/src/NurbsCurve.h
+++ b/src/NurbsCurve.h
@@ -49,10 +49,7 @@ private:
 	vector <double> _knots;
 	vector <double> _weights;
 	vector <Point3> _points;
-	int _iNbPoints;
-
-	mutable vector<Point3> _tempPoints;
-	mutable vector<double> _tempWeights;
+	int _iNbPoints;
 };
 ///////////////////////////////////////////////////////////////////////////
 
diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index d789eae..263c7fc 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -36,11 +36,6 @@ void NurbsSurface::set_degree(int degreeU, int degreeV)
 {
 	_degreeU = degreeU;
 	_degreeV = degreeV;
-
-	_tempPointsU.resize(degreeU + 1);
-	_tempPointsV.resize(degreeV + 1);
-	_tempWeightsU.resize(degreeU + 1);
-	_tempWeightsV.resize(degreeV + 1);
 }
 
 int NurbsSurface::degree_u() const
@@ -393,6 +388,9 @@ void NurbsSurface::evaluate(double u, double v, Point3& p) const
 	int iNbCtrlPointsU = nb_points_u();
 	int iNbCtrlPointsV = nb_points_v();
 
+	vector<Point3> tempPointsU(_degreeU + 1), tempPointsV(_degreeV + 1);
+	vector<double> tempWeightsU(_degreeU + 1), tempWeightsV(_degreeV + 1);
+
 	assert(iNbCtrlPointsU == _knotsU.size() - _degreeU - 1);
 	assert(iNbCtrlPointsV == _knotsV.size() - _degreeV - 1);
 	assert(iNbCtrlPointsU * iNbCtrlPointsV == _points.size());
@@ -412,20 +410,20 @@ void NurbsSurface::evaluate(double u, double v, Point3& p) const
 			assert(idxU < iNbCtrlPointsU);
 
 			double w = _weights[idxU + iNbCtrlPointsU * idxV];
-			_tempWeightsU[ui] = w;
-			_tempPointsU[ui] = _points[idxU + iNbCtrlPointsU * idxV] * w;
+			tempWeightsU[ui] = w;
+			tempPointsU[ui] = _points[idxU + iNbCtrlPointsU * idxV] * w;
 		}
 
 		for (int ru = 1; ru < _degreeU + 1; ru++)
 			for (int ju = _degreeU; ju > ru - 1; ju--)
 			{
 				double alpha = (u - _knotsU[ju + knotIndexU - _degreeU]) / (_knotsU[ju + 1 + knotIndexU - ru] - _knotsU[ju + knotIndexU - _degreeU]);
-				_tempPointsU[ju] = _tempPointsU[ju - 1] * (1. - alpha) + _tempPointsU[ju] * alpha;
-				_tempWeightsU[ju] = _tempWeightsU[ju - 1] * (1. - alpha) + _tempWeightsU[ju] * alpha;
+				tempPointsU[ju] = tempPointsU[ju - 1] * (1. - alpha) + tempPointsU[ju] * alpha;
+				tempWeightsU[ju] = tempWeightsU[ju - 1] * (1. - alpha) + tempWeightsU[ju] * alpha;
 			}
 
-		_tempPointsV[vi] = _tempPointsU[_degreeU];
-		_tempWeightsV[vi] = _tempWeightsU[_degreeU];
+		tempPointsV[vi] = tempPointsU[_degreeU];
+		tempWeightsV[vi] = tempWeightsU[_degreeU];
 	}
 
 	//evaluate on v direction
@@ -433,9 +431,9 @@ void NurbsSurface::evaluate(double u, double v, Point3& p) const
 		for (int jv = _degreeV; jv > rv - 1; jv--)
 		{
 			double alpha = (v - _knotsV[jv + knotIndexV - _degreeV]) / (_knotsV[jv + 1 + knotIndexV - rv] - _knotsV[jv + knotIndexV - _degreeV]);
-			_tempPointsV[jv] = _tempPointsV[jv - 1] * (1. - alpha) + _tempPointsV[jv] * alpha;
-			_tempWeightsV[jv] = _tempWeightsV[jv - 1] * (1. - alpha) + _tempWeightsV[jv] * alpha;
+			tempPointsV[jv] = tempPointsV[jv - 1] * (1. - alpha) + tempPointsV[jv] * alpha;
+			tempWeightsV[jv] = tempWeightsV[jv - 1] * (1. - alpha) + tempWeightsV[jv] * alpha;
 		}
 
-	p = _tempPointsV[_degreeV] / _tempWeightsV[_degreeV];
+	p = tempPointsV[_degreeV] / tempWeightsV[_degreeV];
 }
\ No newline at end of file
diff --git a/src/NurbsSurface.h b/src/NurbsSurface.h
index c735cde..bef05ff 100644
--- a/src/NurbsSurface.h
+++ b/src/NurbsSurface.h
@@ -71,12 +71,7 @@ private:
 
 	vector <double> _knotsU, _knotsV;
 	vector <double> _weights;
-	vector <Point3> _points;
-
-	mutable vector<Point3> _tempPointsU;
-	mutable vector<Point3> _tempPointsV;
-	mutable vector<double> _tempWeightsU;
-	mutable vector<double> _tempWeightsV;
+	vector <Point3> _points;
 };
 ///////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 655bb9a3db8664ade2736b55dfb5aa8947031cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:07 +0000
Subject: [PATCH 33/41] fix: StepWriter transposed the control points and
 weights (a STEP list is for constant u)

---
 src/StepFile.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 69adcda..d7c837d 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -88,18 +88,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write control points
 	_f << "B_SPLINE_SURFACE(" << n.degree_u() << "," << n.degree_v() << ",(" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++) // one list for each u
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
-			_f << "#" << iPointIndex;
-			iPointIndex++;
-			if (i + 1 != n.nb_points_u())
+			_f << "#" << iPointIndex + n.nb_points_u() * j + i;
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 
@@ -148,17 +147,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write weights
 	_f << endl << "RATIONAL_B_SPLINE_SURFACE((" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++)
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
 			_f << n.weights()[n.nb_points_u() * j + i];
-			if (i + 1 != n.nb_points_u())
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 	_f << endl << "))";
-- 
2.43.0


From ee957da00a6c8bc60d26b2119e0eb596d319ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:07 +0000
Subject: [PATCH 34/41] fix: StepWriter repeated the values of multiple
 interior knots instead of their multiplicity

---
 src/StepFile.cpp | 66 ++++++++++++++++++++++++++++--------------------
 src/StepFile.h   |  2 ++
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index d7c837d..3f98713 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -75,6 +75,39 @@ void StepWriter::write_cartesian_point(const Point3& p)
 	_iItemIndent++;
 }
 
+void StepWriter::write_knots_multiplicity(const vector<double>& knots)
+{
+	_f << "(";
+	int iMultiplicity = 0;
+	for (size_t i = 0; i < knots.size(); i++)
+	{
+		iMultiplicity++;
+		if ((i + 1 != knots.size()) && (knots[i + 1] == knots[i]))
+			continue;
+
+		_f << iMultiplicity;
+		iMultiplicity = 0;
+		if (i + 1 != knots.size())
+			_f << ",";
+	}
+	_f << ")," << endl;
+}
+
+void StepWriter::write_knots(const vector<double>& knots)
+{
+	_f << "(";
+	for (size_t i = 0; i < knots.size(); i++)
+	{
+		if ((i + 1 != knots.size()) && (knots[i + 1] == knots[i]))
+			continue;
+
+		_f << knots[i];
+		if (i + 1 != knots.size())
+			_f << ",";
+	}
+	_f << ")," << endl;
+}
+
 void StepWriter::write(const NurbsSurface& n)
 {
 	int iPointIndex = _iItemIndent;
@@ -112,34 +145,11 @@ void StepWriter::write(const NurbsSurface& n)
 	const auto& kv = n.knots_v();
 	_f << "B_SPLINE_SURFACE_WITH_KNOTS(" << endl;
 
-	//write knot multiplicity
-	_f << "(" << n.degree_u() + 1 << ",";
-	for (int i = 0; i < ku.size() - n.degree_u() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_u() + 1 << ")," << endl;
-
-	_f << "(" << n.degree_v() + 1 << ",";
-	for (int i = 0; i < kv.size() - n.degree_v() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_v() + 1 << ")," << endl;
-	_f << "(";
-
-	//write knot values
-	for (int i = n.degree_u(); i < ku.size() - n.degree_u(); i++)
-	{
-		_f << ku[i];
-		if (i != ku.size() - n.degree_u() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl << "(";
-
-	for (int i = n.degree_v(); i < kv.size() - n.degree_v(); i++)
-	{
-		_f << kv[i];
-		if (i != kv.size() - n.degree_v() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl;
+	//write knot multiplicity, then knot values: each value is written once
+	write_knots_multiplicity(ku);
+	write_knots_multiplicity(kv);
+	write_knots(ku);
+	write_knots(kv);
 
 	_f << ".UNSPECIFIED.)";
 
diff --git a/src/StepFile.h b/src/StepFile.h
index 5eb0d04..ac10676 100644
--- a/src/StepFile.h
+++ b/src/StepFile.h
@@ -33,6 +33,8 @@ private:
 	void write_header();
 	void write_footer();
 	void write_cartesian_point(const Point3& p);
+	void write_knots_multiplicity(const vector<double>& knots);
+	void write_knots(const vector<double>& knots);
 
 	ofstream _f;
 	string _sNameFile;
-- 
2.43.0


From 14cc45c6aa4b6a9d4d732bf9bf10a5bb8b4b7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:07 +0000
Subject: [PATCH 35/41] fix: StepWriter wrote reals without decimal point or
 with a lower case exponent

---
 src/StepFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 3f98713..a9e9166 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -52,6 +52,7 @@ void StepWriter::open(const string& filename)
 	_iItemIndent = 10;
 	_sNameFile = filename;
 	_f.open(filename);
+	_f << uppercase << showpoint; // in STEP files, a real has a decimal point and an upper case exponent
 	write_header();
 }
 
-- 
2.43.0


From 1974c153deef2d50f36f6bbcb6ef99f4efe4a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 36/41] fix: drawing a triangle in an empty image aborted

---
 src/Renderer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index fb905a8..ee13e49 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -112,6 +112,10 @@ void Renderer::draw_mesh(const Mesh& m, bool bDrawEdges, int iColor)
 ////////////////////////////////////////////////////////////////////////////////
 bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Point3& C, int iColor,bool bTwofaces)
 {
+	// nothing to draw in an empty image
+	if ((_Xmax == 0) || (_Ymax == 0))
+		return false;
+
 	int ax,ay, bx,by, cx,cy;
 	double aw, bw, cw;
 	_camera.project(A, ax, ay, aw);
-- 
2.43.0


From 1f331cbd53f01e73aea027418a6f72aff4ed37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:34 +0000
Subject: [PATCH 37/41] fix: ImageGenerator::Mandelbrot color overflowed int
 for many iterations

---
 src/ImageGenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ImageGenerator.cpp b/src/ImageGenerator.cpp
index 7be575e..b0dae5e 100644
--- a/src/ImageGenerator.cpp
+++ b/src/ImageGenerator.cpp
@@ -44,8 +44,9 @@ namespace ImageGenerator
 						iterMax--;
 				}
 
-				int color = (iNbIteration-iterMax) * (1*256*256 + 1*256 + 1); // todo nice color
-				*((int*)img.pixel(w, h)) = color;
+				// unsigned: many iterations do not fit in an int
+				unsigned int color = (unsigned int)(iNbIteration-iterMax) * (1*256*256 + 1*256 + 1); // todo nice color
+				*((unsigned int*)img.pixel(w, h)) = color;
 			}
 	}
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 50439f477ac6acfa2792ad6667bc41e4b1c81d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:39 +0000
Subject: [PATCH 38/41] fix: lines far behind the camera were drawn, and let
 hidden elements be drawn

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index ee13e49..46388f0 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -372,7 +372,7 @@ void Renderer::draw_line(const Point3& p1, const Point3& p2, int color)
 
 	for (i = 0; i < im; i++)
 	{
-		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax))// && (fz>0) )
+		if ((fx >= 0) && (fx < _Xmax) && (fy >= 0) && (fy < _Ymax) && (fz > 0.)) // not behind the camera
 		{
 			decal = int(fx) + int(fy) * _Xmax;
 
-- 
2.43.0


From 510c06ce01b3ff09152643d0a4b7f5a1a07f77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 39/41] fix: NurbsUtil::to_mesh overflowed int for many points
 along U

---
 src/NurbsUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 7fb3e51..057d0da 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -89,7 +89,7 @@ void NurbsUtil::to_mesh(const NurbsSurface& n, Mesh& m, int iNbSegments, bool bC
 	int iNbPointsU = iNbSegments * n.nb_points_u();
 	int iNbPointsV = iNbSegments * n.nb_points_v();
 
-	if (iNbPointsU * iNbPointsU == 0)
+	if ((iNbPointsU == 0) || (iNbPointsV == 0)) // the product may not fit in an int
 		return;
 
 	// add vertices, for now we keep all vertices, even if not used because closed
-- 
2.43.0


From d38b53f5d7b74bb4c33ec53229b8d4a0910409b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 40/41] fix: Image pixel access overflowed int for images of
 more than 2^31 bytes

---
 src/Image.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 931fd82..b55011e 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -64,7 +64,7 @@ public:
         assert(iY<_iH);
         assert(iP<_iP);
 
-        return _data.data() + iP + _iP * _iW * iY + iX * _iP;
+        return _data.data() + index(iX, iY, iP);
     }
 
     unsigned char* pixel(int iX, int iY, int iP = 0)
@@ -76,7 +76,7 @@ public:
         assert(iY < _iH);
         assert(iP < _iP);
 
-        return _data.data() + iP + _iP * _iW * iY + iX * _iP;
+        return _data.data() + index(iX, iY, iP);
     }
 
     unsigned char& operator()(int iX,int iY,int iP=0)
@@ -88,7 +88,7 @@ public:
         assert(iY<_iH);
         assert(iP<_iP);
 
-        return *(_data.data() + iP + _iP * _iW * iY + iX * _iP);
+        return *(_data.data() + index(iX, iY, iP));
     }
 
     unsigned char operator()(int iX, int iY, int iP = 0) const
@@ -100,7 +100,7 @@ public:
         assert(iY < _iH);
         assert(iP < _iP);
 
-        return *(_data.data() + iP + _iP * _iW * iY + iX * _iP);
+        return *(_data.data() + index(iX, iY, iP));
     }
 
     void to_double(vector<double>& img)
@@ -112,6 +112,11 @@ public:
     }
 
 private:
+    size_t index(int iX, int iY, int iP) const // images can have more than 2^31 bytes
+    {
+        return iP + ((size_t)_iW * iY + iX) * _iP;
+    }
+
     int _iW,_iH,_iP;
     vector<unsigned char> _data;
 };
-- 
2.43.0


From f28668d7c45a669a86d88542a4aceae8f1f06479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 41/41] fix: a BMP image that could not be read completely was
 reported as loaded

---
 src/ImageIoBmp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index ec64ba1..ccdd896 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -95,7 +95,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 				pLineY[4 * iC] = cTmpR;
 			}
 		}
-		return true;
+		return !fbmp.fail(); // false if something could not be read
 	}
 
 	if (sBPP == 24)
@@ -120,7 +120,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return !fbmp.fail(); // false if something could not be read
 	}
 
 	if (sBPP == 8)
@@ -134,7 +134,7 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 			fbmp.read((char*)pLineY, iWidth);
 			fbmp.read((char*)cTmp, iPack);
 		}
-		return true;
+		return !fbmp.fail(); // false if something could not be read
 	}
 
 	//format not handled for now
-- 
2.43.0

