From e7e1268ff94fe9d499f9c74ab29f549e19a894ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 01/31] fix: normalising the zero vector in place gives zero,
 not NaN

---
 r3/vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r3/vector.go b/r3/vector.go
index a509944..90a17e7 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -31,6 +31,7 @@ func (v *Vector) Normalize() *Vector {
 	n2 := v.Norm2()
 	if n2 == 0 {
 		v.X, v.Y, v.Z = 0, 0, 0
+		return v
 	}
 	v.Scale(1 / math.Sqrt(n2))
 	return v
-- 
2.43.0


From 0ce299124844671e01a22fd892088a9651bcf138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 02/31] fix: distance to a plane uses the plane's stored offset

---
 r3/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/vector.go b/r3/vector.go
index 90a17e7..22505a8 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -110,7 +110,7 @@ func Cross(v Vector, ov Vector) Vector {
 }
 
 // CalculateDistanceToPlane returns the distance from vector v to plane p
-func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Normal.Norm2() }
+func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Distance }
 
 func det2D(a, b Vector) float64 {
 	return a.X*b.Y - a.Y*b.X
-- 
2.43.0


From 8de3fccbf07e302a86c543b13da21833a17731a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 03/31] fix: triangulating a single point returns an error
 instead of panicking

---
 triangulate2/triangulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index df49be8..19ffa02 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -60,8 +60,8 @@ func (tri *triangulator) triangulate() error {
 	// compute bounds
 	x0 := Vectors[0].X
 	y0 := Vectors[0].Y
-	x1 := Vectors[1].X
-	y1 := Vectors[1].Y
+	x1 := Vectors[0].X
+	y1 := Vectors[0].Y
 	for i, p := range Vectors {
 		if p.X < x0 {
 			x0 = p.X
-- 
2.43.0


From 20d52b3ed15e42aa6527b67444ff693e4a052d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 04/31] fix: planar triangulation and hull measure distances in
 the plane

---
 triangulate2/hull.go         | 2 +-
 triangulate2/triangulator.go | 8 ++++----
 triangulate2/util.go         | 9 ++++++++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 11f07f5..1a74a79 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -29,7 +29,7 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 	// filter nearly-duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && r3.SquaredDistance(p, Vectors[i-1]) < eps {
+		if i > 0 && squaredDistance(p, Vectors[i-1]) < eps {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 19ffa02..73d68bd 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -84,7 +84,7 @@ func (tri *triangulator) triangulate() error {
 	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}
 	minDist := infinity
 	for i, p := range Vectors {
-		d := r3.SquaredDistance(p, m)
+		d := squaredDistance(p, m)
 		if d < minDist {
 			i0 = i
 			minDist = d
@@ -97,7 +97,7 @@ func (tri *triangulator) triangulate() error {
 		if i == i0 {
 			continue
 		}
-		d := r3.SquaredDistance(p, Vectors[i0])
+		d := squaredDistance(p, Vectors[i0])
 		if d > 0 && d < minDist {
 			i1 = i
 			minDist = d
@@ -130,7 +130,7 @@ func (tri *triangulator) triangulate() error {
 	// sort the Vectors by distance from the seed triangle circumcenter
 	tri.squaredDistances = make([]float64, n)
 	for i, p := range Vectors {
-		tri.squaredDistances[i] = r3.SquaredDistance(p, tri.center)
+		tri.squaredDistances[i] = squaredDistance(p, tri.center)
 	}
 	sort.Sort(tri)
 
@@ -167,7 +167,7 @@ func (tri *triangulator) triangulate() error {
 		p := Vectors[i]
 
 		// skip nearly-duplicate Vectors
-		if r3.SquaredDistance(p, pp) < eps {
+		if squaredDistance(p, pp) < eps {
 			continue
 		}
 		pp = p
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 14d1d35..6df65c3 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -19,6 +19,13 @@ func pseudoAngle(dx, dy float64) float64 {
 	return math.Max(0, math.Min(1-eps, p))
 }
 
+// squaredDistance is the squared distance of the projections to the XY plane
+func squaredDistance(a, b r3.Vector) float64 {
+	dx := a.X - b.X
+	dy := a.Y - b.Y
+	return dx*dx + dy*dy
+}
+
 func area(a, b, c r3.Vector) float64 {
 	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)
 }
@@ -98,7 +105,7 @@ func polygonPerimeter(Vectors []r3.Vector) float64 {
 	var result float64
 	q := Vectors[len(Vectors)-1]
 	for _, p := range Vectors {
-		result += r3.Distance(p, q)
+		result += math.Sqrt(squaredDistance(p, q))
 		q = p
 	}
 	return result
-- 
2.43.0


From 9fc850162e7bb3f0bf1609b5d8b753797372150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 05/31] fix: bounds and extremes cover coordinates beyond the
 float32 range

---
 triangulate3/englober.go | 4 ++--
 triangulate3/gdel3d.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 9fe66d5..e87aafc 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -58,8 +58,8 @@ func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 }
 
 func computeBoundingBoxForVectors(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 3dae706..6b94b25 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -44,8 +44,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 }
 
 func computeExtremitiesForAxeX(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
-- 
2.43.0


From e333d2466c58d8766d3573831b1189d56dc7bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 06/31] fix: fourth seed is the furthest point on either side
 of the first three

---
 triangulate3/gdel3d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 6b94b25..e4d4dd7 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -34,8 +34,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 	max := 0.0
 	var furthestVector r3.Vector
 	for _, Vector := range Vectors {
-		dist := Get3Ddist(a, b, c, Vector)
-		if max > dist {
+		dist := math.Abs(Get3Ddist(a, b, c, Vector))
+		if max < dist {
 			furthestVector = Vector
 			max = dist
 		}
-- 
2.43.0


From f6cb24d95685229a61a23a193eac332371de8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 07/31] fix: englobing tetrahedron contains the whole bounding
 box

---
 triangulate3/englober.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index e87aafc..addf5a7 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -19,21 +19,21 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 	lowerPlane := r3.Plane3D{Normal: normal, Vector: minExtremity}
 	top := getTopVectorOfTetrahedron(minExtremity, maxExtremity)
 	//Line 1
-	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, 2*maxExtremity.Z - minExtremity.Z}
 	Direct1 := r3.Sub(top, upperVector1)
 	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
 	// first bottom Intersection Vector
 	tetraPoint1 := line1.IntersectPlane(lowerPlane)
 
 	//Line 2
-	upperVector2 := r3.Vector{maxExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector2 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct2 := r3.Sub(top, upperVector2)
 	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
 	// second bottom Intersection Vector
 	tetraPoint2 := line2.IntersectPlane(lowerPlane)
 
 	//Line 3
-	upperVector3 := r3.Vector{maxExtremity.X, maxExtremity.Y, minExtremity.Z}
+	upperVector3 := r3.Vector{2*maxExtremity.X - minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct3 := r3.Sub(top, upperVector3)
 	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
 	// third bottom Intersection Vector
@@ -51,7 +51,7 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 }
 func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	x := minExtremity.X
-	y := 2 * maxExtremity.Y
+	y := minExtremity.Y + 3*(maxExtremity.Y-minExtremity.Y)
 	z := minExtremity.Z
 
 	return r3.Vector{x, y, z}
-- 
2.43.0


From 10499d7947b829e44def9d0d31aaa2c8a9804ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 08/31] fix: circumsphere test does not depend on how a
 tetrahedron is oriented

---
 meshing/mesh.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index 7667f5f..f4011c6 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -89,6 +89,19 @@ func (t tetra) getNearestPointToCentroid(points []r3.Vector) r3.Vector {
 
 }
 
+// circumsphereContains reports whether p lies in or on the sphere through the
+// corners of the tetrahedron, whichever way round they are stored
+func (t tetra) circumsphereContains(points []r3.Vector, p r3.Vector) bool {
+	pa, pb, pc, pd := points[t.ia], points[t.ib], points[t.ic], points[t.id]
+
+	inSphere := predicates.InSphereFast(pa, pb, pc, pd, p)
+	volume := r3.Dot(r3.Cross(r3.Sub(pb, pa), r3.Sub(pc, pa)), r3.Sub(pd, pa))
+	if volume > 0 {
+		inSphere = -inSphere
+	}
+	return inSphere >= 0
+}
+
 func (t *tetrahedrisation) init(points *[]r3.Vector) {
 	//fmt.Println("Bazinga!", points)
 
@@ -169,7 +182,7 @@ func bowyerWatson(points ...r3.Vector) []int {
 		polyhedron := []face{}
 		faceSet := make(map[string]faceCheck, 0)
 		for _, tetra := range t {
-			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
+			if tetra.circumsphereContains(points, point) {
 				badTetras = append(badTetras, tetra)
 			}
 		}
-- 
2.43.0


From c1382ce81263dfcf4c863b4ddcbb2343e3da4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 09/31] fix: tetrahedrisation output does not depend on map
 iteration order

---
 meshing/mesh.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index f4011c6..ebc7ebf 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -117,6 +117,16 @@ func (t *tetrahedrisation) addTetra(newTetra tetra) {
 	(*t)[hash] = newTetra
 }
 
+// sortedKeys lists the keys in an order that is the same in every run
+func (t tetrahedrisation) sortedKeys() []string {
+	keys := make([]string, 0, len(t))
+	for key := range t {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func tetraHash(t tetra) string {
 	return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))
 }
@@ -150,7 +160,7 @@ func addFace(meshIndices []int, f face) []int {
 	return meshIndices
 }
 
-//addPoint adds a point to the tessellation
+// addPoint adds a point to the tessellation
 func (m Meshing) addPoint(point r3.Vector) {
 
 }
@@ -181,7 +191,8 @@ func bowyerWatson(points ...r3.Vector) []int {
 		badTetras := []tetra{}
 		polyhedron := []face{}
 		faceSet := make(map[string]faceCheck, 0)
-		for _, tetra := range t {
+		for _, tetraKey := range t.sortedKeys() {
+			tetra := t[tetraKey]
 			if tetra.circumsphereContains(points, point) {
 				badTetras = append(badTetras, tetra)
 			}
@@ -198,10 +209,11 @@ func bowyerWatson(points ...r3.Vector) []int {
 				}
 			}
 		}
-		for _, faceCheck := range faceSet {
-			if faceCheck.check == false {
-				badTetra := badTetras[faceCheck.tetraID]
-				polyhedron = append(polyhedron, badTetra.faces[faceCheck.faceID])
+		for _, badTetra := range badTetras {
+			for _, face := range badTetra.faces {
+				if faceSet[face.hash()].check == false {
+					polyhedron = append(polyhedron, face)
+				}
 			}
 		}
 		//fmt.Println("polyhedron", polyhedron)
@@ -218,8 +230,8 @@ func bowyerWatson(points ...r3.Vector) []int {
 	}
 	//removing the faces we don't need and creating the mesh:
 	meshIndices := []int{}
-	for _, tetra := range t {
-
+	for _, tetraKey := range t.sortedKeys() {
+		tetra := t[tetraKey]
 		for _, face := range tetra.faces {
 			if face.isPartOfMesh() {
 				meshIndices = addFace(meshIndices, face)
-- 
2.43.0


From f040240b2ed9758cae25ce9db779d3afd5213764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 10/31] fix: the circle and ellipse fans stop at the last rim
 vertex

---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From 981265885920cb2d2e61d291a69cdddb855ddc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 11/31] fix: sphere and torus meshes are placed at the
 requested centre

---
 shape/sphere.go | 1 +
 shape/torus.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..3c36c5c 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..12f1f28 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -54,6 +54,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-- 
2.43.0


From 0ec9f99c644352f1bc210ac91cda91ceec6d0f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 12/31] fix: texture coordinates are not truncated to whole
 numbers

---
 shape/sphere.go | 4 ++--
 shape/torus.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 3c36c5c..0f535bf 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -66,8 +66,8 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			sphere.Normals = append(sphere.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / sd.sectorCount)
-			t = float64(i / sd.stackCount)
+			s = float64(j) / float64(sd.sectorCount)
+			t = float64(i) / float64(sd.stackCount)
 
 			texCoord := [2]float64{s, t}
 			sphere.TexCoords = append(sphere.TexCoords, texCoord)
diff --git a/shape/torus.go b/shape/torus.go
index 12f1f28..e480e35 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -66,8 +66,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Normals = append(torus.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / td.sectorCount)
-			t = float64(i / td.stackCount)
+			s = float64(j) / float64(td.sectorCount)
+			t = float64(i) / float64(td.stackCount)
 
 			texCoord := [2]float64{s, t}
 			torus.TexCoords = append(torus.TexCoords, texCoord)
-- 
2.43.0


From e955fc97c19c319f5381e3bde67b5f1c95bbf568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 13/31] fix: torus normals point out of the tube and have unit
 length

---
 shape/torus.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index e480e35..33abc33 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -28,15 +28,13 @@ func (td Torus) Construct() Mesh {
 
 func (td Torus) generateVertices(torus *Mesh) {
 
-	var x, y, z, xy float64           //	vertex position
-	var nx, ny, nz, lengthInv float64 //	vertex normal
-	var s, t float64                  //	vertex texCoord
+	var x, y, z, xy float64 //	vertex position
+	var nx, ny, nz float64  //	vertex normal
+	var s, t float64        //	vertex texCoord
 
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	lengthInv = 1.0 / float64(td.radius)
-
 	for i := 0; i < td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
@@ -58,9 +56,9 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-			nx = x * lengthInv
-			ny = y * lengthInv
-			nz = z * lengthInv
+			nx = math.Cos(stackAngle) * math.Cos(sectorAngle)
+			ny = math.Cos(stackAngle) * math.Sin(sectorAngle)
+			nz = math.Sin(stackAngle)
 
 			normal := [3]float64{nx, ny, nz}
 			torus.Normals = append(torus.Normals, normal)
-- 
2.43.0


From c6eb92603bfce993484f23b284d97f745516d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 14/31] fix: sphere mesh reaches the south pole

---
 shape/sphere.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 0f535bf..4f263b5 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -37,7 +37,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 
 	lengthInv = 1.0 / float64(sd.radius)
 
-	for i := 0; i < sd.stackCount; i++ {
+	for i := 0; i <= sd.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep // starting from pi/2 to -pi/2
 		xy = sd.radius * math.Cos(stackAngle)          // r * cos(u)
@@ -91,15 +91,13 @@ func (sd Sphere) generateIndices(sphere *Mesh) {
 	}
 
 	//	BOTTOM
-	// k1 = uint32((sd.stackCount-1) * (sd.sectorCount + 1))
-	// k2 = 0 //k1+uint32(sd.sectorCount )
+	k1 = uint32((sd.stackCount - 1) * (sd.sectorCount + 1))
+	k2 = k1 + uint32(sd.sectorCount+1)
 
-	// for j := 0; j < sd.sectorCount; j ,k1= j+1, k1+1{
-
-	//     // k1+1 => k2 => k2+1
-	//     indices = append(indices, k1, k2, k1+1);
-
-	// }
+	for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
+		// k1 => k2 => k1+1
+		sphere.Indices = append(sphere.Indices, k1, k2, k1+1)
+	}
 
 	//	MIDDLE
 	for i := 1; i < sd.stackCount-1; i++ {
-- 
2.43.0


From 3ee9684ebb8d51d4a39062e62944f20407faadf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 15/31] fix: torus mesh is closed along the tube

---
 shape/torus.go | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index 33abc33..6809935 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -35,7 +35,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	for i := 0; i < td.stackCount; i++ {
+	for i := 0; i <= td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
 		xy = td.radius + td.tubeRadius*math.Cos(stackAngle) // R + r * cos(u)
@@ -77,37 +77,15 @@ func (td Torus) generateIndices(torus *Mesh) {
 
 	var k1, k2 uint32
 
-	//	TOP
-	k1 = 0
-	k2 = uint32(td.sectorCount + 1)
-
-	//fmt.Println("TOP")
-	for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
-		//fmt.Println("A",k1+1,"B", k2, "C", k2+1)
-		// k1+1 => k2 => k2+1
-		torus.Indices = append(torus.Indices, k1+1, k2, k2+1)
-	}
-
-	//	BOTTOM
-	// k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))
-	// k2 = 0 //k1+uint32(td.sectorCount )
-
-	// for j := 0; j < td.sectorCount; j, k1 = j+1, k1+1 {
-
-	// 	// k1+1 => k2 => k2+1
-	// 	torus.Indices = append(torus.Indices, k1, k2, k1+1)
-
-	// }
-
-	//	MIDDLE
-	for i := 1; i < td.stackCount-1; i++ {
+	// the last ring of vertices coincides with the first and closes the tube
+	for i := 0; i < td.stackCount; i++ {
 
 		k1 = uint32(i * (td.sectorCount + 1)) // beginning of current stack
 		k2 = k1 + uint32(td.sectorCount+1)    // beginning of next stack
 
 		for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
 
-			// 2 triangles per sector excluding first and last stacks
+			// 2 triangles per sector
 			// k1 => k2 => k1+1
 			torus.Indices = append(torus.Indices, k1, k2, k1+1)
 
-- 
2.43.0


From 9d81f661ee7e9f6823946a2f190b0c7ecfe44a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 16/31] fix: reading a STEP file does not parse the process
 command line

---
 step/lex.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b6a86f3..b86af9f 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -2,7 +2,6 @@ package step
 
 import (
 	"bufio"
-	"flag"
 	"io"
 	"os"
 	"strings"
@@ -52,7 +51,6 @@ func initLexer(filename string) Lexer {
 // Lex : parses the step file and fills the symbol
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
-	flag.Parse()
 	file, err := os.Open(l.Filename)
 
 	check(err)
-- 
2.43.0


From b58efb83da4b1afb6a945eec09079b402b4cd639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 17/31] fix: a read error while reading a STEP file is raised
 instead of looping

---
 step/lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/step/lex.go b/step/lex.go
index b86af9f..7d9876c 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -68,6 +68,7 @@ func (l *Lexer) Lex() SymbolTable {
 		if err == io.EOF {
 			break
 		}
+		check(err)
 
 		buffer := string(line)
 
-- 
2.43.0


From 80374c10244b8f44c29c98082ec20c5a771ecb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 18/31] fix: STEP text that is not a definition is skipped,
 identifiers carry no white space

---
 step/lex.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/step/lex.go b/step/lex.go
index 7d9876c..8a9a7b8 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -122,7 +122,10 @@ func (l *Lexer) emit(s Symbol) {
 */
 func (st *SymbolTable) add(symbolText string) {
 	split := strings.SplitN(symbolText, "=", 2)
-	identifier := split[0]
+	if len(split) < 2 {
+		return // not a definition
+	}
+	identifier := stripWhiteSpaces(split[0])
 	definition := tokenize(split[1])
 	(*st)[identifier] = definition
 
@@ -131,6 +134,9 @@ func (st *SymbolTable) add(symbolText string) {
 // tokenize : gets the definition of an identifier
 func tokenize(definitionText string) Definition {
 	split := strings.SplitN(definitionText, "(", 2)
+	if len(split) < 2 {
+		return Definition{Type: stripWhiteSpaces(split[0])}
+	}
 
 	argumentsText := split[1]
 	definitionArguments := getArguments(argumentsText)
-- 
2.43.0


From b9e1802103f9ffc36b25dc9f8c1ace5297c11f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 19/31] fix: argument lists and arrays end at their closing
 parenthesis and keep quoted commas

---
 step/util.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/step/util.go b/step/util.go
index 3d97f34..9487230 100644
--- a/step/util.go
+++ b/step/util.go
@@ -13,24 +13,29 @@ import (
 func getArguments(argumentsText string) []string {
 	arguments := make([]string, 0)
 	openBrackets := 0
+	quoted := false
 	argument := make([]rune, 0)
 	for _, r := range argumentsText {
-		if r == '(' {
+		if r == '\'' {
+			quoted = !quoted
+		}
+		if r == '(' && !quoted {
 			openBrackets++
 		}
-		if r == ')' {
+		if r == ')' && !quoted {
 			openBrackets--
 		}
-		if openBrackets == 0 && r == ',' {
+		if openBrackets < 0 {
+			break // end of the arguments
+		}
+		if openBrackets == 0 && r == ',' && !quoted {
 			arguments = append(arguments, string(argument))
 			argument = make([]rune, 0)
 			continue
 		}
 		argument = append(argument, r)
 	}
-	/* sanitizing last input by remove `);` */
-	lastArgument := string(argument)[:len(argument)-2]
-	arguments = append(arguments, lastArgument)
+	arguments = append(arguments, string(argument))
 	return arguments
 }
 
@@ -42,19 +47,30 @@ func getArguments(argumentsText string) []string {
 */
 /* TODO:handle ERRORS */
 func getArray(arrayText string, t reflect.Kind) []string {
-	/* removing `(` from start and `)` from end*/
-	arrayText = arrayText[1 : len(arrayText)-1]
+	arrayText = strings.TrimSpace(arrayText)
+	if !strings.HasPrefix(arrayText, "(") {
+		return make([]string, 0) // not an array
+	}
+	/* removing `(` from start */
+	arrayText = arrayText[1:]
 	openBrackets := 0
+	quoted := false
 	element := make([]rune, 0)
 	array := make([]string, 0)
 	for _, r := range arrayText {
-		if r == '(' {
+		if r == '\'' {
+			quoted = !quoted
+		}
+		if r == '(' && !quoted {
 			openBrackets++
 		}
-		if r == ')' {
+		if r == ')' && !quoted {
 			openBrackets--
 		}
-		if openBrackets == 0 && r == ',' {
+		if openBrackets < 0 {
+			break // end of the array
+		}
+		if openBrackets == 0 && r == ',' && !quoted {
 			array = append(array, string(element))
 			element = make([]rune, 0)
 			continue
-- 
2.43.0


From f89de81115e8f06f78f94014115f0dee217d5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 20/31] fix: an equals sign inside a continuation line does not
 start a definition

---
 step/lex.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index 8a9a7b8..b0ae338 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -86,7 +86,7 @@ func (l *Lexer) Lex() SymbolTable {
 		/*	you can optimize this further more by making sure the symbol
 			is init to the first value when you start parsing and remvove
 			the first check*/
-		if strings.Contains(buffer, "=") { // contains =
+		if startsDefinition(buffer) {
 			/* --sync method
 			---fmt.Println("emit") */
 
@@ -103,7 +103,7 @@ func (l *Lexer) Lex() SymbolTable {
 				l.emit(symbol)
 			*/
 			/*_----------------------------------------------------_*/
-			symbolText = buffer // is not empty and does not contain =
+			symbolText = buffer
 		} else {
 			symbolText += buffer
 		}
@@ -112,6 +112,17 @@ func (l *Lexer) Lex() SymbolTable {
 	return symbolTable
 }
 
+// startsDefinition : tells if a line starts with an instance name (#number)
+// followed by =
+func startsDefinition(line string) bool {
+	split := strings.SplitN(line, "=", 2)
+	if len(split) < 2 {
+		return false
+	}
+	identifier := stripWhiteSpaces(split[0])
+	return strings.HasPrefix(identifier, "#") && strings.Trim(identifier[1:], "0123456789") == ""
+}
+
 // emit : emits the symbol to the symbols chanel
 func (l *Lexer) emit(s Symbol) {
 	l.SymbolsChan <- s
-- 
2.43.0


From 1ddb7193d06cbfeae601cdfba6c3cb0087c2bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 21/31] fix: axis placements and advanced faces are dispatched
 under their ISO names

---
 step/bridge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/step/bridge.go b/step/bridge.go
index 50f5e45..2e8521b 100644
--- a/step/bridge.go
+++ b/step/bridge.go
@@ -18,13 +18,13 @@ func (parser *Parser) bridge(definition Definition) parseFn {
 		return parser.skipUtility
 	case "VERTEX_LOOP":
 		return parser.vertexLoop
-	case "AXIS_2_PLACEMENT_3D":
+	case "AXIS2_PLACEMENT_3D":
 		return parser.axis2Placement3D
 	case "FACE":
 		return parser.face
 	case "B_SPLINE_SURFACE_WITH_KNOTS":
 		return parser.bSplineSurfaceWithKnots
-	case "ADVENCED_FACE":
+	case "ADVANCED_FACE":
 		return parser.advancedFace
 	case "CLOSED_SHELL":
 		return parser.closedShell
-- 
2.43.0


From 90997f866a6d34b59235d3072e730f307744c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 22/31] fix: entity references are followed from their standard
 positions

---
 step/template.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/step/template.go b/step/template.go
index 615acfd..3faa439 100644
--- a/step/template.go
+++ b/step/template.go
@@ -20,7 +20,7 @@ func (p *Parser) productDefinitionShape(key string) {
 func (p *Parser) productDefinition(key string) {
 
 	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.lexemes[key].Arguments[2]}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[2]}
+	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[3]}
 
 	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
 
@@ -37,8 +37,8 @@ func (p *Parser) productDefinitionContext(key string) {
 func (p *Parser) axis2Placement3D(key string) {
 
 	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.lexemes[key].Arguments[1]}
-	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
+	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[2]}
+	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[3]}
 	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
 
 }
@@ -90,7 +90,7 @@ func (p *Parser) advancedFace(key string) {
 	fmt.Println("parsing advanced face")
 
 	advancedFace := p.lexemes[key]
-	neighbourID := advancedFace.Arguments[1]
+	neighbourID := advancedFace.Arguments[2]
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
-- 
2.43.0


From a82f30969a91b8f58f572c17f3e3ae788acc60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 23/31] fix: a missing attribute does not crash the parser

---
 step/template.go | 55 +++++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/step/template.go b/step/template.go
index 3faa439..e44df41 100644
--- a/step/template.go
+++ b/step/template.go
@@ -11,16 +11,25 @@ func (p *Parser) skipUtility(key string) {
 	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
 }
 
+// argument : gets an argument of a definition, empty when it is missing
+func (p *Parser) argument(key string, index int) string {
+	arguments := p.lexemes[key].Arguments
+	if index >= len(arguments) {
+		return ""
+	}
+	return arguments[index]
+}
+
 func (p *Parser) productDefinitionShape(key string) {
 
-	productDefinitionState := parseState{fn: p.productDefinition, key: p.lexemes[key].Arguments[2]}
+	productDefinitionState := parseState{fn: p.productDefinition, key: p.argument(key, 2)}
 	p.nextStates = append(p.nextStates, productDefinitionState)
 
 }
 func (p *Parser) productDefinition(key string) {
 
-	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.lexemes[key].Arguments[2]}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[3]}
+	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.argument(key, 2)}
+	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.argument(key, 3)}
 
 	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
 
@@ -36,9 +45,9 @@ func (p *Parser) productDefinitionContext(key string) {
 
 func (p *Parser) axis2Placement3D(key string) {
 
-	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.lexemes[key].Arguments[1]}
-	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[2]}
-	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[3]}
+	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.argument(key, 1)}
+	xDirectionState := parseState{fn: p.direction, key: p.argument(key, 2)}
+	yDirectionState := parseState{fn: p.direction, key: p.argument(key, 3)}
 	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
 
 }
@@ -47,8 +56,7 @@ func (p *Parser) cartesianPoint(key string) {
 	//fmt.Println("key:", key)
 	//fmt.Println("value", p.lexemes[key])
 
-	arguments := p.lexemes[key].Arguments
-	coordinates := getArray(arguments[1], reflect.Float64)
+	coordinates := getArray(p.argument(key, 1), reflect.Float64)
 	_ = coordinates
 	//fmt.Println("coordinates:", coordinates)
 
@@ -62,7 +70,7 @@ func (p *Parser) manifoldSolidBRep(key string) {
 
 	parseStates := make([]parseState, 0)
 
-	closedShellState := parseState{fn: p.closedShell, key: p.lexemes[key].Arguments[1]}
+	closedShellState := parseState{fn: p.closedShell, key: p.argument(key, 1)}
 	parseStates = append(parseStates, closedShellState)
 	// vectorLoopState := parseState{fn: parseVectorLoop, key: l[key].Arguments[1]}
 	// if l[key].Type == "MANIFOLD_SOLID_BREP" {
@@ -89,8 +97,7 @@ func (p *Parser) advancedFace(key string) {
 
 	fmt.Println("parsing advanced face")
 
-	advancedFace := p.lexemes[key]
-	neighbourID := advancedFace.Arguments[2]
+	neighbourID := p.argument(key, 2)
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
@@ -115,7 +122,7 @@ func (p *Parser) sphericalSurface(key string) {
 	// and propagate to new p.nextStates of the parser.
 	//p.nextStates := make([]parseState, 0)
 	fmt.Println("Bazinga!!!!!!")
-	radius := p.lexemes[key].Arguments[2]
+	radius := p.argument(key, 2)
 	fmt.Println("radius:", radius)
 
 }
@@ -158,18 +165,18 @@ func (p *Parser) bSplineSurfaceWithKnots(key string) {
 	*/
 	fmt.Println("Hooray! we found an awesome bSplineSurface with KNOTS")
 	fmt.Println("len(arguemnts):", len(p.lexemes[key].Arguments))
-	name := p.lexemes[key].Arguments[0]
-	uDegree := p.lexemes[key].Arguments[1]
-	vDegree := p.lexemes[key].Arguments[2]
-	controlPointsList := getMatrix(p.lexemes[key].Arguments[3])
-	surfaceForm := p.lexemes[key].Arguments[4] /* this is buggy */
-	uClosed := getLogical(p.lexemes[key].Arguments[5])
-	vClosed := getLogical(p.lexemes[key].Arguments[6])
-	selfIntersect := getLogical(p.lexemes[key].Arguments[7])
-	uMultiplicities := getArray(p.lexemes[key].Arguments[8], reflect.Int)
-	vMultiplicities := getArray(p.lexemes[key].Arguments[9], reflect.Int)
-	uKnots := getArray(p.lexemes[key].Arguments[10], reflect.Float64)
-	vKnots := getArray(p.lexemes[key].Arguments[11], reflect.Float64)
+	name := p.argument(key, 0)
+	uDegree := p.argument(key, 1)
+	vDegree := p.argument(key, 2)
+	controlPointsList := getMatrix(p.argument(key, 3))
+	surfaceForm := p.argument(key, 4) /* this is buggy */
+	uClosed := getLogical(p.argument(key, 5))
+	vClosed := getLogical(p.argument(key, 6))
+	selfIntersect := getLogical(p.argument(key, 7))
+	uMultiplicities := getArray(p.argument(key, 8), reflect.Int)
+	vMultiplicities := getArray(p.argument(key, 9), reflect.Int)
+	uKnots := getArray(p.argument(key, 10), reflect.Float64)
+	vKnots := getArray(p.argument(key, 11), reflect.Float64)
 
 	surfaceJob := bSplineSurfaceWithKnots{
 		name:              name,
-- 
2.43.0


From f57352926b11c36078b4c08bf0f7d146cfd39b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 24/31] fix: the JSON dump reports encoding and write errors

---
 step/util.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/step/util.go b/step/util.go
index 9487230..5a1e745 100644
--- a/step/util.go
+++ b/step/util.go
@@ -2,7 +2,6 @@ package step
 
 import (
 	"encoding/json"
-	"fmt"
 	"os"
 	"reflect"
 	"strings"
@@ -118,13 +117,12 @@ func stripWhiteSpaces(str string) string {
 /* TODO : check if the interface passed as a param works fine */
 func marshallToJSON(item interface{}) {
 	bytes, err := json.Marshal(item)
-	if err != nil {
-		fmt.Println("can't serialize")
-	}
+	check(err)
 	file, err := os.Create("testfiles/out/test.json")
 	check(err)
 	defer file.Close()
-	file.Write(bytes)
+	_, err = file.Write(bytes)
+	check(err)
 
 }
 
-- 
2.43.0


From f2886d2da715594c5cb66f2b39c69d3c4ddbfb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 25/31] fix: the knot span search terminates outside the domain

---
 nurbs/basis.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 370d9ff..da5c7b5 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -11,9 +11,12 @@ import "fmt"
 --U : the knot vector
 */
 func findSpan(n, p int, u float64, U []int) int {
-	if u == float64(U[n+1]) {
+	if u >= float64(U[n+1]) {
 		return n
 	}
+	if u < float64(U[p]) {
+		return p
+	}
 	/* do binary search */
 	low := p
 	high := n + 1
-- 
2.43.0


From 71a80d2e2f84d9209dcf4ef59945f1cbe566434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 26/31] fix: basis function derivatives follow the standard
 recurrence

---
 nurbs/basis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index da5c7b5..9abc4c3 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -93,10 +93,11 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 
 	left := make([]float64, p+1)
 	right := make([]float64, p+1)
+	ndu[0][0] = 1.
 	/* ------------------------------------ */
 	for j := 1; j <= p; j++ {
 		left[j] = float64(u - U[i+1-j])
-		right[j] = float64(U[i+1] - u)
+		right[j] = float64(U[i+j] - u)
 		saved := 0.
 		for r := 0; r < j; r++ {
 			/* lower triangle */
@@ -144,7 +145,7 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 			}
 			for j := j1; j <= j2; j++ {
 				a[s2][j] = (a[s1][j] - a[s1][j-1]) / ndu[pk+1][rk+j]
-				d += a[s2][j] * ndu[r][pk]
+				d += a[s2][j] * ndu[rk+j][pk]
 			}
 			if r <= pk {
 				a[s2][k] = -a[s1][k-1] / ndu[pk+1][r]
-- 
2.43.0


From 10ae3f672da42a4b52d0dbb1be64cd72ac053c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 27/31] fix: circumsphere test flips the determinant for
 negatively oriented tetrahedra

---
 meshing/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index ebc7ebf..8fb22c2 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -96,7 +96,7 @@ func (t tetra) circumsphereContains(points []r3.Vector, p r3.Vector) bool {
 
 	inSphere := predicates.InSphereFast(pa, pb, pc, pd, p)
 	volume := r3.Dot(r3.Cross(r3.Sub(pb, pa), r3.Sub(pc, pa)), r3.Sub(pd, pa))
-	if volume > 0 {
+	if volume < 0 {
 		inSphere = -inSphere
 	}
 	return inSphere >= 0
-- 
2.43.0


From 1b667d2a83aa18e29a900a04ef2b5e3b8a92bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:58 +0000
Subject: [PATCH 28/31] fix: validation reports a half-edge whose twin does not
 exist

---
 triangulate2/triangulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triangulate2/triangulation.go b/triangulate2/triangulation.go
index d558822..f29643f 100644
--- a/triangulate2/triangulation.go
+++ b/triangulate2/triangulation.go
@@ -42,7 +42,7 @@ func (t *Triangulation) Validate() error {
 		if i1 != -1 && t.Halfedges[i1] != i2 {
 			return fmt.Errorf("invalid halfedge connection")
 		}
-		if i2 != -1 && t.Halfedges[i2] != i1 {
+		if i2 != -1 && (i2 < 0 || i2 >= len(t.Halfedges) || t.Halfedges[i2] != i1) {
 			return fmt.Errorf("invalid halfedge connection")
 		}
 	}
-- 
2.43.0


From 89495505889bdf020fe43f184e5e9b8e8407db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 29/31] fix: the JSON dump reports a failure to close its file

---
 step/util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/step/util.go b/step/util.go
index 5a1e745..22eb75c 100644
--- a/step/util.go
+++ b/step/util.go
@@ -120,9 +120,10 @@ func marshallToJSON(item interface{}) {
 	check(err)
 	file, err := os.Create("testfiles/out/test.json")
 	check(err)
-	defer file.Close()
 	_, err = file.Write(bytes)
+	closeErr := file.Close()
 	check(err)
+	check(closeErr)
 
 }
 
-- 
2.43.0


From a12e61b175c9038782344c59b6fe1da711b50a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 30/31] fix: ignore white space around the arguments a handler
 reads

References written with spaces around them, as in ( 'NONE', #2 ), were not
found in the table.
---
 step/template.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/step/template.go b/step/template.go
index e44df41..21cf253 100644
--- a/step/template.go
+++ b/step/template.go
@@ -11,13 +11,14 @@ func (p *Parser) skipUtility(key string) {
 	fmt.Println("doesn't loop like i've implemented `", p.lexemes[key].Type, "` skipping to next States..")
 }
 
-// argument : gets an argument of a definition, empty when it is missing
+// argument : gets an argument of a definition without the white space around
+// it, empty when it is missing
 func (p *Parser) argument(key string, index int) string {
 	arguments := p.lexemes[key].Arguments
 	if index >= len(arguments) {
 		return ""
 	}
-	return arguments[index]
+	return strings.TrimSpace(arguments[index])
 }
 
 func (p *Parser) productDefinitionShape(key string) {
-- 
2.43.0


From 1ca9f12a6877b9bff2de3bcbf7675103238965a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 31/31] fix: do not take the continuation of a long line for a
 definition

A line longer than the reader's buffer is read in pieces; a piece after the
first one never starts a definition.
---
 step/lex.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b0ae338..7f57fa8 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -62,8 +62,9 @@ func (l *Lexer) Lex() SymbolTable {
 	symbolText := ""
 	symbolTable := make(SymbolTable, 0)
 	/* DEBUG : there is a bug with the fact that you didn't the case of that there is only one line in the definition text */
+	continued := false // the piece read continues a long line
 	for {
-		line, _, err := reader.ReadLine()
+		line, isPrefix, err := reader.ReadLine()
 
 		if err == io.EOF {
 			break
@@ -71,6 +72,8 @@ func (l *Lexer) Lex() SymbolTable {
 		check(err)
 
 		buffer := string(line)
+		starts := !continued && startsDefinition(buffer)
+		continued = isPrefix
 
 		/* DEBUG BREAKPOINT */
 		//fmt.Println("buffer:", buffer, "\n buffer Length:", len(buffer))
@@ -86,7 +89,7 @@ func (l *Lexer) Lex() SymbolTable {
 		/*	you can optimize this further more by making sure the symbol
 			is init to the first value when you start parsing and remvove
 			the first check*/
-		if startsDefinition(buffer) {
+		if starts {
 			/* --sync method
 			---fmt.Println("emit") */
 
-- 
2.43.0

