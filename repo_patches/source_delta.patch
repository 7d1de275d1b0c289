From 42f2934fd3fd91675bba412bcfbc5548a19b08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 01/18] fix: keep image corners that lie inside a clipped
 Voronoi cell

A corner was only added to a clipped cell when the cell's boundary also
crossed both image sides meeting there, so cells containing a whole side of
the image (or the whole image) lost corners or vanished.
---
 triangulation/incrdelaunay/voronoi.go | 48 +++++++++------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 913dac7..8cc1828 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -162,8 +162,6 @@ func (v *IVoronoi) processPoint(point Point) {
 	if clip {
 		v.newPolygon = v.newPolygon[:0]
 
-		intersections := [4]int{-1, -1, -1, -1}
-
 		for i := 0; i < len(v.points); i++ {
 			a := v.points[i]
 			b := v.points[(i+1)%len(v.points)]
@@ -174,7 +172,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				v.newPolygon = append(v.newPolygon, a)
 			}
 
-			for j, e := range edges {
+			for _, e := range edges {
 				e0 := FloatPoint{
 					X: e[0].X * float64(v.w),
 					Y: e[0].Y * float64(v.h),
@@ -203,24 +201,18 @@ func (v *IVoronoi) processPoint(point Point) {
 					if new != e0 && new != e1 {
 						v.newPolygon = append(v.newPolygon, new)
 					}
-					intersections[j] += 1
 				}
 			}
 
 		}
 
-		for j, e := range edges {
-			i0 := intersections[j]
-			i1 := intersections[(j+1)%len(edges)]
-
-			if i0 != -1 && i1 != -1 {
-				corner := FloatPoint{
-					X: e[1].X * float64(v.w),
-					Y: e[1].Y * float64(v.h),
-				}
-				if polygonPointIntersect(v.points, corner) {
-					v.newPolygon = append(v.newPolygon, corner)
-				}
+		for _, e := range edges {
+			corner := FloatPoint{
+				X: e[1].X * float64(v.w),
+				Y: e[1].Y * float64(v.h),
+			}
+			if polygonPointIntersect(v.points, corner) {
+				v.newPolygon = append(v.newPolygon, corner)
 			}
 		}
 
@@ -378,8 +370,6 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		if clip {
 			newPolygon = newPolygon[:0]
 
-			intersections := [4]int{-1, -1, -1, -1}
-
 			for i := 0; i < len(points); i++ {
 				a := points[i]
 				b := points[(i+1)%len(points)]
@@ -390,7 +380,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					newPolygon = append(newPolygon, a)
 				}
 
-				for j, e := range edges {
+				for _, e := range edges {
 					e0 := FloatPoint{
 						X: e[0].X * float64(w),
 						Y: e[0].Y * float64(h),
@@ -419,24 +409,18 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 						if new != e0 && new != e1 {
 							newPolygon = append(newPolygon, new)
 						}
-						intersections[j] += 1
 					}
 				}
 
 			}
 
-			for j, e := range edges {
-				i0 := intersections[j]
-				i1 := intersections[(j+1)%len(edges)]
-
-				if i0 != -1 && i1 != -1 {
-					corner := FloatPoint{
-						X: e[1].X * float64(w),
-						Y: e[1].Y * float64(h),
-					}
-					if polygonPointIntersect(points, corner) {
-						newPolygon = append(newPolygon, corner)
-					}
+			for _, e := range edges {
+				corner := FloatPoint{
+					X: e[1].X * float64(w),
+					Y: e[1].Y * float64(h),
+				}
+				if polygonPointIntersect(points, corner) {
+					newPolygon = append(newPolygon, corner)
 				}
 			}
 
-- 
2.43.0


From c19c31459355bb69775952aa660776cb7be6fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 02/18] fix: convert images whose bounds do not start at the
 origin

ToData ignored Bounds().Min, so a sub-image was converted with the wrong size
and padded with pixels from outside its bounds.
---
 image/rgbdata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image/rgbdata.go b/image/rgbdata.go
index f422e87..ba44f6b 100644
--- a/image/rgbdata.go
+++ b/image/rgbdata.go
@@ -37,12 +37,13 @@ func NewData(w, h int) RGBData {
 
 // ToData converts an image.Image to a RGBData.
 func ToData(image image.Image) RGBData {
-	data := NewData(image.Bounds().Max.X, image.Bounds().Max.Y)
+	bounds := image.Bounds()
+	data := NewData(bounds.Dx(), bounds.Dy())
 
 	for y := range data.pixels {
 		for x := range data.pixels[y] {
 			col := &data.pixels[y][x]
-			r, g, b, _ := image.At(x, y).RGBA()
+			r, g, b, _ := image.At(bounds.Min.X+x, bounds.Min.Y+y).RGBA()
 
 			col.R = convertColor(r)
 			col.G = convertColor(g)
-- 
2.43.0


From 0af9dc8635fadb6f9880c0b3dbcbc3f5a00554b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 03/18] fix: keep block colour sums from overflowing

A block's summed channels were stored in 16 bits, which overflow for blocks of
17x17 pixels and larger.
---
 fitness/pixels.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 8a6360d..bdbefcd 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -61,7 +61,7 @@ type pixelDataN struct {
 
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
-	r, g, b uint16
+	r, g, b uint32
 	sq      uint32
 }
 
@@ -89,9 +89,9 @@ func fromImageN(image image.Data, n int) pixelDataN {
 			for i := 0; i < n; i++ {
 				for j := 0; j < n; j++ {
 					rgb := image.RGBAt(x+i, y+j)
-					col.r += uint16(rgb.R * 255)
-					col.g += uint16(rgb.G * 255)
-					col.b += uint16(rgb.B * 255)
+					col.r += uint32(rgb.R * 255)
+					col.g += uint32(rgb.G * 255)
+					col.b += uint32(rgb.B * 255)
 					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
-- 
2.43.0


From c4a646944a05b59d36172e6e43c81171ab07c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 04/18] fix: accept images smaller than the block size

The block table was allocated with a negative length, so creating a fitness
function for a small image panicked.
---
 fitness/pixels.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index bdbefcd..057b7ed 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -68,6 +68,12 @@ type pixelN struct {
 // newPixelDataN creates a new pixelDataN given a width and height.
 func newPixelDataN(w, h, n int) pixelDataN {
 	data := pixelDataN{}
+
+	if w < n || h < n {
+		// No block fits in the image
+		return data
+	}
+
 	data.pixels = make([][]pixelN, h-n+1)
 
 	for i := range data.pixels {
-- 
2.43.0


From 81876d1de5dddbe1eb0040d7be2c8ef1c58575bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 05/18] fix: copy the point counts when a triangulation is set
 to another

NumPoints kept reporting the count of the overwritten triangulation.
---
 triangulation/incrdelaunay/delaunay.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index e40f55f..6e78178 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -299,6 +299,9 @@ func (d *Delaunay) Set(other *Delaunay) {
 
 	d.superTriangle = other.superTriangle
 
+	d.numPoints = other.numPoints
+	d.uniquePoints = other.uniquePoints
+
 	d.grid.Set(&other.grid)
 	d.pointMap.Set(&other.pointMap)
 }
-- 
2.43.0


From 515987980100e1ef3db43f55750a8b8a794db8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 06/18] fix: flush the trace before closing its file

The buffered end of the trace was lost, which left a truncated file.
---
 utils/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/trace.go b/utils/trace.go
index 4631437..3a39716 100644
--- a/utils/trace.go
+++ b/utils/trace.go
@@ -21,5 +21,6 @@ func GenerateTrace(outputFile string, algo algorithm.Algorithm) {
 		algo.Step()
 	}
 	trace.Stop()
+	writer.Flush()
 	dataFile.Close()
 }
-- 
2.43.0


From 06e6395eb971edbceeb3fb0a5ab8295eebc35eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 07/18] fix: never select members of a generation that were not
 evaluated

Members reserved for combined mutations were left out by giving them a fitness
of 0, which ranks them first when a fitness function returns values of 0 or
less: an unevaluated or stale member then became the best one.
---
 algorithm/modifiedgenetic.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algorithm/modifiedgenetic.go b/algorithm/modifiedgenetic.go
index 7d9d165..a45519f 100644
--- a/algorithm/modifiedgenetic.go
+++ b/algorithm/modifiedgenetic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/RH12503/Triangula/mutation"
 	"github.com/RH12503/Triangula/normgeom"
 	"github.com/panjf2000/ants/v2"
+	"math"
 	"sort"
 	"time"
 )
@@ -199,8 +200,8 @@ func (g *modifiedGenetic) combineMutations() {
 			g.evaluator.Update(i)
 		} else {
 			// If there aren't any beneficial mutations, leave the member out of the next generation by setting
-			// its fitness to 0
-			g.fitnesses[i].Fitness = 0
+			// its fitness to the lowest possible value
+			g.fitnesses[i].Fitness = math.Inf(-1)
 		}
 	}
 }
@@ -269,6 +270,11 @@ func NewModifiedGenetic(newPointGroup func() normgeom.NormPointGroup, size int,
 
 	algo.cutoff = cutoff
 
+	// The members reserved for combined mutations aren't evaluated until they are created
+	for i := size - cutoff; i < size; i++ {
+		algo.fitnesses[i].Fitness = math.Inf(-1)
+	}
+
 	// Calculate and update fitnesses in preparation for the first generation
 	algo.calculateFitnesses()
 	algo.updateFitnesses()
-- 
2.43.0


From 5c6cce5d86fbabcc1396aa35825fa238db84992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 08/18] fix: triangulate images of 1x1 pixels

A vertex of the helper triangle had x = -1, the value that marks removed
triangles, so every insertion panicked.
---
 triangulation/incrdelaunay/geom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index ec7a321..71b2140 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -34,6 +34,10 @@ func NewSuperTriangle(w, h int) Triangle {
 	if h > w {
 		max = int16(h)
 	}
+	if max < 2 {
+		// A vertex at x = -1 would be mistaken for a removed triangle
+		max = 2
+	}
 	a := Point{hW - 2*max, hH - max}
 	b := Point{hW, hH + 2*max}
 	c := Point{hW + 2*max, hH - max}
-- 
2.43.0


From 37b10cc718dd452f6454b0b5ce4446f71d8957bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 09/18] fix: never return a helper vertex as the closest point

In small images with odd sides a vertex of the helper triangle can be nearer to
a position than the points of the triangulation.
---
 triangulation/incrdelaunay/delaunay.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index 6e78178..0059d4b 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -323,22 +323,17 @@ func (d Delaunay) GetClosestTo(p Point) Point {
 
 		// Check all three of the triangles vertices to see if one is closer
 
-		dist := p.DistSq(t.A)
-		if dist < closestDist {
-			closestDist = dist
-			closest = t.A
-		}
-
-		dist = p.DistSq(t.B)
-		if dist < closestDist {
-			closestDist = dist
-			closest = t.B
-		}
+		for _, v := range [3]Point{t.A, t.B, t.C} {
+			// The vertices of the superTriangle aren't points of the triangulation
+			if d.superTriangle.HasVertex(v) {
+				continue
+			}
 
-		dist = p.DistSq(t.C)
-		if dist < closestDist {
-			closestDist = dist
-			closest = t.C
+			dist := p.DistSq(v)
+			if dist < closestDist {
+				closestDist = dist
+				closest = v
+			}
 		}
 	}
 	return closest
-- 
2.43.0


From 6157f74c1f56e769425fe9606f2f8ee927412df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 10/18] fix: keep the helper triangle away from the Voronoi
 cells of tiny images

In a 3x3 image a helper vertex is nearer to the opposite image corner than the
point in the other corner, so it cut that point's cell.
---
 triangulation/incrdelaunay/geom.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/triangulation/incrdelaunay/geom.go b/triangulation/incrdelaunay/geom.go
index 71b2140..38fa746 100644
--- a/triangulation/incrdelaunay/geom.go
+++ b/triangulation/incrdelaunay/geom.go
@@ -34,9 +34,10 @@ func NewSuperTriangle(w, h int) Triangle {
 	if h > w {
 		max = int16(h)
 	}
-	if max < 2 {
-		// A vertex at x = -1 would be mistaken for a removed triangle
-		max = 2
+	if max < 4 {
+		// In tiny images the triangle would come too close to the points, as its vertices are rounded,
+		// and a vertex at x = -1 would be mistaken for a removed triangle
+		max = 4
 	}
 	a := Point{hW - 2*max, hH - max}
 	b := Point{hW, hH + 2*max}
-- 
2.43.0


From 5ea81367f8e311a578bf547861532b66139f24ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 11/18] fix: let the shared cache have a single slot

The functions started with two slots, so their first results could carry an
index outside a shared cache of size one.
---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index a82df75..5bb4ea4 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -181,7 +181,7 @@ func PolygonsImageFunctions(target image.Data, blockSize, n int) []CacheFunction
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 648c7e8..3dd2a41 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -187,7 +187,7 @@ func TrianglesImageFunctions(target image.Data, blockSize, n int) []CacheFunctio
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
@@ -204,6 +204,6 @@ func NewTrianglesImageFunction(target image.Data, blockSize int) CacheFunction {
 		targetN:       fromImageN(target, blockSize),
 		blockSize:     blockSize,
 		maxDifference: float64(maxPixelDifference * w * h),
-		TriangleCache: make([]CacheData, 2),
+		TriangleCache: make([]CacheData, 1),
 	}
 }
-- 
2.43.0


From a0566d9df11f179472363f518c33c30537517002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 12/18] fix: keep random floats below 1

The generator's largest values were rounded up to 1, so a mutation rate of 1
could leave a point out.
---
 random/random.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/random/random.go b/random/random.go
index a11ce8f..015276f 100644
--- a/random/random.go
+++ b/random/random.go
@@ -15,9 +15,14 @@ func Intn(n int) int {
 	return int(pcg.Bound(uint32(n)))
 }
 
-// Float32 returns a random float32.
+// Float32 returns a random float32 in [0, 1).
 func Float32() float32 {
-	return pcg.Float32()
+	for {
+		// The largest values of the generator are rounded up to 1
+		if f := pcg.Float32(); f < 1 {
+			return f
+		}
+	}
 }
 
 // Int63 returns a random int64.
-- 
2.43.0


From fc8b3f4311a8ea8bcefeb37710c092fbae481c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 13/18] fix: setting a triangulation or a diagram to itself no
 longer corrupts it

---
 triangulation/incrdelaunay/delaunay.go | 4 ++++
 triangulation/incrdelaunay/voronoi.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index 0059d4b..3097e57 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -278,6 +278,10 @@ func (d Delaunay) NumPoints() int {
 
 // Set sets the triangulation to another triangulation.
 func (d *Delaunay) Set(other *Delaunay) {
+	if d == other {
+		return
+	}
+
 	d.triangles = d.triangles[:cap(d.triangles)]
 
 	if len(d.triangles) > len(other.triangles) {
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 8cc1828..611d94a 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -288,6 +288,10 @@ func (v *IVoronoi) addPointToUpdate(point Point) {
 }
 
 func (v *IVoronoi) Set(other *IVoronoi) {
+	if v == other {
+		return
+	}
+
 	v.delaunay.Set(other.delaunay)
 	v.polygonMap.Set(&other.polygonMap)
 }
-- 
2.43.0


From 41f4ce1f8d6f909af44ac17707541cd55673f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:20 +0000
Subject: [PATCH 14/18] fix: triangulations of more than 65536 triangles
 overwrote each other's indexes

The indexes of triangles were stored in 16 bits, so with more than about 32000
points the grid referred to the wrong triangles and the next insertion panicked.
---
 triangulation/incrdelaunay/delaunay.go | 12 ++++++------
 triangulation/incrdelaunay/grid.go     | 20 ++++++++++----------
 triangulation/incrdelaunay/voronoi.go  |  8 ++++----
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index 3097e57..948e224 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -15,7 +15,7 @@ type Delaunay struct {
 
 	pointMap pointMap
 
-	freeTriangles []uint16 // A list of free indexes in the triangles slice.
+	freeTriangles []uint32 // A list of free indexes in the triangles slice.
 
 	superTriangle Triangle // A triangle that contains all points added.
 
@@ -57,7 +57,7 @@ func (d *Delaunay) Insert(p Point) bool {
 	d.resetEdges()
 
 	// Iterate through all the triangles with circumcircles that contain the point
-	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint16) {
+	d.grid.RemoveCircumcirclesThatContain(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		d.addEdge(NewEdge(t.A, t.B))
@@ -110,7 +110,7 @@ func (d *Delaunay) Remove(p Point) {
 	}
 
 	// Iterates through all the triangles that have a connection to point p
-	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint16) {
+	d.grid.RemoveThatHasVertex(p, d.triangles, func(i uint32) {
 		t := d.triangles[i]
 
 		addPoint(t.A)
@@ -243,14 +243,14 @@ func (d *Delaunay) addTriangle(t Triangle) {
 		return
 	}
 
-	d.grid.AddTriangle(t, uint16(len(d.triangles))) // Update the grid
+	d.grid.AddTriangle(t, uint32(len(d.triangles))) // Update the grid
 
 	d.triangles = append(d.triangles, t)
 }
 
 // markFreeTriangle marks a triangle in the triangles slice as no longer being needed,
 // essentially removing the triangle from the triangulation.
-func (d *Delaunay) markFreeTriangle(i uint16) {
+func (d *Delaunay) markFreeTriangle(i uint32) {
 	d.triangles[i].A.X = -1 // Marks the triangle as invalid
 	d.freeTriangles = append(d.freeTriangles, i)
 }
@@ -296,7 +296,7 @@ func (d *Delaunay) Set(other *Delaunay) {
 	if len(d.freeTriangles) > len(other.freeTriangles) {
 		d.freeTriangles = d.freeTriangles[:len(other.freeTriangles)]
 	} else if len(d.freeTriangles) < len(other.freeTriangles) {
-		d.freeTriangles = make([]uint16, len(other.freeTriangles))
+		d.freeTriangles = make([]uint32, len(other.freeTriangles))
 	}
 
 	copy(d.freeTriangles, other.freeTriangles)
diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 82eeab9..81ff0ee 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -7,7 +7,7 @@ import (
 // CircumcircleGrid is a data structure that uses spatial partitioning to allowed fast operations
 // involving multiple Triangle's and their Circumcircle's.
 type CircumcircleGrid struct {
-	triangles            [][][]uint16 // The grid used to store triangles
+	triangles            [][][]uint32 // The grid used to store triangles
 	cols, rows           int
 	rowPixels, colPixels float64 // The number of pixels per row and column
 }
@@ -20,15 +20,15 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 	c.colPixels = float64(w) / float64(cols)
 	c.rowPixels = float64(h) / float64(rows)
 
-	c.triangles = make([][][]uint16, c.rows)
+	c.triangles = make([][][]uint32, c.rows)
 	for i := range c.triangles {
-		c.triangles[i] = make([][]uint16, c.cols)
+		c.triangles[i] = make([][]uint32, c.cols)
 	}
 	return c
 }
 
 // AddTriangle adds a Triangle with an index to the grid.
-func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
+func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := t.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
@@ -61,7 +61,7 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint16) {
 }
 
 // RemoveTriangle removes a triangle from the grid.
-func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint16) {
+func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
 	radius := tri.Circumcircle.Radius + 0.001
 	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
@@ -133,7 +133,7 @@ func (c CircumcircleGrid) HasPoint(p Point, triangles []Triangle) bool {
 }
 
 // RemoveCircumcirclesThatContain removes all triangles whose circumcircle contain a point.
-func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -166,7 +166,7 @@ func (c CircumcircleGrid) RemoveCircumcirclesThatContain(p Point, triangles []Tr
 	}
 }
 
-func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -196,7 +196,7 @@ func (c CircumcircleGrid) IterCircumcirclesThatContain(p Point, triangles []Tria
 }
 
 // RemoveThatHasVertex removes all triangles that have a vertex.
-func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -226,7 +226,7 @@ func (c CircumcircleGrid) RemoveThatHasVertex(p Point, triangles []Triangle, con
 	}
 }
 
-func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint16)) {
+func (c CircumcircleGrid) IterThatHasVertex(p Point, triangles []Triangle, contains func(i uint32)) {
 	// Find which box of the grid the point falls into
 	x := int(math.Floor(float64(p.X) / c.colPixels))
 	y := int(math.Floor(float64(p.Y) / c.rowPixels))
@@ -260,7 +260,7 @@ func (c *CircumcircleGrid) Set(other *CircumcircleGrid) {
 			if len(c.triangles[x][y]) > len(other.triangles[x][y]) {
 				c.triangles[x][y] = c.triangles[x][y][:len(other.triangles[x][y])]
 			} else if len(c.triangles[x][y]) < len(other.triangles[x][y]) {
-				c.triangles[x][y] = make([]uint16, len(other.triangles[x][y]))
+				c.triangles[x][y] = make([]uint32, len(other.triangles[x][y]))
 			}
 
 			copy(c.triangles[x][y], other.triangles[x][y])
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 611d94a..65017ba 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -35,7 +35,7 @@ func (v *IVoronoi) Insert(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterCircumcirclesThatContain(point, triangles, func(i uint32) {
 		t := triangles[i]
 		v.addPointToUpdate(t.A)
 		v.addPointToUpdate(t.B)
@@ -65,7 +65,7 @@ func (v *IVoronoi) Remove(point Point) {
 	v.pointsToUpdate = v.pointsToUpdate[:0]
 	triangles := v.delaunay.triangles
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		t := triangles[i]
 
 		v.addPointToUpdate(t.A)
@@ -102,7 +102,7 @@ func (v *IVoronoi) processPoint(point Point) {
 	v.points = v.points[:0]
 	clip := false
 
-	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+	v.delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 		circ := triangles[i].Circumcircle
 
 		new := FloatPoint{
@@ -314,7 +314,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 		points = points[:0]
 		clip := false
 
-		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint16) {
+		delaunay.grid.IterThatHasVertex(point, triangles, func(i uint32) {
 			circ := triangles[i].Circumcircle
 
 			new := FloatPoint{
-- 
2.43.0


From 18ec499b6de6dbdc66c03cb89804fc795ae4d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 15/18] fix: more than 65535 copies of a point were counted
 modulo 65536

One removal could then take away a point of which copies were left.
---
 triangulation/incrdelaunay/pointmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulation/incrdelaunay/pointmap.go b/triangulation/incrdelaunay/pointmap.go
index da8210a..e8004c9 100644
--- a/triangulation/incrdelaunay/pointmap.go
+++ b/triangulation/incrdelaunay/pointmap.go
@@ -13,7 +13,7 @@ func newPointMap(size int) pointMap {
 }
 
 // AddPoint adds a point to the pointMap, accounting for duplicates.
-func (pm *pointMap) AddPoint(point Point) uint16 {
+func (pm *pointMap) AddPoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -36,7 +36,7 @@ func (pm *pointMap) AddPoint(point Point) uint16 {
 
 // RemovePoint removes a point from the pointMap, accounting for duplicates,
 // and returning the number of the same point left.
-func (pm *pointMap) RemovePoint(point Point) uint16 {
+func (pm *pointMap) RemovePoint(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -58,7 +58,7 @@ func (pm *pointMap) RemovePoint(point Point) uint16 {
 	panic("point doesn't exist")
 }
 
-func (pm *pointMap) CopiesOf(point Point) uint16 {
+func (pm *pointMap) CopiesOf(point Point) uint32 {
 	x, y := uint16(point.X), uint16(point.Y)
 	index := point.Hash() % len(pm.points)
 
@@ -109,5 +109,5 @@ func (pm pointMap) IterPoints(point func(Point)) {
 // pointEntry is used to keep track of a point and how many copies of a point there are.
 type pointEntry struct {
 	x, y  uint16
-	count uint16 // the number of a point the hash table contains.
+	count uint32 // the number of a point the hash table contains.
 }
-- 
2.43.0


From 1cae64c89676f56a6cd84caf456aa23a4b8741a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:03 +0000
Subject: [PATCH 16/18] fix: in images of more than about 7700 pixels the
 circle grid missed cells

The circumcircles are kept as float32, so for large radii the fixed margin of 0.001
was lost to rounding; points on the edge of the image were then not found.
---
 triangulation/incrdelaunay/grid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 81ff0ee..b73ad95 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -30,7 +30,7 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 // AddTriangle adds a Triangle with an index to the grid.
 func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := t.Circumcircle.Radius + 0.001
+	radius := t.Circumcircle.Radius*1.000001 + 0.001
 	topLeftX := int(float64(t.Circumcircle.cX-radius) / c.colPixels)
 	topLeftY := int(float64(t.Circumcircle.cY-radius) / c.rowPixels)
 	bottomRightX := int(math.Ceil(float64(t.Circumcircle.cX+radius) / c.colPixels))
@@ -63,7 +63,7 @@ func (c *CircumcircleGrid) AddTriangle(t Triangle, index uint32) {
 // RemoveTriangle removes a triangle from the grid.
 func (c *CircumcircleGrid) RemoveTriangle(tri Triangle, index uint32) {
 	// Find all the boxes of the grid that the triangle's circumcircle intersects
-	radius := tri.Circumcircle.Radius + 0.001
+	radius := tri.Circumcircle.Radius*1.000001 + 0.001
 	topLeftX := int(float64(tri.Circumcircle.cX-radius) / c.colPixels)
 	topLeftY := int(float64(tri.Circumcircle.cY-radius) / c.rowPixels)
 	bottomRightX := int(math.Ceil(float64(tri.Circumcircle.cX+radius) / c.colPixels))
-- 
2.43.0


From 7d387c8be75a60f0bf1aa458858e2e7263ae78dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:44 +0000
Subject: [PATCH 17/18] fix: keep corners of cells whose vertices are almost
 the same

---
 triangulation/incrdelaunay/voronoi.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 65017ba..3ac2a22 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -211,7 +211,7 @@ func (v *IVoronoi) processPoint(point Point) {
 				X: e[1].X * float64(v.w),
 				Y: e[1].Y * float64(v.h),
 			}
-			if polygonPointIntersect(v.points, corner) {
+			if polygonPointIntersect(v.points, corner) || v.delaunay.closestNeighbor(point, corner) {
 				v.newPolygon = append(v.newPolygon, corner)
 			}
 		}
@@ -423,7 +423,7 @@ func Voronoi(delaunay *Delaunay, polygon func([]FloatPoint), w, h int) {
 					X: e[1].X * float64(w),
 					Y: e[1].Y * float64(h),
 				}
-				if polygonPointIntersect(points, corner) {
+				if polygonPointIntersect(points, corner) || delaunay.closestNeighbor(point, corner) {
 					newPolygon = append(newPolygon, corner)
 				}
 			}
@@ -506,6 +506,25 @@ func outside(p FloatPoint, w, h int) bool {
 	return p.X < -epsilon || p.Y < -epsilon || p.X > float64(w)+epsilon || p.Y > float64(h)+epsilon
 }
 
+// closestNeighbor returns if point p is as close to a position as all points that it's connected to, which
+// means that the position is in the cell of p. It doesn't depend on how the vertices of the cell are rounded.
+func (d *Delaunay) closestNeighbor(p Point, position FloatPoint) bool {
+	pos := Point{X: int16(position.X), Y: int16(position.Y)}
+	dist := p.DistSq(pos)
+	closest := true
+
+	d.grid.IterThatHasVertex(p, d.triangles, func(i uint32) {
+		t := d.triangles[i]
+		for _, v := range [3]Point{t.A, t.B, t.C} {
+			if !d.superTriangle.HasVertex(v) && v.DistSq(pos) < dist {
+				closest = false
+			}
+		}
+	})
+
+	return closest
+}
+
 func polygonPointIntersect(polygon []FloatPoint, point FloatPoint) bool {
 	//n>2 Keep track of cross product sign changes
 	pos := 0
-- 
2.43.0


From 717d1e7e15cb83e0535b4ee290ce6c23adcddc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:55 +0000
Subject: [PATCH 18/18] fix: keep block sums of squares from overflowing

In a block of 150 by 150 bright pixels the sum of the squares does not fit
in 32 bits, and the fitness of the group came out above 1.
---
 fitness/pixels.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 057b7ed..31cead1 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -62,7 +62,7 @@ type pixelDataN struct {
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
 	r, g, b uint32
-	sq      uint32
+	sq      uint64
 }
 
 // newPixelDataN creates a new pixelDataN given a width and height.
@@ -98,7 +98,7 @@ func fromImageN(image image.Data, n int) pixelDataN {
 					col.r += uint32(rgb.R * 255)
 					col.g += uint32(rgb.G * 255)
 					col.b += uint32(rgb.B * 255)
-					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
+					col.sq += uint64(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
 		}
-- 
2.43.0

