From 3a98c04edae4d74d937314fd800739e5518ff379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 1/9] fix: validate collinear pieces against the constraints

A collinear piece can backtrack, so its sub-line may touch or approach a
constraint that its replacement segment does not. Skipping the validation
left such pieces violating the geometric, distance and side relations.
---
 constdp/simple_0.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..c4a4750 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -4,7 +4,6 @@ import (
 	"github.com/TopoSimplify/plugin/constrain"
 	"github.com/TopoSimplify/plugin/hdb"
 	"github.com/TopoSimplify/plugin/node"
-	"github.com/intdxdt/geom"
 	"sync"
 )
 
@@ -39,11 +38,6 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 				continue
 			}
 
-			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
-				continue
-			}
-
 			// self intersection constraint
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
-- 
2.43.0


From 6d25d7f078d102f31ebe00d64999aa4d308aae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:01 +0000
Subject: [PATCH 2/9] fix: report coincident vertices that sort last

The scan flushed a group of coincident vertices only when a later vertex
with another position followed, so the lexicographically last group was
never reported as self-intersection or junction.
---
 lnr/fc.go   | 7 +++++++
 lnr/self.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..5f798d7 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -56,5 +56,12 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 		d = 0
 		indexes = indexes[:0]
 	}
+
+	//coincident vertices at the end of the sorted sequence
+	if d > 1 {
+		for _, v := range indexes {
+			results[v.fid] = append(results[v.fid], v.index)
+		}
+	}
 	return results
 }
diff --git a/lnr/self.go b/lnr/self.go
index b541027..5df7c1c 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -57,6 +57,13 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 		d = 0
 		indices = indices[:0]
 	}
+
+	//coincident vertices at the end of the sorted sequence
+	if d > 1 {
+		var cg = ctx.New(points[len(points)-1].Point, 0, -1).AsPlanarVertex()
+		cg.Meta.Planar = iter.SortedIntsSet(indices)
+		results.Push(cg)
+	}
 	return results
 }
 
-- 
2.43.0


From eca2a298a4f73d87089fea74536322973d9fbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 3/9] fix: keep every selected piece of a feature class

Selections were keyed by vertex range, so pieces of different lines with
the same range replaced each other and a conflict could be forgotten.
---
 deform/cls.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..6284c61 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[*node.Node]struct{}, 0)
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,15 +64,15 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa] = struct{}{}
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb] = struct{}{}
 		}
 	}
 
 	var items = make([]*node.Node, 0, len(dict))
-	for _, v := range dict {
+	for v := range dict {
 		items = append(items, v)
 	}
 	return items
-- 
2.43.0


From 9f6e28e2bdfd87175e880c5054fdf3c14f836c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:22 +0000
Subject: [PATCH 4/9] fix: measure context geometries, not their wrapper

A point query against an indexed point context panicked, since the
distance was taken to the wrapper of the context geometry.
---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index 7c05a99..d7708ee 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -35,7 +35,7 @@ func ScoreFn(query geom.Geometry) func(_ *mbr.MBR, item *hdb.KObj) float64 {
 		if nd == nil {
 			other = box.MBRToPolygon(*item.MBR)
 		} else {
-			other = nd.Geom
+			other = nd.Geom.Geometry()
 		}
 		return query.Distance(other)
 	}
-- 
2.43.0


From cb068b9caeed560621d65342359d1ba1f2755e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:40 +0000
Subject: [PATCH 5/9] fix: search piece neighbours within the given distance

The box search used the bounds of the piece itself, so a piece within the
given distance whose bounds do not touch was never returned.
---
 knn/neighbours.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knn/neighbours.go b/knn/neighbours.go
index 9b93679..e7a8bd4 100644
--- a/knn/neighbours.go
+++ b/knn/neighbours.go
@@ -13,7 +13,9 @@ func ContextNeighbours(database *hdb.Hdb, query geom.Geometry, dist float64) []*
 
 //NodeNeighbours - find context hulls
 func NodeNeighbours(database *hdb.Hdb, hull *node.Node, dist float64) []*node.Node {
-	var inters = database.Search(*hull.BBox())
+	var box = hull.Bounds()
+	box.ExpandByDelta(dist, dist)
+	var inters = database.Search(box)
 	var ns = make([]*node.Node, 0, len(inters))
 	for _, nd := range inters {
 		if nd.Id != hull.Id && nd.Geom.Distance(hull.Geom) <= dist {
-- 
2.43.0


From 141de672b813d9c1ea90cdd1be18ea7c83f21935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 6/9] fix: write the features of the indexes that hold lines

The loop ranged over positions instead of the sorted indexes, so an input
line that is no linear feature made the output skip or repeat features.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From fe41331bfbf9e50a3f7d5b78e00be394f9427660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:43 +0000
Subject: [PATCH 7/9] fix: synchronised offset of sequences without duration

With equal time stamps at both ends every offset was NaN, so the last
index was reported as the farthest vertex and refinement of such a piece
never ended.
---
 offset/sed.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/offset/sed.go b/offset/sed.go
index af8da8a..110a565 100644
--- a/offset/sed.go
+++ b/offset/sed.go
@@ -36,12 +36,16 @@ func maxSEDOffset(coordinates geom.Coords, hypotFn func(float64, float64) float6
 	var fb = direction(v[geom.X], v[geom.Y])
 	var vx, vy = math.Cos(fb), math.Sin(fb)
 	var dt = bt - at
+	var speed float64
+	if dt != 0 { //without duration the position stays at the start
+		speed = mij / dt
+	}
 
 	for k := 1; k < n; k++ { //exclusive range between 0 < k < n
 		pt = coordinates.Pt(k)
 		ptx, pty, ptt = pt[geom.X], pt[geom.Y], pt[geom.Z]
 
-		m = (mij / dt) * (ptt - at)
+		m = speed * (ptt - at)
 		px, py = ax+(m*vx), ay+(m*vy)
 		dist = hypotFn(ptx-px, pty-py)
 
-- 
2.43.0


From affac2eb94dc1503ee3a39a9b98ad99b0201c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 8/9] fix: skip features without geometry

A feature with a null geometry is valid GeoJSON, but reading it crashed.
---
 geometry/geojson.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index cd62b8b..e17a661 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -105,6 +105,9 @@ func parseConstraintFeatures(inputs []string) []IGeometry {
 
 func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 	var geometries = make([]*Polyline, 0)
+	if feat.Geometry == nil { //unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
 		var objs = lineStringFromFeature(idx, feat)
 		for _, o := range objs {
@@ -116,6 +119,9 @@ func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 
 func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
 	var geometries = make([]IGeometry, 0)
+	if feat.Geometry == nil { //unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
 		var objs = pointsFromFeature(idx, feat)
 		for _, o := range objs {
-- 
2.43.0


From 5db8d7ae58704629afb193d324d3b57e052b7a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 9/9] fix: keep the features of a collection apart

All features of a feature collection shared the index of their input line
and were written as one multi-part feature with the properties of the first.
---
 geometry/geojson.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index e17a661..389c1a5 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -49,7 +49,8 @@ func ReadInputConstraints(inputJsonFile string) []IGeometry {
 func parseInputLinearFeatures(inputs []string) []*Polyline {
 	var plns = make([]*Polyline, 0, len(inputs))
 
-	for idx, fjson := range inputs {
+	var idx = 0 //running index of features
+	for _, fjson := range inputs {
 		var jtype JSONType
 		var err = json.Unmarshal([]byte(fjson), &jtype)
 		checkError(err)
@@ -59,15 +60,18 @@ func parseInputLinearFeatures(inputs []string) []*Polyline {
 			checkError(err)
 			var feat = &geojson.Feature{Geometry: g, Type: string(g.Type)}
 			plns = append(plns, createPolylineGeoms(idx, feat)...)
+			idx++
 		} else if jtype.isFeatureType() {
 			feat, err := geojson.UnmarshalFeature([]byte(fjson))
 			checkError(err)
 			plns = append(plns, createPolylineGeoms(idx, feat)...)
+			idx++
 		} else if jtype.isFeatureCollectionType() {
 			feats, err := geojson.UnmarshalFeatureCollection([]byte(fjson))
 			checkError(err)
 			for _, feat := range feats.Features {
 				plns = append(plns, createPolylineGeoms(idx, feat)...)
+				idx++
 			}
 		}
 	}
-- 
2.43.0

