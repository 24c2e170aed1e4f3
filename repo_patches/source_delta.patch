From 7872efc89c08175ff9e097375964a3e76a3d7529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 01/11] fix: keep the last group of coincident vertices in
 planar intersections

The sorted scan reported a group of equal vertices only when a different
vertex followed, so a junction or self intersection at the greatest
(x, y) was never constrained.
---
 lnr/fc.go   | 7 +++++++
 lnr/self.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lnr/fc.go b/lnr/fc.go
index 505e9a6..3367751 100644
--- a/lnr/fc.go
+++ b/lnr/fc.go
@@ -56,5 +56,12 @@ func FCPlanarSelfIntersection(featureClass []*FC) map[int][]int {
 		d = 0
 		indexes = indexes[:0]
 	}
+
+	// group of equal vertices at the end of the sorted list
+	if d > 1 {
+		for _, v := range indexes {
+			results[v.fid] = append(results[v.fid], v.index)
+		}
+	}
 	return results
 }
diff --git a/lnr/self.go b/lnr/self.go
index b541027..de90b4c 100644
--- a/lnr/self.go
+++ b/lnr/self.go
@@ -57,6 +57,13 @@ func planarIntersects(polyline *geometry.Polyline) *ctx.ContextGeometries {
 		d = 0
 		indices = indices[:0]
 	}
+
+	// group of equal vertices at the end of the sorted list
+	if d > 1 {
+		var cg = ctx.New(points[len(points)-1].Point, 0, -1).AsPlanarVertex()
+		cg.Meta.Planar = iter.SortedIntsSet(indices)
+		results.Push(cg)
+	}
 	return results
 }
 
-- 
2.43.0


From 0845feaada3c16cd95a93dd3232dd6355a76f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 02/11] fix: write features by their index, not their position

Input records without linear geometry leave gaps in the index; ranging
over positions then looked up missing groups and dropped the last ones.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 20239a1..fe01c72 100644
--- a/encode.go
+++ b/encode.go
@@ -38,7 +38,7 @@ func groupPlnsAsGeoJSONS(plns []*geometry.Polyline) []string {
 	var dictionary = groupById(plns)
 	var indxs = indices(dictionary)
 	var jsons = make([]string, 0, len(plns))
-	for idx := range indxs {
+	for _, idx := range indxs {
 		var plns = dictionary[idx]
 		sort.SliceStable(plns, func(i, j int) bool {
 			return plns[i].pos < plns[j].pos
-- 
2.43.0


From 59b54ac6cc7a7bdcf9f39fc1c92dae098cd14684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 03/11] fix: do not lose deformable hulls of different features
 with equal ranges

Vertex ranges repeat across features of a feature class; key the
selection by node id.
---
 deform/cls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deform/cls.go b/deform/cls.go
index 9c109be..65473e2 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -26,7 +26,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var n int
 	var h *node.Node
 	var inters, contig bool
-	var dict = make(map[[2]int]*node.Node, 0)
+	var dict = make(map[int]*node.Node, 0) // keyed by node id: ranges repeat across features
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -64,10 +64,10 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 
 		// add candidate deformation hulls to selection list
 		if sa != nil {
-			dict[sa.Range.AsArray()] = sa
+			dict[sa.Id] = sa
 		}
 		if sb != nil {
-			dict[sb.Range.AsArray()] = sb
+			dict[sb.Id] = sb
 		}
 	}
 
-- 
2.43.0


From 243cdbdda6c8a6b942a17440a0c52168d56912a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 04/11] fix: observe non planar self intersections without
 planar_self

non_planar_self was silently ignored unless planar_self was also set.
---
 constrain/toself.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constrain/toself.go b/constrain/toself.go
index ee75d0a..022f0e7 100644
--- a/constrain/toself.go
+++ b/constrain/toself.go
@@ -17,7 +17,7 @@ func ToSelfIntersects(id *iter.Igen,
 	options *opts.Opts, constVerts []int,
 ) ([]node.Node, bool, []int) {
 	var atVertexSet = make(map[int]bool)
-	if !options.PlanarSelf {
+	if !options.PlanarSelf && !options.NonPlanarSelf {
 		return nodes, true, []int{}
 	}
 
-- 
2.43.0


From bb696fc8b7ba8b9df820816a471102640a1f13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 05/11] fix: hull is not collapsible when its segment passes
 through the neighbour's end

The simplified line would touch or overlap itself at that vertex.
---
 node/collapse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/collapse.go b/node/collapse.go
index ff900e0..2d2b6e4 100644
--- a/node/collapse.go
+++ b/node/collapse.go
@@ -33,6 +33,10 @@ func (node *Node) Collapsible(other *Node) bool {
 	if c.Equals2D(t) {
 		t = bi
 	}
+	// the far end of other lies on the simplified segment of node
+	if !t.Equals2D(ai) && !t.Equals2D(aj) && node.Segment().Intersects(t) {
+		return false
+	}
 	if ply, ok := node.Geom.Geometry().(*geom.Polygon); ok {
 		return !ply.Shell.PointCompletelyInRing(t)
 	}
-- 
2.43.0


From e4cc6d4262e98de29948d6b8eff8f3753aff2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 06/11] fix: validate merge with previous fragment against the
 next fragment

When the merge with the next fragment was rejected, it was still missing
from the db while the merge with the previous one was validated.
---
 constdp/node_aggregates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constdp/node_aggregates.go b/constdp/node_aggregates.go
index 891dce6..2d7e4fc 100644
--- a/constdp/node_aggregates.go
+++ b/constdp/node_aggregates.go
@@ -92,7 +92,8 @@ func (self *ConstDP) AggregateSimpleSegments(
 				merged = true
 			} else {
 				merged = false
-				insertList = append(insertList, *nxt)
+				// back to db before merge with prev is validated
+				db.Load([]node.Node{*nxt})
 			}
 		}
 
-- 
2.43.0


From 0a32767ecf43dc3dbe13e85fb36d986889575ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 07/11] fix: recheck neighbours of segments split off during
 deformation

A hull validated in an earlier round was not looked at again when a
neighbour was split down to single segments, leaving new intersections.
---
 constdp/simple_0.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 5fc1b33..baa400a 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -36,6 +36,17 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			var self = hull.Instance.(*ConstDP)
 
 			if hull.Range.Size() == 1 { //segment
+				// a segment is final, but a neighbour validated before
+				// the segment was split off may now conflict with it
+				if self.Opts.AvoidNewSelfIntersects {
+					constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
+					for _, o := range selections {
+						if o.Range.Size() > 1 {
+							out <- o
+						}
+					}
+					selections = selections[:0]
+				}
 				continue
 			}
 
-- 
2.43.0


From 3cdc206e09cd7340daea49b1d4feb76f20c6da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 08/11] fix: validate collinear hulls

Collinear vertices can run back and forth beyond the end points, so the
segment may no longer meet a constraint that the line intersects.
---
 constdp/simple_0.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index baa400a..26bc40d 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -4,7 +4,6 @@ import (
 	"github.com/TopoSimplify/plugin/constrain"
 	"github.com/TopoSimplify/plugin/hdb"
 	"github.com/TopoSimplify/plugin/node"
-	"github.com/intdxdt/geom"
 	"sync"
 )
 
@@ -50,11 +49,6 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 				continue
 			}
 
-			//if hull geometry is line then points are collinear
-			if _, ok := hull.Geom.(*geom.LineString); ok {
-				continue
-			}
-
 			// self intersection constraint
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
-- 
2.43.0


From 3d9865bc3555e6abcd1ac4b1f18d182947168da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 09/11] fix: keep the threshold in fragments split off by
 constraints

The offset of a vertex from the segment of a sub range can be larger than
its offset from the segment of the whole range.
---
 constdp/simple_0.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 26bc40d..87261f2 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -49,6 +49,12 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 				continue
 			}
 
+			// a fragment split off by a constraint may exceed the threshold
+			if self.exceedsThreshold(hull) {
+				out <- hull
+				continue
+			}
+
 			// self intersection constraint
 			if self.Opts.AvoidNewSelfIntersects {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
@@ -133,3 +139,13 @@ func chunkInstances(vals []*ConstDP, concurrency int) [][]*ConstDP {
 	}
 	return chunks
 }
+
+//exceedsThreshold - is the offset of hull more than the simplification threshold
+func (self *ConstDP) exceedsThreshold(hull *node.Node) bool {
+	var score, relation = self.Score, self.ScoreRelation
+	if self.SquareScore != nil {
+		score, relation = self.SquareScore, self.SquareScoreRelation
+	}
+	var _, val = score(hull.Coordinates())
+	return !relation(val)
+}
-- 
2.43.0


From c87abfb6f567f2f55457a14268af41639c95710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:31 +0000
Subject: [PATCH 10/11] fix: preserve non-planar intersections between features
 without avoid_new_self_intersects

non_planar_self of a feature class had no effect unless avoid_new_self_intersects
was on as well
---
 constdp/fc_simplify.go | 1 +
 constdp/simple_0.go    | 6 +++---
 deform/cls.go          | 9 +++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/constdp/fc_simplify.go b/constdp/fc_simplify.go
index db9c2ce..f2fde91 100644
--- a/constdp/fc_simplify.go
+++ b/constdp/fc_simplify.go
@@ -31,6 +31,7 @@ func SimplifyFeatureClass(id *iter.Igen, selfs []*ConstDP, opts *opts.Opts, call
 
 	var constrained = opts.AvoidNewSelfIntersects ||
 		opts.PlanarSelf ||
+		opts.NonPlanarSelf ||
 		opts.GeomRelation ||
 		opts.DirRelation ||
 		opts.DistRelation
diff --git a/constdp/simple_0.go b/constdp/simple_0.go
index 87261f2..cc90a12 100644
--- a/constdp/simple_0.go
+++ b/constdp/simple_0.go
@@ -37,7 +37,7 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 			if hull.Range.Size() == 1 { //segment
 				// a segment is final, but a neighbour validated before
 				// the segment was split off may now conflict with it
-				if self.Opts.AvoidNewSelfIntersects {
+				if self.Opts.AvoidNewSelfIntersects || self.Opts.NonPlanarSelf {
 					constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
 					for _, o := range selections {
 						if o.Range.Size() > 1 {
@@ -55,8 +55,8 @@ func processConstSimplification(nodeHulls []node.Node, db *hdb.Hdb, concurrency
 				continue
 			}
 
-			// self intersection constraint
-			if self.Opts.AvoidNewSelfIntersects {
+			// self intersection constraint, non-planar intersections between features
+			if self.Opts.AvoidNewSelfIntersects || self.Opts.NonPlanarSelf {
 				bln = constrain.ByFeatureClassIntersection(self.Opts, hull, db, &selections)
 			}
 
diff --git a/deform/cls.go b/deform/cls.go
index 65473e2..5c85e74 100644
--- a/deform/cls.go
+++ b/deform/cls.go
@@ -27,6 +27,7 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 	var h *node.Node
 	var inters, contig bool
 	var dict = make(map[int]*node.Node, 0) // keyed by node id: ranges repeat across features
+	var nonPlanarOnly = options.NonPlanarSelf && !options.AvoidNewSelfIntersects
 	var ctxHulls = knn.NodeNeighbours(hullDB, hull, knn.EpsilonDist)
 
 	ctxHulls = optimizeNeighbours(hull, ctxHulls)
@@ -37,6 +38,9 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 		h = ctxHulls[i]
 
 		var sameFeature = isSame(hull.Instance, h.Instance)
+		if sameFeature && nonPlanarOnly {
+			continue
+		}
 		// find which item to deform against current hull
 		if sameFeature { // check for contiguity
 			inters, contig, n = node.IsContiguous(hull, h)
@@ -51,6 +55,11 @@ func SelectFeatureClass(options *opts.Opts, hullDB *hdb.Hdb, hull *node.Node) []
 			}
 		}
 
+		// only intersections of the original lines are preserved
+		if inters && nonPlanarOnly {
+			inters = hull.Polyline.Geometry().Intersects(h.Polyline.Geometry())
+		}
+
 		if !inters { // disjoint : nothing to do, continue
 			continue
 		}
-- 
2.43.0


From 9d58d1163ff26b373d1ae3b637e265e90051e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:09 +0000
Subject: [PATCH 11/11] fix: features without geometry no longer crash the
 reader

---
 geometry/geojson.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometry/geojson.go b/geometry/geojson.go
index cd62b8b..c8c8f01 100644
--- a/geometry/geojson.go
+++ b/geometry/geojson.go
@@ -105,6 +105,9 @@ func parseConstraintFeatures(inputs []string) []IGeometry {
 
 func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 	var geometries = make([]*Polyline, 0)
+	if feat.Geometry == nil { // unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsLineString() || feat.Geometry.IsMultiLineString() {
 		var objs = lineStringFromFeature(idx, feat)
 		for _, o := range objs {
@@ -116,6 +119,9 @@ func createPolylineGeoms(idx int, feat *geojson.Feature) []*Polyline {
 
 func createIGeom(idx int, feat *geojson.Feature) []IGeometry {
 	var geometries = make([]IGeometry, 0)
+	if feat.Geometry == nil { // unlocated feature
+		return geometries
+	}
 	if feat.Geometry.IsPoint() || feat.Geometry.IsMultiPoint() {
 		var objs = pointsFromFeature(idx, feat)
 		for _, o := range objs {
-- 
2.43.0

