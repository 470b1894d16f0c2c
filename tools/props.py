import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

add("C01","Output is an end-preserving vertex subsequence tiled by its pieces",
"For every input line of at least two vertices and every configuration, the simplified line keeps the first and the last input vertex and is a strictly increasing subsequence of the input's vertices with unchanged coordinates. The pieces a line is divided into at any stage (decomposition, splitting at protected vertices, refinement, merging) are consecutive vertex ranges that cover the line from first to last vertex without gap or overlap. Every vertex reported as retained is an end of such a piece, and every end of a final piece is retained.",
["inputs","configurations"],"all lines, thresholds, options and constraint sets",
"The tests compare a handful of fixed lines with recorded answers; they cannot show the tiling for every line, nor that every intermediate stage preserves it.",
["decompose/decompose.go","dp/dp.go","split/split.go","constdp/simplify.go","constdp/simple_1.go","simplify.go","node/node.go","geometry/pln.go","common/common.go"],
[("stack of ranges, left piece processed first","decompose/decompose.go DouglasPeucker"),("retained set from piece ends","dp/dp.go Simple"),("ordered write-back of retained vertices","simplify.go setSimpleCoords")],
["decompose.DouglasPeucker","(*dp.DouglasPeucker).Simple","(*constdp.ConstDP).Simplify","Polyline.Simple"])

add("C02","Decomposition respects the distance threshold and splits only when needed",
"For every line and every non-negative threshold, each piece produced by the unconstrained decomposition has a deviation score not above the threshold under the chosen metric (plain or squared form give the same meaning). A range is divided only when its score exceeds the threshold, and then exactly at the vertex the metric reports as farthest. A piece that already satisfies the threshold is emitted whole.",
["inputs","configurations"],"all lines, all score functions that report an interior vertex, all thresholds",
"Tests use a few thresholds on a few lines; the bound is over all lines and recursion depths.",
["decompose/decompose.go","dp/dp.go","constdp/decompose.go","offset/dp.go"],
[("relation test before emit, split at reported vertex otherwise","decompose/decompose.go DouglasPeucker"),("score <= threshold; squared score <= threshold squared","dp/dp.go ScoreRelation, SquareScoreRelation")],
["decompose.DouglasPeucker","(*dp.DouglasPeucker).Decompose","(*constdp.ConstDP).Decompose"])

add("C03","The reported deviation is the exact maximum, attained at the reported vertex",
"For every coordinate sequence the offset metrics return the largest deviation over all interior vertices (distance to the chord for the distance metric, distance to the time-synchronised position on the chord for the synchronised metric, where a sequence that takes no time is synchronised with the start of its chord, and the squares of these for the squared forms). The returned index is a strictly interior vertex that attains that maximum. Sequences without an interior vertex return their last index and a zero deviation.",
["inputs"],"all coordinate sequences with finite coordinates and times",
"Tests check a few fixed sequences; maximality is a statement about every vertex of every sequence.",
["offset/dp.go","offset/sed.go"],
[("running maximum over interior vertices","offset/dp.go maxOffset"),("synchronised position and distance","offset/sed.go maxSEDOffset")],
["offset.MaxOffset","offset.SquareMaxOffset","offset.MaxSEDOffset","offset.SqureMaxSEDOffset"])

add("C04","Splitting a piece partitions it exactly and never disturbs its source",
"Splitting a piece at its highest-scoring vertex or at a set of vertex indices yields pieces that start and end where the original does, meet end to end exactly at the requested interior indices, and carry exactly the source vertices of their range. Requested indices outside the open range of the piece are ignored, and duplicates or unordered requests make no difference. Splitting leaves the original piece, its coordinates and its owner unchanged, and the parts belong to the same owner.",
["inputs"],"all pieces, ranges and index lists",
"Tests split a few fixed ranges; boundary indices, duplicates and shared backing storage are not covered for every input.",
["split/split.go","rng/split.go","rng/rng.go","node/node.go"],
[("range splitting over a sorted index set","rng/split.go Split"),("sub-piece coordinates by slicing relative to the range start","split/split.go AtIndex, AtScoreSelection")],
["rng.Rng.Split","split.AtIndex","split.AtScoreSelection"])

add("C05","Merging joins only touching pieces, within threshold, without corrupting them",
"Two pieces are merged only if one ends where the other starts, and the merged piece spans exactly both ranges and carries exactly the vertices of the first followed by those of the second with the shared vertex once. A merge happens only when the merged piece's deviation satisfies the threshold and the junction is not a protected vertex, and no piece is consumed by two merges. Merging, or attempting to merge, leaves the coordinates of both source pieces and of the line they come from unchanged.",
["inputs","histories"],"all pairs and lists of pieces, in either order, all thresholds and protected sets",
"Tests merge a few pieces once; shared backing arrays, argument order and the interaction of several merges need every input.",
["merge/merge.go","constdp/node_aggregates.go","rng/contig.go"],
[("contiguity check and capped append","merge/merge.go ContiguousCoordinates"),("threshold before merge","merge/merge.go ContiguousFragmentsAtThreshold"),("merged dictionary and protected vertices","merge/merge.go ContiguousFragmentsBySize")],
["merge.Range","merge.ContiguousCoordinates","merge.ContiguousFragmentsAtThreshold","merge.ContiguousFragmentsBySize","(*constdp.ConstDP).AggregateSimpleSegments"])

add("C06","Geometric relation constraint: intersections with context are preserved",
"When the geometric relation option is on, a piece is accepted exactly if, for every nearby context geometry, its replacement segment intersects the geometry if and only if the original sub-line does. After simplification every retained piece satisfies this with respect to every constraint geometry. With the option off the relation never causes a piece to be refined.",
["inputs","configurations"],"all pieces, any number and order of context geometries",
"Tests use a few fixed contexts; acceptance must depend on all of them, in any order.",
["relate/geom.go","constrain/bygeom.go","constdp/validate.go","constdp/simple_0.go"],
[("equivalence of both intersection tests over all contexts","relate/geom.go IsGeomRelateValid"),("validation gate","constdp/validate.go ValidateContextRelation")],
["relate.IsGeomRelateValid","(*constdp.ConstDP).ValidateContextRelation","(*constdp.ConstDP).Simplify"])

add("C07","Distance relation constraint: minimum distance to context is preserved",
"When the distance relation option is on, a piece is accepted exactly if, for every nearby context geometry, its replacement segment is at least the minimum distance away or the original sub-line already was closer than the minimum distance. After simplification no retained piece comes closer than the minimum distance to a constraint geometry from which the original sub-line kept it. With the option off the relation never causes a piece to be refined.",
["inputs","configurations"],"all pieces, contexts and minimum distances",
"Tests use fixed distances; boundary equality and several contexts with mixed outcomes need every input.",
["relate/dist.go","constrain/bymindist.go","constdp/validate.go"],
[("threshold test over all contexts","relate/dist.go IsDistRelateValid"),("context search radius is the minimum distance","constdp/validate.go ValidateContextRelation")],
["relate.IsDistRelateValid","(*constdp.ConstDP).ValidateContextRelation","(*constdp.ConstDP).Simplify"])

add("C08","Sidedness (homotopy) constraint: context stays on the same side",
"When the sidedness option is on, a piece is accepted only if its sub-line can be continuously collapsed to its replacement segment, keeping its ends fixed, without passing over a context geometry; a context that only one of sub-line and segment touches makes it invalid, and contexts touched by both are ignored. A vertex of the sub-line is collapsed only if the triangle with its two current neighbours meets no remaining context. Without remaining contexts the piece is always accepted, and the verdict never alters the line or the contexts.",
["inputs","configurations"],"all sub-lines and context sets",
"Tests contain a few hand-made shapes; the collapse chain must be right for every order of removals.",
["homotopy/homotopy.go","homotopy/deform.go","homotopy/chain.go","relate/sidedness.go","relate/dir.go","constrain/byside.go"],
[("partition of contexts into disjoint, shared and one-sided","homotopy/homotopy.go filterContext"),("doubly linked vertex chain with removals","homotopy/chain.go"),("triangle test against indexed contexts","homotopy/deform.go")],
["homotopy.Homotopy","relate.IsDirRelateValid","(*constdp.ConstDP).ValidateContextRelation"])

add("C09","Planar self-intersections and shared junction vertices are retained",
"When planar self-intersection preservation is on, every vertex of a line that coincides in position with another vertex of the same line is retained in its simplification. When lines are simplified together as a feature class, every vertex whose position is shared with another vertex of any line of the class is retained in each line that has it. Vertices whose position occurs once are never reported as self-intersections or junctions.",
["inputs","configurations"],"all lines and feature classes, any number of coincident vertices, any position in the line",
"Tests contain a few lines with one or two crossings; groups of any size at any position need every input.",
["lnr/self.go","lnr/fc.go","lnr/vertices.go","constrain/toself.go","constrain/split.go","constdp/fc_simplify.go"],
[("sorted sweep grouping coincident points","lnr/self.go planarIntersects"),("sweep across all lines","lnr/fc.go FCPlanarSelfIntersection"),("split at intersection vertices","constrain/split.go splitAtSelfIntersects")],
["lnr.SelfIntersection","lnr.FCPlanarSelfIntersection","constrain.ToSelfIntersects","(*constdp.ConstDP).Simplify","constdp.SimplifyFeatureClass"])

add("C10","Non-planar self-crossings are found and kept in place",
"When planar and non-planar self-intersection preservation are on, every pair of segments of a line that cross away from their shared vertices is reported once per crossing point with the ends of both segments, and these ends are retained in the simplification. A pair that meets only at a vertex of both is not reported. Each crossing pair is reported regardless of the order in which its segments are met.",
["inputs","configurations"],"all lines, any number of crossings",
"Tests contain a few crossing lines; completeness is over every pair of segments of every line.",
["lnr/self.go","constrain/toself.go","constrain/split.go","geometry/pln.go"],
[("segment index and pair cache","lnr/self.go nonPlanarIntersection, cacheKey"),("ends of both segments protected","constrain/toself.go ToSelfIntersects")],
["lnr.SelfIntersection","constrain.ToSelfIntersects","(*constdp.ConstDP).Simplify"])

add("C11","Avoiding new self-intersections forgets no conflict",
"When avoidance of new intersections is on, examining a piece against the other pieces near it selects every piece that takes part in a conflict: a contiguous pair that overlaps beyond its shared vertex selects each member that is not collapsible towards the other, and a non-contiguous pair selects those whose replacement segments cross where the original sub-lines do not, or whose crossing would move farther than the allowed displacement. The examined piece is rejected exactly if it is itself selected, conflicts of different lines never hide each other, and a line changed since its last complete simplification is checked against its own pieces as well as against those of other lines.",
["inputs","configurations"],"all pieces and neighbourhoods, within one line and across lines",
"Tests examine a few neighbourhoods of one line; losing one of several simultaneous conflicts needs specific combinations.",
["deform/ln.go","deform/cls.go","deform/contig.go","deform/noncontig.go","constrain/byself.go","constrain/bycls.go","node/contig.go","node/collapse.go","state/state.go"],
[("collection of candidates from all neighbours","deform/ln.go Select; deform/cls.go SelectFeatureClass"),("pairwise candidate rules","deform/noncontig.go, deform/contig.go"),("dirty flag","state/state.go")],
["deform.Select","deform.SelectFeatureClass","constrain.BySelfIntersection","constrain.ByFeatureClassIntersection"])

add("C12","The spatial index holds exactly what was loaded and not removed",
"After any sequence of loads (of any size, including empty ones), removals and clears, listing the index returns exactly the pieces loaded and not removed since, each once. A box search returns exactly those whose box intersects the query box, a collision query is true exactly if there is such a piece when the query is not degenerate, and removing an absent piece changes nothing. Every internal box encloses the boxes below it.",
["inputs","histories"],"all histories of load, remove, clear and search on any boxes",
"Tests run a few fixed histories; node splits, merges of trees of different heights and condensing depend on the history.",
["hdb/load.go","hdb/build.go","hdb/insert.go","hdb/split.go","hdb/remove.go","hdb/search.go","hdb/select.go","hdb/util.go","hdb/mbr.go","hdb/collides.go","hdb/clear.go","hdb/dbnode.go"],
[("bulk load and insertion at level","hdb/load.go Load"),("overflow split","hdb/split.go"),("removal and condensing","hdb/remove.go"),("pruned traversal","hdb/search.go")],
["(*hdb.Hdb).Load","(*hdb.Hdb).Remove","(*hdb.Hdb).Search","(*hdb.Hdb).All","(*hdb.Hdb).Collides","(*hdb.Hdb).Clear"])

add("C13","Neighbour queries return exactly the pieces within reach",
"A neighbour query for a piece returns exactly the other pieces of the index whose geometry is within the given distance, never the piece itself. A context query returns exactly the indexed geometries within the given distance of the query geometry, in order of non-decreasing distance, each once. The preceding and following neighbour of a piece are the pieces that end where it starts and start where it ends.",
["inputs","histories"],"all index contents, query geometries and distances",
"Tests query a few fixed sets; pruning errors appear only for particular layouts of the index.",
["knn/knn.go","knn/neighbours.go","hdb/knn.go","hdb/kobj.go","node/contig.go"],
[("best-first search with distance predicate","hdb/knn.go Knn, knn/knn.go"),("filter by identity and distance","knn/neighbours.go NodeNeighbours"),("contiguous neighbours","node/contig.go Neighbours")],
["knn.NodeNeighbours","knn.ContextNeighbours","(*hdb.Hdb).Knn","node.Neighbours"])

add("C14","Every configuration option governs exactly the behaviour it names",
"Each field of the JSON configuration (base64-encoded or from a file) reaches the algorithm unchanged under its documented name, and no option leaks into another. The simplification type selects the distance metric for \"dp\" and the synchronised metric for \"sed\" and nothing else is accepted. A context constraint that is off is not evaluated into the verdict, and a piece is accepted by the context checks exactly if every enabled constraint accepts it.",
["configurations","inputs"],"all combinations of options and values",
"Tests decode one sample configuration; swapped or dropped fields need combinations the tests never build.",
["cfg.go","offset.go","main.go","constdp/validate.go","constdp/constructor.go","dp/dp.go","opts/opts.go"],
[("field mapping","cfg.go optsFromCfg"),("metric table","offset.go"),("constraint gate","constdp/validate.go ValidateContextRelation")],
["main.optsFromCfg","main.parseInput","main.offsetDictionary","(*constdp.ConstDP).ValidateContextRelation"])

add("C15","GeoJSON in, GeoJSON out: one feature per linear input, complete and in order",
"For every input file, each linear feature (a line or multi-part line, on an input line of its own or inside a feature collection) yields exactly one output feature, in input order, whatever other kinds of feature or features without geometry stand between them. The output feature carries the properties of its input, has one part per input part in the same order, and each part's coordinates are the retained vertices of that part, in two or three dimensions as in the input. Features of one part come out as lines, features of several parts as multi-part lines.",
["inputs"],"all sequences of GeoJSON geometries and features",
"Tests decode two small files; skipped inputs, many parts and more than ten features need particular inputs.",
["geometry/geojson.go","geometry/geojson_geom.go","geometry/pln.go","encode.go","simplify.go","main.go"],
[("feature and part ids","geometry/geojson.go composeId, encode.go indexPos"),("grouping by feature, ordering by part","encode.go groupPlnsAsGeoJSONS"),("coordinate extraction","encode.go extractCoords")],
["geometry.ReadInputPolylines","main.groupPlnsAsGeoJSONS","main.createGeoJSONString"])

add("C16","Parallel processing covers every item exactly once, independent of scheduling",
"Dividing work among workers yields chunks that together contain every item exactly once in the original order, for any number of items and any concurrency. Simplifying a set of independent lines in parallel simplifies each line exactly once, with its own protected vertices, and the retained vertices of each line are the same under every schedule and equal to simplifying it alone. Finding the pieces to refine reports every invalid piece and no other, under every schedule.",
["schedules","inputs"],"all schedules of the workers, all numbers of items and workers",
"Tests run one schedule on small inputs; lost, duplicated or misattributed items need particular counts or interleavings.",
["constdp/simple_0.go","constdp/fc_simplify.go"],
[("chunking","constdp/simple_0.go chunkTasks, chunkInstances"),("stream and worker pool","constdp/fc_simplify.go SimplifyInstances"),("collection of selections","constdp/simple_0.go processConstSimplification")],
["constdp.SimplifyInstances","constdp.SimplifyFeatureClass","constdp.chunkTasks"])

add("C17","Refinement always progresses and replaces exactly the rejected pieces",
"Every refinement round replaces each rejected piece that has an interior vertex by exactly two non-empty pieces that meet at an interior vertex of it and together cover it, hands on any other rejected piece unchanged, and marks its line as changed. The rejected pieces leave the index and the new pieces enter it, so the round ends with the same line covered by strictly more pieces. Refinement therefore ends for every input, at the latest with single segments.",
["inputs","histories"],"all sets of rejected pieces, all score functions that report an interior vertex",
"Tests run a few refinements; progress must hold for every selection and piece size.",
["constdp/simple_1.go","constdp/simple_2.go","constdp/simplify.go","split/split.go"],
[("split of every selected piece","constdp/simple_1.go deformNodes"),("index clean-up","constdp/simple_2.go cleanUpDB")],
["constdp.deformNodes","constdp.cleanUpDB","(*constdp.ConstDP).Simplify"])

add("C18","In a feature class every piece returns to the line that owns it",
"After a feature class is simplified with constraints, each line holds exactly the final pieces that were cut from it and no piece of another line. Its retained vertices are exactly the ends of these pieces. Lines without any rejected piece keep their pieces unchanged.",
["inputs","histories"],"all feature classes, any order of pieces in the index",
"Tests use feature classes of a few lines and compare recorded answers only.",
["constdp/fc_group.go","constdp/fc_simplify.go"],
[("grouping by owner identity","constdp/fc_group.go groupHullsByFC")],
["constdp.SimplifyFeatureClass","constdp.groupHullsByFC"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    s=p['statement']; print(p['id'],len(p['title']))
