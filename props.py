prop("C01", "Output vertices are an ordered subset of the input vertices with both ends",
 "Every simplified line consists of vertices of its input line, in input order, each used once, with their coordinates unchanged. The first and the last vertex of the input line are always retained.",
 ["inputs", "configurations"], "every line of two or more vertices (repeated vertices, closed rings and self-crossing lines included), every combination of options, thresholds and context objects, both simplification types, alone or in a feature class",
 "The tests simplify about a dozen fixed lines under a few option sets and compare with stored results; 64 option combinations x all line shapes are out of their reach.",
 FLOW + ["dp/dp.go", "decompose/decompose.go", "simplify.go"],
 [m("hulls partition the index range; retained indices are hull end points", "constdp/simplify.go Simplify"), m("output coordinates are a view on the input", "simplify.go setSimpleCoords")],
 TECH, BOUND, ["output file records", "retained index set of an instance"])
prop("C02", "Dropped vertices stay within the threshold of the simplified line (DP)",
 "With simplification type DP, every vertex that is dropped lies within the threshold distance of the output segment that replaces the stretch it belonged to. This holds whatever constraints are enabled.",
 ["inputs", "configurations"], "every line, threshold >= 0, option combination and context, alone or in a feature class",
 "Tests compare stored outputs and never measure the offset of dropped vertices, in particular not in pieces produced by constraint splits and merges.",
 FLOW + ["offset/dp.go", "decompose/decompose.go", "merge/merge.go"],
 [m("recursive decomposition until offset <= threshold", "decompose/decompose.go DouglasPeucker"), m("merges are re-validated against the score", "constdp/node_aggregates.go"), m("fragments split off by constraints are re-checked", "constdp/simple_0.go exceedsThreshold")],
 TECH, BOUND)
prop("C03", "Dropped vertices stay within the threshold of their synchronized position (SED)",
 "With simplification type SED on lines whose third coordinate is an increasing time, every dropped vertex lies within the threshold of the position that the replacing output segment has at that vertex's time. This holds whatever constraints are enabled.",
 ["inputs", "configurations"], "every line with strictly increasing times (uneven gaps, repeated positions), threshold >= 0, option combination and context, alone or in a feature class",
 "The only SED tests use two fixed trajectories and compare indices.",
 FLOW + ["offset/sed.go", "decompose/decompose.go", "merge/merge.go"],
 [m("synchronized offset score", "offset/sed.go MaxSEDOffset"), m("same decomposition, merge and fragment checks as DP", "decompose/decompose.go")],
 TECH, BOUND)
prop("C04", "geometric_relation keeps intersect/disjoint relations with context objects",
 "With geometric_relation enabled, a simplified line intersects a context object (point, line or polygon, with or without holes) if and only if the original line does.",
 ["inputs", "configurations"], "every line, threshold, set of context objects (touching, crossing, containing, in holes, far away, many), in combination with other options, alone or in a feature class, at any coordinate magnitude used in practice",
 "Relations are tested on single hulls of five fixed lines; the relation of the final line with each object is never asserted.",
 FLOW + ["constrain/bygeom.go", "relate/geom.go", "constdp/validate.go", "ctx/ctx.go", "hdb/search.go"],
 [m("per hull relation check against neighbours of the hull", "constdp/validate.go ValidateContextRelation, relate/geom.go"), m("context index query", "hdb/search.go, knn/knn.go")],
 TECH, BOUND)
prop("C05", "distance_relation keeps the minimum distance to context objects",
 "With distance_relation enabled, if the original line keeps at least the configured minimum distance from a context object, so does the simplified line.",
 ["inputs", "configurations"], "every line, threshold, minimum distance >= 0, set of context objects, in combination with other options, alone or in a feature class",
 "Tests assert the predicate on a handful of hulls, never the distance of the final line.",
 FLOW + ["constrain/bymindist.go", "relate/dist.go", "constdp/validate.go"],
 [m("per hull distance check against objects within the minimum distance", "relate/dist.go, constrain/bymindist.go")],
 TECH, BOUND)
prop("C06", "homotopy_relation keeps context objects on the same side",
 "With homotopy_relation enabled, a simplified line does not meet any context object that the original line was disjoint from. It can be deformed into the original line, end points fixed, without passing over such an object.",
 ["inputs", "configurations"], "every line (also self-crossing and winding ones), threshold, set of one to several context objects, in combination with other options, alone or in a feature class",
 "Sidedness tests look at a few fixed hulls and context points; the homotopy class of a whole line is never computed.",
 FLOW + ["constrain/byside.go", "relate/dir.go", "relate/sidedness.go", "homotopy/homotopy.go", "homotopy/chain.go", "homotopy/deform.go"],
 [m("per hull chain deformation against representative points", "homotopy/homotopy.go, relate/sidedness.go")],
 TECH + "; the oracle compares reduced crossing words", BOUND)
prop("C07", "avoid_new_self_intersects keeps simple lines simple",
 "With avoid_new_self_intersects enabled, an open line that neither touches nor crosses itself is simplified to a line that neither touches nor crosses itself.",
 ["inputs", "configurations"], "every simple open line, threshold, type, in combination with other options and context objects",
 "Tests check which hulls are selected for deformation in fixed examples; that the final line is simple is not asserted anywhere.",
 FLOW + ["deform/cls.go", "deform/contig.go", "deform/noncontig.go", "node/collapse.go", "constrain/bycls.go", "knn/knn.go"],
 [m("hulls in conflict with a neighbour are split until no conflict is left", "constdp/simple_0.go processConstSimplification, deform/cls.go"), m("collapsibility of contiguous hulls", "node/collapse.go")],
 TECH, BOUND)
prop("C08", "Disjoint features of a feature class stay disjoint, simple ones simple",
 "With is_feature_class and avoid_new_self_intersects enabled, two features that do not intersect in the input do not intersect in the output. A feature that is a simple open line stays simple.",
 ["inputs", "configurations"], "every feature class of two or more lines in any order, threshold, type, in combination with other options",
 "The feature class tests run two or three fixed classes and compare vertex counts.",
 FLOW + ["constdp/fc_simplify.go", "constdp/fc_group.go", "deform/cls.go", "deform/noncontig.go"],
 [m("deformation over one index of all hulls of the class", "constdp/fc_simplify.go SimplifyFeatureClass"), m("selection of hulls across features", "deform/cls.go SelectFeatureClass")],
 TECH, BOUND)
prop("C09", "Intersecting features stay intersecting within non_planar_displacement",
 "With is_feature_class and non_planar_self enabled, two features that intersect in the input intersect in the output. Every place where they meet in the input has a place where they meet in the output within non_planar_displacement.",
 ["inputs", "configurations"], "every feature class, threshold, displacement >= 0, with and without the other options",
 "No test checks the position of crossings after simplification.",
 ["constdp/fc_simplify.go", "constdp/simple_0.go", "deform/cls.go", "deform/noncontig.go"],
 [m("hull pairs whose lines meet are split while their segments do not meet nearby", "deform/noncontig.go nonContiguousCandidates")],
 TECH, BOUND)
prop("C10", "planar_self retains every shared vertex",
 "With planar_self enabled, every vertex at which a line passes more than once is retained at each of its passes. With is_feature_class, every vertex whose position is also a vertex of another feature is retained in all of them.",
 ["inputs", "configurations"], "every line and feature class with coincident vertices (also consecutive, repeated more than twice, or at extreme positions), threshold, in combination with all other options",
 "Tests list the junctions of two fixed networks.",
 ["lnr/self.go", "lnr/fc.go", "constrain/toself.go", "constrain/split.go", "split/split.go", "constdp/node_aggregates.go", "constdp/fc_simplify.go"],
 [m("grouping of equal positions after sorting", "lnr/self.go planarIntersects, lnr/fc.go FCPlanarSelfIntersection"), m("splitting at and never merging across these vertices", "constrain/toself.go, constdp/node_aggregates.go")],
 TECH, BOUND)
prop("C11", "non_planar_self retains the edges of self-crossings",
 "With non_planar_self enabled, whenever two edges of a line that are not adjacent meet at a point that is not a vertex of both, the end vertices of both edges are retained, so that the crossing stays exactly where it was.",
 ["inputs", "configurations"], "every line with self-crossings (proper crossings, T-touches, overlaps), threshold, in combination with all other options, alone or in a feature class",
 "One test counts the crossings of one fixed line.",
 ["lnr/self.go", "constrain/toself.go", "constrain/split.go", "split/split.go", "constdp/node_aggregates.go"],
 [m("pairwise segment intersection through an index", "lnr/self.go nonPlanarIntersection"), m("splitting at and never merging across their vertices", "constrain/split.go")],
 TECH, BOUND)
prop("C12", "Each linear input record yields its output record, other properties kept",
 "Every linear record of the input file (geometry or feature, LineString or MultiLineString) yields exactly one output record, in input order, of which every part is the simplification of the part at that place. Properties, and third coordinates of the retained vertices, are those of the input record; records that are not linear yield no record and do not disturb the others.",
 ["inputs", "histories"], "every sequence of input records of mixed kinds, dimensions and properties, alone or as feature class, with comments and blank lines",
 "There is no test of the command line program: reading, numbering and writing of records is untested.",
 ["main.go", "simplify.go", "encode.go", "geometry/geojson.go", "geometry/geojson_geom.go", "geometry/pln.go"],
 [m("records are numbered by idx / pos while read and grouped again when written", "geometry/geojson.go, encode.go groupById")],
 TECH, BOUND, ["output file records"])
prop("C13", "Lines simplified together without is_feature_class do not affect each other",
 "Without is_feature_class, the result for a line is the same whether it is simplified alone or together with any other lines, whatever they are and however many.",
 ["inputs", "configurations"], "every collection of lines, threshold, option combination and context",
 "Tests never compare a batch with single runs.",
 ["constdp/fc_simplify.go", "constdp/simplify.go", "simplify.go", "node/node.go"],
 [m("one index and one queue per instance", "constdp/simplify.go Simplify")],
 "bounded exhaustive enumeration of batches x options on the real code, metamorphic oracle (batch vs. single runs), replayed through the command line program", BOUND)
prop("C14", "The result of a feature class does not depend on the order of its features",
 "With is_feature_class, the retained vertices of every feature are the same in every order of the features in the input. Repeated runs give the same result.",
 ["inputs", "configurations", "schedules"], "every feature class, every permutation of its features, threshold, option combination and context",
 "Tests run fixed classes in one order and never compare runs.",
 ["constdp/fc_simplify.go", "constdp/fc_group.go", "constdp/simple_0.go", "deform/cls.go", "deform/noncontig.go", "lnr/fc.go"],
 [m("every round selects all hulls in conflict before any of them is deformed", "constdp/fc_simplify.go SimplifyFeatureClass, deform/cls.go SelectFeatureClass")],
 "bounded exhaustive enumeration of feature classes x permutations x options on the real code, metamorphic oracle", BOUND)
prop("C15", "The schedule of the goroutines never shows: same result, no race, no deadlock",
 "Simplifying lines together or as a feature class retains the same vertices under every schedule of the goroutines and every map iteration order. No schedule deadlocks, panics, runs forever or leaves goroutines behind after the call has returned. No two goroutines access the same memory without synchronisation, one of them writing.",
 ["schedules"], "every schedule of the worker goroutines and every map iteration order, for every set of lines, context and option combination, with the number of workers as written",
 "Tests run whatever schedule the runtime happens to produce, without the race detector.",
 ["constdp/fc_simplify.go", "constdp/fc_group.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/common.go", "deform/cls.go", "node/queue.go", "constdp/simplify.go"],
 [m("workers send conflicting hulls to one channel and the selection is used as a set after all of them have ended", "constdp/simple_0.go processConstSimplification"),
  m("channels are closed after the wait group of the workers", "constdp/fc_simplify.go SimplifyInstances"),
  m("splits are computed by a pool fed and drained through channels", "constdp/simple_1.go, fan.Stream")],
 "stateless model checking of the real code under a controlled scheduler (all schedules up to a deviation bound) with race detection on the explored schedules",
 "All schedules within the stated number of deviations from the default schedule, for the stated inputs, on a copy of the code in which go, channels, select, sync and map ranges are mechanically replaced by a cooperative scheduler. Trusted: the rewriting and scheduler in mc/cmd/instr and mc/vsched, the race detector's runtime.")
prop("C16", "Simplification always terminates with a result",
 "Simplification of lines with two or more vertices terminates with a result: no crash, deadlock or endless loop, however degenerate the lines, context objects and option values are.",
 ["inputs", "configurations"], "every line of two or more vertices (zero length, repeated vertices, spikes, overlaps, closed rings), non-negative option values from 0 to very large, alone or in feature classes of many lines",
 "Tests run well-formed lines only.",
 FLOW + ["constdp/fc_simplify.go", "deform/noncontig.go", "split/split.go", "homotopy/homotopy.go", "main.go", "simplify.go"],
 [m("deformation loops split at least one hull in each round", "constdp/simple_0.go processConstSimplification"), m("channels and workers of the pool are closed and awaited", "constdp/fc_simplify.go")],
 "bounded exhaustive enumeration of inputs x options on the real code in worker processes with a progress watchdog", BOUND)
prop("C17", "Configuration: every option has its documented effect, mistakes are rejected",
 "A configuration (file, or base64 string) with any combination of the documented options gives the simplification which these options mean, independent of the order of keys and formatting; omitted options are off. A missing input, an unknown simplification type, an unreadable file or an output that cannot be written ends the program with an error and without output; otherwise the output replaces what the file held before.",
 ["configurations"], "every combination of options, both ways of naming paths, and the listed malformed configurations",
 "cfg.go and main.go have no tests.",
 ["main.go", "cfg.go", "util.go", "offset.go", "opts/opts.go"],
 [m("JSON configuration (file or base64) decoded to options, defaults for omitted ones", "cfg.go parseInput, optsFromCfg")],
 TECH, BOUND, ["exit status and output file"])
prop("C18", "Constraint objects act the same in whichever form they are written",
 "The result of the program depends on the set of context objects only: not on their order, on whether they are plain geometries or features, on grouping into multi-part geometries or collections, or on blank lines and features without geometry between them in the constraints file.",
 ["inputs", "configurations"], "every set of constraint objects and every way of writing it",
 "The reader of constraints is not tested.",
 ["geometry/geojson.go", "geometry/geojson_geom.go", "ctx/ctx.go", "constdp/constructor.go", "main.go"],
 [m("constraint records are flattened to context geometries", "geometry/geojson.go ReadInputConstraints")],
 TECH.replace("exact integer oracle", "metamorphic oracle"), BOUND, ["output file records"])
prop("C19", "Simplifying again with other options or context equals a fresh simplification",
 "Simplifying an instance (or a feature class) repeatedly, with options, mode or context objects changed in between, gives each time the result that fresh instances give with the last options and context.",
 ["histories", "configurations"], "every history of simplify operations over a set of option values and context object sets, instance-wise and feature class-wise",
 "Tests re-run at most one instance with the same options.",
 ["constdp/constructor.go", "constdp/simplify.go", "constdp/fc_simplify.go", "dp/dp.go", "state/state.go"],
 [m("hulls, simple set and state are reset at the start of a simplification", "constdp/simplify.go Simplify")],
 "exhaustive enumeration of operation histories up to a depth on the real code, compared with fresh instances", BOUND)
prop("C20", "Without constraints the result is plain DP; idle options change nothing",
 "With no option enabled the retained vertices are those of the Douglas-Peucker decomposition (of offsets, or synchronized offsets) followed by merging of single edge pieces where the threshold permits. Options that have no occasion to act (relations without context objects nearby, planar_self without repeated vertices, non_planar_self on simple lines, a class of one line) do not change the result.",
 ["inputs", "configurations"], "every line, threshold and type",
 "Tests compare a few fixed lines with stored results.",
 FLOW + ["decompose/decompose.go", "merge/merge.go", "offset/dp.go", "offset/sed.go"],
 [m("recursive decomposition at the vertex of greatest offset", "decompose/decompose.go DouglasPeucker"), m("merging of single edge hulls", "constdp/node_aggregates.go")],
 "bounded exhaustive enumeration on the real code against a nondeterministic reference model (all tie choices enumerated)", BOUND)
UNIT = "bounded exhaustive enumeration on the exported functions of the real code (explicit-state, exact integer oracle)"
UBOUND = "Exhaustive within stated small-scope bounds on the real code; nothing is claimed about larger cases or other coordinates. Trusted: the exact integer oracles in mc/geo and mc/comp and the Go toolchain."
prop("C21", "The spatial index answers like a flat list of its items",
 "After any sequence of batch loads, removals and clears, the index holds exactly the items loaded and not removed. Box searches, collision tests and nearest-item queries, with a limit (nearest first), with a predicate that passes over items or stops the search, or with both, give the items an exhaustive scan of that list gives, each once.",
 ["histories", "inputs"], "every history of loads (any batch size), removals (in any order) and clears, every layout of boxes, every query box, limit and predicate",
 "The tests of the index load a few fixed sets; removals and repeated loads, which the simplification does for every split and merge, are sampled once.",
 ["hdb/insert.go", "hdb/load.go", "hdb/build.go", "hdb/remove.go", "hdb/search.go", "hdb/collides.go", "hdb/knn.go", "hdb/split.go", "hdb/adj.go", "hdb/select.go", "hdb/clear.go"],
 [m("bulk built trees are inserted at the level of their height", "hdb/load.go"), m("overflowing nodes are split, boxes above adjusted", "hdb/insert.go, hdb/split.go, hdb/adj.go"), m("items are found again by box and identity when removed, empty nodes condensed", "hdb/remove.go"), m("best first search with a queue of nodes", "hdb/knn.go")],
 "exhaustive enumeration of operation histories on the real code against a flat reference list, compared after every step", UBOUND,
 state=[dict(name="tree",meaning="nodes of the index with their boxes and heights",where="hdb/dbnode.go, hdb/core.go")])
prop("C22", "Neighbour queries return exactly the objects and pieces within reach",
 "A query for context objects around a piece returns, each once, exactly those whose distance to its hull is at most the given distance. A query for neighbouring pieces returns, each once and never the piece itself, exactly the pieces whose bounding box meets its bounding box and whose hull lies within the distance. The pieces before and after it on the same line are told from the others.",
 ["inputs"], "every set of objects or pieces, every query piece, every distance >= 0",
 "The tests query one fixed set of hulls.",
 ["knn/knn.go", "knn/neighbours.go", "node/contig.go", "hdb/knn.go", "hdb/search.go", "ctx/ctx.go"],
 [m("objects are ranked by box distance, kept by geometric distance", "knn/knn.go, knn/neighbours.go"), m("previous and next piece by range", "node/contig.go Neighbours")],
 UNIT, UBOUND)
prop("C23", "Ranges split, join and compare by their vertex indices",
 "Splitting a range at any list of indices (unordered, repeated, outside the range) gives consecutive ranges that cover it from start to end and meet exactly at the distinct indices inside it, or nothing if there is none; the list is not changed. Two ranges are contiguous if and only if one ends where the other starts, their merge is the smallest range covering both, and strides list every k-th index with or without the ends.",
 ["inputs"], "every range, second range, step and list of indices",
 "The tests split one range at two lists.",
 ["rng/rng.go", "merge/merge.go"],
 [m("split at sorted distinct interior indices", "rng/rng.go Split"), m("merged range", "merge/merge.go Range")],
 UNIT, UBOUND)
prop("C24", "Cutting and joining pieces neither loses nor moves vertices",
 "Cutting a piece at any list of indices or at its vertex of greatest offset, and joining two consecutive pieces in either argument order, gives pieces which hold exactly the vertices of their range, with the ends, convex hull, bounding box and line that belong to them and new ids; the pieces they are made from stay as they are. Two pieces are joined if and only if the offset of the joined piece is within the threshold. Merging the single edge fragments of a line leaves pieces that tile the line and never joins at a fixed vertex.",
 ["inputs", "configurations"], "every line, every piece, list of cuts, threshold, metric and set of fixed vertices",
 "The tests cut and join pieces of two fixed lines and compare ranges.",
 ["split/split.go", "merge/merge.go", "node/node.go", "rng/rng.go", "common/common.go"],
 [m("pieces are views of the coordinates of the line", "split/split.go, node/node.go CreateNode"), m("join when the offset is within the threshold", "merge/merge.go ContiguousFragmentsAtThreshold"), m("fragments are merged with a neighbour", "merge/merge.go ContiguousFragmentsBySize")],
 UNIT, UBOUND)
prop("C25", "Lines are decomposed at the vertex of greatest offset down to the threshold",
 "For every line of three or more vertices the offset functions (perpendicular, synchronized, and their squares) give an inner vertex whose distance from the end segment (its position at that time) is the greatest, and that distance. The unconstrained decomposition gives consecutive pieces that tile the line, are within the threshold, and are cut where the Douglas-Peucker algorithm cuts; the simple line is made of the ends of the pieces.",
 ["inputs", "configurations"], "every line (repeated vertices, closed, uneven times), threshold >= 0 and metric",
 "The tests decompose three fixed lines.",
 ["offset/dp.go", "offset/sed.go", "decompose/decompose.go", "dp/dp.go"],
 [m("largest offset and its index", "offset/dp.go, offset/sed.go"), m("recursion on the vertex of greatest offset", "decompose/decompose.go DouglasPeucker")],
 "bounded exhaustive enumeration on the real code against a nondeterministic reference algorithm (all tie choices enumerated)", UBOUND)
prop("C26", "Self-intersections found are all and only those of the line",
 "The planar self-intersections of a line are the groups of its vertices that lie at the same place, each group once with all its vertices. The non-planar ones are exactly the places which two of its edges share and which are not a vertex of both, each with the end vertices of these edges. Kinds that are not asked for are not reported; for a feature class exactly the vertices that coincide with another vertex of any feature are reported for each feature.",
 ["inputs", "configurations"], "every line (overlapping edges and repeated vertices included), both switches, every class of lines",
 "The tests compare the count or points of three fixed lines.",
 ["lnr/self.go", "lnr/fc.go", "lnr/vertices.go"],
 [m("edges in a spatial index, intersected pairwise", "lnr/self.go"), m("sorted vertices are grouped", "lnr/fc.go, lnr/vertices.go")],
 UNIT, UBOUND)
prop("C27", "Relation checks compare a piece with its end segment exactly",
 "The geometric relation of a piece is valid if and only if every given context object intersects the piece exactly when it intersects the segment between its ends. The distance relation is valid if and only if every object that keeps the minimum distance from the piece keeps it from the segment.",
 ["inputs", "configurations"], "every piece, set of point, line and polygon objects (with holes), minimum distance >= 0",
 "The tests relate five fixed pieces.",
 ["relate/geom.go", "relate/dist.go", "constrain/bygeom.go", "constrain/bymindist.go", "ctx/ctxs.go"],
 [m("intersection of line and of segment compared per object", "relate/geom.go"), m("distance of line and of segment compared per object", "relate/dist.go")],
 UNIT, UBOUND)
prop("C28", "A piece passes the side check only if no object changes sides",
 "The side (homotopy) check accepts a piece only if every given context object is met by both or neither of the piece and the segment between its ends, and the piece can be deformed into the segment, ends fixed, without passing over the objects that are not met. It does not refuse a piece when every object that intersects the convex hull of the piece is met by both piece and segment.",
 ["inputs"], "every piece (self-crossing ones included) and set of objects without holes",
 "The tests judge about twenty fixed lines.",
 ["homotopy/homotopy.go", "homotopy/chain.go", "homotopy/deform.go", "relate/dir.go", "relate/sidedness.go", "constrain/byside.go"],
 [m("vertices are removed from the chain while their triangle is empty", "homotopy/deform.go"), m("linked chain of vertices", "homotopy/chain.go"), m("objects met by one only are rejected", "relate/sidedness.go, homotopy/homotopy.go")],
 UNIT + "; reduced crossing words decide homotopy", UBOUND)
prop("C29", "Pieces in conflict are selected for deformation, others left alone",
 "Pieces whose hulls do not meet are never selected for each other. Of two pieces (of two lines, or with avoid_new_self_intersects apart on one line) whose hulls meet, both are selected if the lines intersect but not their end segments, or some crossing of the lines is further than the displacement from some crossing of the segments; none if neither lines nor segments intersect or all crossings are within the displacement; with avoid_new_self_intersects at least one if the segments cross and the lines do not. With it a piece is selected for its neighbour on the line exactly if it cannot collapse, that is if the far end of the neighbour lies inside its hull or on its segment. Among several pieces the selection is that of its pairs.",
 ["inputs", "configurations"], "every pair of pieces, displacement and option combination",
 "The tests look at the number of selected hulls of a few fixed lines.",
 ["deform/cls.go", "deform/ln.go", "deform/noncontig.go", "deform/contig.go", "node/collapse.go", "node/contig.go", "constrain/bycls.go", "constrain/byself.go"],
 [m("segments against lines, crossings against displacement", "deform/noncontig.go"), m("contiguous pieces have to be collapsible", "deform/contig.go, node/collapse.go"), m("selection per neighbour in the index", "deform/cls.go, deform/ln.go")],
 UNIT, UBOUND)
prop("C30", "Results depend neither on the unit of length and time nor on the origin",
 "Scaling all coordinates, the threshold and the distances by a power of two, scaling and shifting the times, and (for lines on which no two vertices tie for the greatest offset) shifting all coordinates, by exactly representable amounts, leaves the retained vertices the same. With any decimal coordinates the program gives what the library gives and writes the coordinates it has read.",
 ["inputs", "configurations"], "every line, class of lines, context and option set; units from 2^-10 to 2^10, shifts below 2^23",
 "All tests use coordinates of one magnitude, given as text.",
 FLOW + ["offset/dp.go", "offset/sed.go", "geometry/geojson.go", "encode.go", "knn/knn.go", "cfg.go"],
 [m("coordinates are floating point from reading to writing", "geometry/geojson.go, encode.go"), m("thresholds are compared in the unit of the coordinates", "offset/dp.go, constdp/common.go")],
 TECH.replace("exact integer oracle", "metamorphic oracle"), BOUND)
prop("C31", "Pieces are cut at every self-intersection and at every fixed vertex",
 "Cutting the pieces of a line at its self-intersections leaves consecutive pieces that tile the line, in order. They end at exactly the ends of the given pieces, the vertices that coincide with another vertex (with planar_self), the ends of the edges that cross or overlap away from a common vertex (with non_planar_self), and the vertices given as fixed. The intersection vertices and fixed ones are returned in order, each once; with both options off the pieces stay as they are.",
 ["inputs", "configurations"], "every line, every way it is cut into pieces before, both switches, every list of fixed vertices",
 "The tests cut three fixed lines.",
 ["constrain/toself.go", "constrain/split.go", "lnr/self.go", "split/split.go", "knn/knn.go"],
 [m("intersections with their vertex indices", "lnr/self.go SelfIntersection"), m("pieces near an intersection are replaced by their parts", "constrain/split.go")],
 UNIT, UBOUND)
prop("C32", "A result is made of pieces that tile the line and end at the retained vertices",
 "After lines were simplified (alone, together or as a feature class) the pieces left for each line follow each other from its first to its last vertex without gap or overlap. Each has the vertices of its range, the bounding box of these, a hull around them, its own line and a number no other piece has. The retained vertices, and those Simple lists, are the ends of these pieces. With planar_self or non_planar_self on, every vertex given as fixed (not to a class) is among them. Lines, options, context objects and the lists of fixed vertices are left as they are.",
 ["inputs", "configurations"], "every line or set of lines, options, context, way of simplification and set of vertices given as fixed",
 "Tests compare the retained vertices of a few lines; the pieces, on which the rounds of a feature class go on, and lists of fixed vertices are hardly looked at.",
 FLOW + ["constdp/fc_simplify.go", "constdp/fc_group.go", "dp/dp.go", "node/node.go", "hdb/search.go"],
 [m("pieces are replaced by their parts, or joined, in the index and collected at the end", "constdp/simplify.go Simplify, constdp/fc_group.go"), m("vertices given as fixed are cut at and kept out of joins", "constdp/node_aggregates.go AggregateSimpleSegments")],
 TECH.replace(", replayed through the command line program", "").replace("exact integer oracle", "structural invariant"), BOUND)
prop("C33", "Results depend neither on the axes nor on how context objects are listed",
 "Mirroring the plane or turning it by a quarter, lines and context objects together, leaves the retained vertices the same, for lines in general position: no two vertices tie for the greatest offset and, with avoid_new_self_intersects or non_planar_self, no line touches itself and no three vertices are collinear. Context objects may be written in any way: a ring may start at any of its vertices and run in either direction, a line may be reversed, consecutive vertices may be repeated; the result is the same, of the library and of the program.",
 ["inputs", "configurations"], "every line (or class of lines) in general position, every set of points, lines and polygons with holes, every option set",
 "The tests use each figure in one orientation and write each object in one way.",
 FLOW + ["homotopy/deform.go", "homotopy/chain.go", "relate/geom.go", "relate/dist.go", "relate/sidedness.go", "box/box.go", "knn/knn.go", "geometry/geojson.go"],
 [m("offsets and hulls treat both axes alike", "offset/dp.go, node/node.go"), m("relations look at the figure of an object, not at its list of vertices", "relate/geom.go, relate/dist.go, homotopy/homotopy.go")],
 TECH.replace("exact integer oracle", "metamorphic oracle"), BOUND)
