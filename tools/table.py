prop("S01", "Two segments are reported to intersect exactly when they share a point",
 "Intersecting two line segments reports something if and only if the closed segments have at least one point in common, including touching end points, T-junctions, collinear overlaps and segments of zero length. The same holds for a point against a segment. This holds also for coordinates scaled by a thousand or a thousandth (2^10, 2^-25) or shifted away from the origin.",
 "all pairs of segments (and a segment and a point) with coordinates within the bound", "the tests try a few hand-picked pairs; degenerate, touching, collinear and zero-length combinations have many cases each depending on order and sign",
 [("parametric intersection and collinear case", L2, "Line2::intersection_point"), ("end-point order of an overlap", L2, "Line2::precedes"), ("point against segment", L2, "fn intersect_line_point")],
 note="three end points free on 0..=6² (thorough 0..=8²), all four on 0..=2² (0..=3²), scaled and shifted grids")
prop("S02", "A reported intersection lies on both segments and is the whole common part",
 "The point reported for two intersecting segments lies on both segments; a reported overlap is a part of both, is not a single point and covers everything they have in common, and collinear segments sharing more than a point are reported as an overlap. The answer does not depend on the order of the segments or the direction in which they are given.",
 "all pairs of intersecting segments with coordinates within the bound", "the tests look at a handful of results; the place depends continuously on all eight coordinates and the overlap on the order of four points",
 [("intersection location and overlap", L2, "Line2::intersection_point"), ("overlap end points", L2, "Line2::precedes"), ("point against segment", L2, "fn intersect_line_point"), ("single / closest", L2, "Intersection::single")],
 note="exact up to the rounding of the division, which the encoding bounds and the native replay judges")
prop("S03", "Line string against a line: first, first two and all intersections agree",
 "For a line string and a line segment, the list of all intersections has one entry for each segment of the line string that meets the line, in order; the first-intersection query reports the first of them, and the two-intersections query reports two different locations exactly when there are two. Every reported location lies on the line and the line string, and the closest end of an overlap is the closer one.",
 "all line strings of two (three) segments and all lines with coordinates within the bound, without zero-length segments or immediate fold-backs", "the tests fix few line strings; shared vertices make neighbouring segments report the same location, which only some inputs show",
 [("first intersection", L2, "LineString2::intersection"), ("two intersections", L2, "LineString2::find_two_intersections"), ("all intersections", L2, "LineString2::find_all_intersections"), ("single / closest", L2, "Intersection::closest")],
 note="no zero-length segments, no segment folding back on the previous one")
prop("S04", "A ray hits an edge exactly when it meets it, and the closest hit is closest",
 "A ray reports a hit with an edge exactly when some point at a non-negative distance along the ray lies on the edge, with the exact ray parameter of the first such point; this includes edges lying along the ray and edges that are a single point. The closest hit of a ray with a line string is a point on the line string strictly in front of the origin with no nearer one, and is missing only when there is none.",
 "all edges, origins and directions within the bound, line strings of up to three edges", "the tests sample a few rays; hits at vertices, behind the origin and several hits at different distances each need their own input",
 [("ray against edge", L2, "LineString2::ray_edge_intersection"), ("closest hit", L2, "LineString2::closest_ray_intersection")],
 note="directions on -2..=2² (edge query) and four directions (closest query); closest query: no edge along the ray on both sides of its origin")
prop("H01", "The Graham scan returns the convex hull of any points",
 "For any finite set of points the hull is a closed, strictly convex, counter-clockwise polygon made of input points that contains every input point, without repeated vertices. Duplicates, collinear points and the order of the input do not matter; when all points lie on one line the result is the two extreme points, of a single location that location, of nothing nothing.",
 "all point sets within the bound, in any order, with duplicates and collinear runs", "the tests use a few fixed and random sets in general position; duplicates, ties in angle and collinear runs are measure-zero for random points",
 [("angular sort and scan", HULL, "fn graham_scan"), ("without atan2", HULL, "fn graham_scan_wo_atan2"), ("start point", HULL, "fn find_lowest_x"), ("trait entry", L2, "LineString2::convex_hull")],
 note="3-5 points free (also at seven scales and offsets), templates of 7 points plus 1-2 free points, 17-25 points with one free")
prop("H02", "Gift wrapping returns the convex hull of any points",
 "Gift wrapping, on points or on indices into a vertex list, returns a closed, strictly convex, counter-clockwise polygon of input points that contains every input point and always terminates. Duplicates, collinear points, the order of the input and unused vertices in the list do not matter.",
 "all point sets within the bound, in any order, with duplicates and collinear runs", "gift wrapping can loop forever or skip points only when points coincide or are collinear, which the tests' random points never are",
 [("gift wrapping", HULL, "fn gift_wrap"), ("indexed gift wrapping", HULL, "fn indexed_gift_wrap_no_loop"), ("start point", HULL, "fn indexed_find_lowest_x")],
 note="3-5 points free (also at seven scales and offsets), templates of 7 points plus 1-2 free points, 17-25 points with one free")
prop("H03", "The parallel hull equals the hull for every chunking and work split",
 "The hull computed in parallel is the same convex hull that the sequential algorithms give - closed, strictly convex, counter-clockwise, containing every input point - for every chunk size and for every way the parallel runtime splits and recombines the work. It always terminates.",
 "all point sets within the bound, chunk sizes, and splitting trees of the parallel reduction", "the tests run one thread-pool split per input; which partial hulls are combined depends on scheduling and chunk size, and the combination step has many tangent cases",
 [("parallel map-reduce", HULL, "fn convex_hull_par"), ("combining two hulls", HULL, "fn combine_indexed_convex_hull"), ("partial hulls", HULL, "fn indexed_graham_scan_no_loop")], over=("inputs", "schedules"),
 note="up to 25 points with one free; rayon's splitting decisions are symbolic choices enumerated exhaustively; the points are solver variables")
prop("H04", "The indexed Graham scan returns the convex hull of any selection of vertices",
 "Given a vertex list and any selection of indices into it, the result is a closed list of selected indices forming a strictly convex, counter-clockwise polygon that contains every selected point. Unselected vertices, duplicates, collinear points and the order of the selection do not matter.",
 "all selections of points within the bound", "the tests use fixed and random sets in general position; duplicated lowest points and equal angles need exact coincidences",
 [("indexed scan", HULL, "fn indexed_graham_scan"), ("scan without closing", HULL, "fn indexed_graham_scan_no_loop"), ("start point", HULL, "fn indexed_find_lowest_x")],
 note="3-5 points free (also at seven scales and offsets), templates of 7 points plus 1-2 free points, 17-25 points with one free")
prop("H05", "Point-in-hull tests agree with the polygon for every point",
 "For a strictly convex counter-clockwise polygon, closed or not and starting at any vertex, the inclusive test says yes exactly for points inside or on the boundary, and the exclusive test exactly for points strictly inside. An empty hull contains nothing and the hull of one point only that point. The line string methods ask for a closed line string and otherwise say no. Scaling or shifting the coordinates does not matter.",
 "all query points against polygons of 3 to 12 vertices and all convex triangles, quadrilaterals (pentagons) against a point within the bound", "the binary search over the fan has a case for each wedge and its borders; tests check a few points of a few hulls",
 [("inclusive", HULL, "fn contains_point_inclusive"), ("exclusive", HULL, "fn contains_point_exclusive"), ("trait", L2, "LineString2::contains_point_inclusive")],
 note="10 given polygons with a free point; free polygons with a fixed point")
prop("H06", "Hull-in-hull tests agree with the polygons, sequentially and in parallel",
 "For two closed convex polygons the containment test says yes exactly when every vertex of the second lies inside or on the boundary of the first. The parallel variant gives the same answer for every split of the work.",
 "all positions of the inner polygon, and all splits of the work, within the bound", "the tests check a few nested hulls with one split",
 [("sequential", HULL, "fn contains_convex_hull"), ("parallel", HULL, "fn contains_convex_hull_par"), ("point test", HULL, "fn contains_point_inclusive")], over=("inputs", "schedules"),
 note="10 outer polygons; inner polygons of 1-5 vertices at any grid position (thorough: any triangle)")
prop("H07", "Orientation tests are exact and consistent",
 "For three points the orientation is left, right or collinear exactly as the sign of the signed area says, the left tests agree with it and the cross product has the exact value. Exchanging two points flips it and rotating the three points keeps it, also for scaled or shifted coordinates.",
 "all point triples within the bound", "the tests check a handful of triples; the sign near zero decides every hull algorithm",
 [("orientation", HULL, "fn point_orientation"), ("left tests", HULL, "fn is_point_left"), ("cross product", HULL, "fn cross_2d")],
 note="coordinates on 0..=31 (thorough 0..=255), scaled by 2^10 or 2^-25 or shifted by -4096")
SWM = [("event loop", SW, "IntersectionData::compute"), ("event handling", SW, "fn handle_event"), ("neighbour search", SW, "fn find_new_events"), ("candidates beside the event", SW, "struct MinMaxSlope / SiteEvent")]
ISWM = [("event loop", ISW, "IntersectionTester::compute"), ("event handling", ISW, "fn handle_event"), ("neighbour search", ISW, "fn find_new_events"), ("candidates beside the event", ISW, "struct MinMaxSlope / SiteEvent")]
WT = "all sets of up to 3 free segments, and 5 segments of which one is free, within the bound; with and without ignoring end points"
WW = "the sweep keeps state across events; several segments through one point, horizontals and touching ends only misbehave in particular combinations that the tests' fixed sets do not contain"
prop("W01", "The sweep finds every intersection among many segments",
 "Intersecting many segments at once reports, for every two segments that share a point, an intersection that lists both of them, and every segment passing through a reported point is listed there. When end-point intersections are ignored this is required for pairs meeting at a point interior to at least one of them.",
 WT, WW, SWM, note="segments of non-zero length; with ignoring, no two coincide")
prop("W02", "The sweep reports no false or repeated intersections",
 "Every intersection reported for many segments lists at least two different existing segments, lies on all of them, and is reported once. When end-point intersections are ignored, the point is interior to at least one of the listed segments.",
 WT, WW, SWM, note="segments of non-zero length; with ignoring, no two coincide")
prop("W03", "The indexed sweep finds every intersection among many segments",
 "Intersecting segments given as vertex index pairs reports, for every two segments that share a point, an intersection that lists both of them, and every segment passing through a reported vertex is listed there. When end-point intersections are ignored this is required for pairs meeting at a point interior to at least one of them.",
 WT, WW, ISWM, note="segments of non-zero length; with ignoring, no two coincide")
prop("W04", "The indexed sweep reports no false or repeated intersections",
 "Every intersection reported for segments given as vertex index pairs lists at least two different existing segments, lies on all of them, and is reported once; the input vertices come back unmoved and in place and every reported index exists. When end-point intersections are ignored, the point is interior to at least one of the listed segments.",
 WT, WW, ISWM, note="segments of non-zero length; with ignoring, no two coincide")
prop("W05", "The plain and the indexed sweep agree",
 "For the same segments the plain and the indexed algorithm report the same intersections (positions up to rounding) in the same order with the same segments listed. Whether the segments share vertex indices makes no difference.",
 WT, "no test runs both on the same input", SWM[:1] + ISWM, note="separate vertices and chains sharing vertices")
prop("W06", "Sweep results do not depend on hash-table iteration order",
 "The intersections reported by the plain and the indexed algorithm, their order and the segments listed are the same for every seed of the internal hash tables.",
 "all hash seeds modelled (four), 5 segments of which one is free within the bound", "hash seeds are random per process, and a test sees one of them",
 SWM[:3] + ISWM[:3], over=("inputs", "configurations"), note="four fixed hash keys chosen per table")
prop("W07", "Stopping at the first intersection gives the first one; results are ordered",
 "Intersections are reported in order of position (by y, then x), each once. When asked to stop at the first intersection, the result is exactly the first of the full result, and is empty only if the full result is.",
 WT, "the tests look at the presence of some intersections, not at the order or at early stopping for each input",
 SWM[:1] + ISWM[:1], note="plain and indexed")
prop("W08", "Adding segments in batches is the same as adding them at once",
 "Segments given to the plain or the indexed sweep in several calls, in any division and with options set in between, give the same intersections with the same segment numbers (counted over all calls) as the same segments given in one call.",
 "all ways of adding segments in up to three batches, and all segments within the bound", "the tests add all segments in one call",
 [("plain batches", SW, "IntersectionData::with_lines"), ("indexed batches", ISW, "IntersectionTester::with_edges")], over=("inputs", "histories"), note="3 segments of which one is free (thorough 5)")
prop("L01", "A line string is said to self-intersect exactly when it does",
 "A line string is reported as self-intersecting exactly when two of its segments share a point that is interior to at least one of them or coincide entirely; consecutive segments sharing their common vertex and closing a ring do not count. This holds on both sides of the size at which the algorithm changes from pairwise to sweeping.",
 "all line strings of 3 to 5 points, and of 9 and 11 points with one vertex free, within the bound", "folding back, touching a vertex and overlapping are exact coincidences no random test reaches; the two algorithms are never compared",
 [("decision and switch of algorithm", L2, "LineString2::is_self_intersecting"), ("consecutive segments", L2, "Line2::intersection_point3"), ("sweep", SW, "IntersectionData::compute")],
 note="consecutive points differ; from 10 points on no two segments coincide (known finding)")
SAME = "the tests compare a few fixed line strings with expected outputs"
prop("R01", "2D line simplification by distance keeps the line within the tolerance",
 "Simplifying a 2D line string by distance keeps the first and last point and otherwise an in-order selection of the input points, and every dropped point lies within the tolerance of the segment that replaces it. It is exactly the recursion of Ramer-Douglas-Peucker: a stretch is split at a farthest point as long as that is farther than the tolerance. Closed rings stay closed.",
 "all 2D line strings of up to 5 points and tolerances within the bound", SAME + "; ties, points beyond the ends of a segment, points exactly at the tolerance and repeated points are never sampled",
 [("2D entry and rings", L2, "LineString2::simplify_rdp"), ("recursion", SIM, "fn simplify_rdp_recursive"), ("distance", L2, "fn distance_to_line_squared_safe")], note="number of points, grids and tolerances per harness in the evidence")
prop("R02", "3D line simplification by distance keeps the line within the tolerance",
 "Simplifying a 3D line string by distance keeps the first and last point and otherwise an in-order selection of the input points, and every dropped point lies within the tolerance of the segment that replaces it. It is exactly the recursion of Ramer-Douglas-Peucker: a stretch is split at a farthest point as long as that is farther than the tolerance. Closed rings stay closed.",
 "all 3D line strings of up to 4 points and tolerances within the bound", SAME + "; ties, points beyond the ends of a segment, points exactly at the tolerance and repeated points are never sampled",
 [("3D entry and rings", L3, "LineString3::simplify_rdp"), ("recursion", SIM3, "fn simplify_rdp_recursive"), ("distance", L3, "fn distance_to_line_squared_safe")], note="number of points, grids and tolerances per harness in the evidence")
prop("R03", "Indexed line simplification gives the plain result on any index list",
 "Simplifying a line string given as a list of indices into vertices returns an in-order selection of those indices, with the end indices kept and every dropped vertex within the tolerance of the segment that replaces it, in 2D and 3D. It never panics, whatever the list: empty, a single index, repeated indices, closed rings. The selected vertices are those the plain algorithm selects from the same points.",
 "all index lists listed and all vertices and tolerances within the bound", SAME + "; empty, repeated and ring-shaped index lists have their own cases",
 [("2D indexed", SIM, "fn indexed_simplify_rdp"), ("3D indexed", SIM3, "fn indexed_simplify_rdp")], note="index lists are enumerated, vertices are solver variables")
prop("V01", "2D simplification by area removes the least important points, as many as asked",
 "Removing points from a 2D line string by area returns an in-order selection of the input that keeps the first point (and for open line strings the last), drops no more points than asked for, and always drops the points whose triangle with its current neighbours has the smallest area at that moment. Exactly the requested number is removed as long as two inner points remain.",
 "all 2D line strings of up to 6 points (7 on a function graph), open and closed, and all numbers of points to remove within the bound", SAME + "; equal areas and areas updated after a removal are what the algorithm's bookkeeping gets wrong",
 [("2D entry", L2, "LineString2::simplify_vw"), ("removal queue", SIM, "fn simplify_vw"), ("triangle area", L2, "Line2::triangle_area_squared_times_4")], note="closed rings losing their closing point is a known finding")
prop("V02", "3D simplification by area removes the least important points, as many as asked",
 "Removing points from a 3D line string by area returns an in-order selection of the input that keeps the first point, drops no more points than asked for, and always drops the points whose triangle with its current neighbours has the smallest area at that moment. Exactly the requested number is removed as long as enough points remain.",
 "all 3D line strings of up to 5 points (6 on a function graph) and all numbers of points to remove within the bound", SAME + "; equal areas and areas updated after a removal are what the algorithm's bookkeeping gets wrong",
 [("3D entry", L3, "LineString3::simplify_vw"), ("removal queue", SIM3, "fn simplify_vw"), ("triangle area", L3, "Line3::triangle_area_squared_times_4")], note="the last point being removable is a known finding")
prop("P01", "Point-to-segment distances are those to the nearest point of the segment",
 "The squared distance from a point to a line segment, in 2D and 3D, is that to the nearest point of the closed segment: the perpendicular distance where the foot lies on the segment, otherwise the distance to the nearer end point. The safe variant gives the distance to the point when both ends coincide. Scaling a vector to a coordinate adds exactly the scaled vector to the point.",
 "all segments and points within the bound", "tests check few points; feet before, on and behind the segment are separate cases",
 [("2D distance", L2, "fn distance_to_line_squared"), ("2D distance, any segment", L2, "fn distance_to_line_squared_safe"), ("3D distance", L3, "fn distance_to_line_squared"), ("3D distance, any segment", L3, "fn distance_to_line_squared_safe"), ("scaling", L2, "fn scale_to_coordinate")], note="the plain variants for distinct end points")
prop("D01", "Discretising keeps every vertex and never steps further than asked",
 "Discretising a line string, in 2D and 3D, yields every vertex of it in order, ending with the last, and between two consecutive vertices equally spaced points of the segment, no further apart than the requested distance. No more steps are used than needed, and the iterator terminates.",
 "all line strings of up to 4 points and step distances within the bound", "the step count is a rounded-up square root: exact multiples, tiny segments and repeated points are edge cases tests do not sample",
 [("2D iterator", L2, "DiscreteLineSegmentIterator::next"), ("2D step", L2, "DiscreteLineSegmentIterator::initialize_step"), ("3D iterator", L3, "DiscreteLineSegmentIterator::next"), ("3D step", L3, "DiscreteLineSegmentIterator::initialize_step")], note="positive finite distances")
prop("B01", "Discretised parabolic arcs stay on the parabola and within the distance",
 "Discretising the parabolic arc between a point and a segment keeps both end points, puts every other point on the parabola (as far from the cell point as from the segment's line) in order from start to end, and leaves no chord further from the arc than the requested distance; an arc already that close to its chord is not split. The 3D version puts minus the distance to the cell point into z, also for the straight-line version. It terminates, also for arcs that end where they start.",
 "all arcs with focus and ends on the grid, for segments along the axes and a slanted one, on both sides, and three distances", "the tests print two arcs; how often an arc splits depends on every coordinate, and an arc of no length looped forever",
 [("2D arcs", L2, "VoronoiParabolicArc::discretize_2d"), ("3D arcs", L2, "VoronoiParabolicArc::discretize_3d"), ("straight version", L2, "VoronoiParabolicArc::discretize_3d_straight_line"), ("parabola and projection", L2, "VoronoiParabolicArc::parabola_y / point_projection")], note="ends of the arc on the parabola and over the segment, positive distances")
prop("A01", "2D bounding boxes are the smallest ones and their containment tests are exact",
 "A 2D bounding box built from points, in any way and order - at once, point by point, in slices, by merging boxes or from an iterator - has the smallest and largest coordinates as corners, and center and extents follow from them; without points it is empty. Containment of points, lines and other boxes holds exactly when all their points are inside or on the border, and never for or in an empty box. The outline is its four corners counter-clockwise, closed.",
 "all point sets of up to 4 points, every way of building the box, and all queries within the bound", "the tests look at a few boxes built one way; the order in which extremes arrive decides which update runs",
 [("updates", L2, "Aabb2::update_with_point / _points / _aabb"), ("corners", L2, "Aabb2::extents / center / min_max"), ("containment", L2, "Aabb2::contains_*_inclusive"), ("outline", L2, "Aabb2::convex_hull"), ("iterator, conversion", IMP2, "From for Aabb2 / Vec")])
prop("A02", "3D bounding boxes are the smallest ones and their containment tests are exact",
 "A 3D bounding box built from points, in any way and order - at once, point by point, in slices or by merging boxes - has the smallest and largest coordinates as corners, and center and extents follow from them; without points it is empty. Containment of points, lines and other boxes holds exactly when all their points are inside or on the border, and never for or in an empty box. A box made from two corners has those corners.",
 "all point sets of up to 3 points, every way of building the box, and all queries within the bound", "the tests look at a few boxes built one way; the order in which extremes arrive decides which update runs",
 [("updates", L3, "Aabb3::update_with_point / _points / _aabb"), ("corners", L3, "Aabb3::extents / center / get_low / get_high"), ("containment", L3, "Aabb3::contains_*_inclusive"), ("conversions", IMP3, "From for Aabb3")])
prop("T01", "The affine transform maps box onto box and back",
 "The transform made from two boxes moves the center of the source to the center of the destination, scales both axes by the same factor (the smaller side of the destination over the larger side of the source, sides below 1 counting as 1), keeps every point of the source box inside the destination box, and its inverse undoes it; the array versions agree with the point versions. There is no transform for an empty box and the default transform changes nothing.",
 "all boxes with a corner at the origin and all points within the bound", "tests transform a few points of a few boxes; which side is the larger decides the scale",
 [("construction", L2, "SimpleAffine::new"), ("transforms", L2, "SimpleAffine::transform_ab / transform_ba / _a"), ("identity", IMP2, "Default for SimpleAffine")])
prop("E01", "Coordinates that are not finite are rejected",
 "Where an error is promised, a NaN or infinite coordinate gives that error, wherever it is and whatever the others are: adding segments to the plain or indexed sweep, the hulls of selected vertices (gift wrapping, Graham scan, parallel), and transforming a point. A bad vertex that is not selected does no harm.",
 "all positions and kinds of bad coordinates and all other coordinates within the bound", "no test gives a NaN or an infinite coordinate",
 [("segments", SW, "IntersectionData::with_lines"), ("edges", ISW, "IntersectionTester::with_edges"), ("hulls of selected vertices", HULL, "fn indexed_gift_wrap / indexed_graham_scan / convex_hull_par"), ("transform", L2, "SimpleAffine::transform_ab / _ba / _a")], note="one bad point; 1 to 4 points (thorough 5)")
prop("Q01", "Projecting to a plane and lifting back is lossless, and planes are detected",
 "Lifting 2D points, lines or line strings into one of the three axis planes puts them in that plane, and projecting back gives the original; projecting 3D geometry that lies in the plane and lifting it gives the original, and the coordinates kept are those of the plane: for points in the order x, y, z, for line strings with y staying y. The plane of a box is found exactly when exactly one axis is flat (strictly, or within the given tolerance relative to the largest extent), and none for an empty box.",
 "all points, planes and boxes within the bound", "an exchanged axis or sign shows only for some plane and direction; tolerance borders are never sampled",
 [("points", L3, "Plane::point_to_3d / point_to_2d"), ("detection", L3, "Plane::get_plane_relaxed"), ("line strings", L2, "LineString2::copy_to_3d"), ("line strings to 2D", L3, "LineString3::copy_to_2d"), ("lines", L3, "Line3::copy_to_2d")])
prop("I01", "Iterators, closedness, counts, mapping and conversions see every point once",
 "The window iterator yields exactly one line per pair of consecutive points and the chunk iterator one per disjoint pair, in order, with lengths and remainder to match, in 2D and 3D. A line string is closed exactly when its first and last point are equal (or it is empty), and the 2D point count leaves out the repeated closing point. Applying an operation transforms every point once, and the corners of a box; lines converted from arrays have the given end points.",
 "all line strings of up to 5 points within the bound", "each length and parity is its own case",
 [("2D iterators", IMP2, "Iterator for WindowIterator / ChunkIterator"), ("3D iterators", IMP3, "Iterator for WindowIterator / ChunkIterator"), ("closedness and count", L2, "LineString2::is_connected / point_count"), ("mapping", L3, "LineString3::apply"), ("conversions", IMP2, "From for Line2")])
prop("X01", "Approximate comparison holds exactly within the tolerance",
 "Two line strings, in 2D or 3D, are equal within a tolerance exactly when they have the same number of points and every coordinate differs by at most the tolerance; with ulps comparison at default precision, distinct grid values are distinct. Two 2D lines are exactly equal when their end points are, ulps-equal in either direction, and equal within a tolerance when they are so in the same direction, and only if they are so in one of the two.",
 "all line strings of up to 3 points, pairs of lines and tolerances within the bound", "a comparison that forgets a point or coordinate is only seen by inputs differing just there",
 [("2D line strings", L2, "Approx::abs_diff_eq / ulps_eq"), ("3D line strings", L3, "Approx::abs_diff_eq / ulps_eq"), ("2D lines", IMP2, "AbsDiffEq / UlpsEq / PartialEq for Line2")])
prop("N01", "A saved OBJ file holds exactly the given lines",
 "Saving lists of 3D lines to an OBJ file and reading that file back gives one line element per given line, in order over all lists, starting and ending exactly where the line does, whatever the coordinates. Every position is written once, only positions in use are written, the object has the given name, and a file that cannot be made is an error.",
 "all sets of lines and coordinate values within the bound", "no test writes and re-reads a file; which vertices are shared and how every number is written depends on all coordinates",
 [("writing", L3, "fn save_to_obj_file")],
 note="decimal text without a precision is taken to be injective and reversible, as the standard library promises")
