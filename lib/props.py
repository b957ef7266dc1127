"""The properties: statement, anchors, and which obligations decide each of them.
lib/gen.py writes properties.jsonl and MANIFEST.json from this file."""
V = ("Gated value numbering over MIR: every public entry point and its independently written requirement (spec/src) are "
     "reduced to the same canonical form (guarded normal forms over the entry point's inputs; loops become folds and "
     "comprehensions over symbolic sequences) and compared cell by cell. Nothing is executed and no input is chosen.")
TV = "static analysis: gated value numbering (abstract interpretation of MIR to canonical guarded normal forms) against a specification crate"
NV = ("Decides equality of canonical forms for all inputs over real arithmetic; rounding, overflow and NaN are outside. "
      "Constructs outside the abstraction make an obligation undecided (reported, not an alarm).")
L2, L3 = "src/linestring_2d.rs", "src/linestring_3d.rs"

PROPS = {
    "C01": dict(
        title="A 2D bounding box is exactly the extent of what was put into it",
        statement="For any sequence of points, single points or boxes with finite coordinates added to a 2D bounding box, its low and high corner are the coordinate-wise minimum and maximum of everything added, and it is empty exactly when nothing was added. Low, high, extents, corner pair and centre all describe that same box, its outline is the closed counter-clockwise rectangle starting at the minimum, and applying an operation to the box applies it to both corners.",
        over=["inputs", "histories"], text="every box state reachable or not, every point slice of any length, every finite coordinate value",
        why="The box tests use a handful of fixed boxes; a limit that is wrong only for some order of arrival, some axis, or some history of additions is not sampled.",
        files=[L2], mech=[("accumulation of points and boxes", L2 + ": Aabb2::update_with_point, update_with_points, update_with_aabb, with_points"),
                          ("queries", L2 + ": Aabb2::high, low, extents, min_max, center, convex_hull, apply"),
                          ("conversion from point iterators and to a point list", "src/linestring_2d/impls.rs")],
        spec=["c01"], floor=15),
    "C02": dict(
        title="A 3D bounding box is exactly the extent of what was put into it",
        statement="For any sequence of points or boxes with finite coordinates added to a 3D bounding box, its low and high corner are the coordinate-wise minimum and maximum of everything added, and it is empty exactly when nothing was added. Low, high, extents and centre describe that same box, and applying an operation to it applies it to both corners.",
        over=["inputs", "histories"], text="every box state, every point slice of any length, every finite coordinate value",
        why="The tests build a few small boxes; no test relates merging, accumulation and queries for arbitrary states.",
        files=[L3], mech=[("accumulation of points and boxes", L3 + ": Aabb3::update_with_point, update_with_points, update_with_aabb, with_points"),
                          ("queries", L3 + ": Aabb3::get_high, get_low, extents, center, apply")],
        spec=["c02"], floor=8),
    "C03": dict(
        title="Bounding box containment means every coordinate lies within its limits",
        statement="A 2D or 3D bounding box contains a point exactly when every coordinate lies between the box limits or equals one within the default tolerance; it contains a line or another box exactly when it contains both of its defining points; an empty box contains nothing and is contained in nothing. A box contains every point it was extended over, also after later extensions.",
        over=["inputs", "histories"], text="all boxes, points, lines and pairs of boxes with finite coordinates",
        why="The tests check some points inside, on and outside one box; per-axis and border behaviour for all relative positions is not covered.",
        files=[L2, L3], mech=[("2D containment", L2 + ": Aabb2::contains_point_inclusive, contains_line_inclusive, contains_aabb_inclusive"),
                              ("3D containment", L3 + ": Aabb3::contains_point_inclusive, contains_line_inclusive, contains_aabb_inclusive")],
        spec=["c03"], floor=9),
    "C04": dict(
        title="Plane detection and 2D/3D copies are consistent and reversible",
        statement="A box lies in an axis-aligned plane exactly when one of its extents vanishes relative to its largest extent, and the plane reported is that of the other two axes. Copying points, lines or line strings from 2D onto a plane puts zero on the missing axis, and copying back gives exactly the same points in the same order. A line and a line string holding the same points are placed on the same axes.",
        over=["inputs"], text="all boxes, tolerances, planes, points, lines and line strings of any length",
        why="Tests convert a few fixed line strings per plane; axis mix-ups in one branch or one direction for other data go unseen.",
        files=[L2, L3], mech=[("plane detection", L3 + ": Plane::get_plane, get_plane_relaxed"),
                              ("axis mapping", L3 + ": Plane::point_to_3d, point_to_2d, Line3::copy_to_2d, LineString3::copy_to_2d"),
                              ("axis mapping 2D side", L2 + ": Line2::copy_to_3d, LineString2::copy_to_3d")],
        spec=["c04"], floor=12),
    "C05": dict(
        title="The affine transform maps box centre to box centre, and back",
        statement="A transform between two 2D boxes exists exactly when neither is empty; it maps the centre of the first box to the centre of the second with one uniform scale, namely the smallest destination side divided by the largest source side (sides shorter than one count as one). Transforming there and back, in either order, gives the original point; the array forms do exactly what the point forms do. A result that is not finite is reported as an error instead of being returned.",
        over=["inputs"], text="all pairs of boxes, all transforms, all points with finite coordinates",
        why="Tests map a few points between two pairs of boxes; the inverse law and the choice of scale for every aspect ratio are universally quantified.",
        files=[L2], mech=[("construction", L2 + ": SimpleAffine::new"), ("application", L2 + ": SimpleAffine::transform_ab, transform_ba, transform_ab_a, transform_ba_a")],
        spec=["c05"], floor=10),
    "C06": dict(
        title="Orientation predicates agree with the signed area of the triangle",
        statement="For every three points the orientation is collinear exactly when the doubled signed area equals zero within tolerance, otherwise left for positive and right for negative area. The strict and the collinear-tolerant left-of-line tests agree with it, rotating the three points keeps the area, swapping the line direction negates it, and end points of a line are never strictly left of it.",
        over=["inputs"], text="all triples of points with finite coordinates",
        why="Tests evaluate a few triples; symmetry and agreement between the predicates quantify over all triples.",
        files=["src/linestring_2d/convex_hull.rs"], mech=[("predicates", "src/linestring_2d/convex_hull.rs: point_orientation, is_point_left, is_point_left_allow_collinear, cross_2d")],
        spec=["c06"], floor=9),
    "C07": dict(
        title="Point to line distances are the distances to the nearest point",
        statement="The 2D squared distance from a point to a segment is the squared distance to the nearest point of that segment and does not depend on the direction of the segment; the 3D squared distance is that to the infinite line. The safe forms treat a degenerate segment as its point and otherwise agree with the plain forms. Moving a point along a vector by a scale moves every component by that vector times the scale.",
        over=["inputs"], text="all segments and points with finite coordinates",
        why="Tests compute a few distances, mostly in the interior of segments; clamping at either end for any direction is not sampled.",
        files=[L2, L3], mech=[("2D distance", L2 + ": distance_to_line_squared, distance_to_line_squared_safe, scale_to_coordinate"),
                              ("3D distance", L3 + ": distance_to_line_squared, distance_to_line_squared_safe")],
        spec=["c07"], floor=6),
    "C08": dict(
        title="Two segments intersect exactly where they share points",
        statement="Two non-parallel segments intersect exactly when both line parameters lie in the closed unit interval, at the point both lines share; parallel segments intersect only when collinear and overlapping, and then in the stretch between their inner end points, a stretch of length zero being a single point. A degenerate segment behaves as its point, a point meets a segment exactly when it is an end point or its distances to both ends add up to the length, and segments with disjoint bounding boxes never intersect. The representative point of a result is the point or the start of the overlap, and the closest one is nearest to the reference.",
        over=["inputs"], text="all pairs of segments with finite coordinates, degenerate ones included",
        why="The tests intersect a few dozen fixed pairs; touching, collinear, reversed and degenerate combinations form a continuum of cases.",
        files=[L2], mech=[("segment intersection", L2 + ": Line2::intersection_point, intersect_line_point"), ("result accessors", L2 + ": Intersection::single, closest")],
        spec=["c08"], floor=9),
    "C09": dict(
        title="A line string meets a segment or ray where its edges do",
        statement="The first, the first two and all intersections of a line string with a segment are the intersections of the segment with its edges, taken in edge order, nothing added and nothing dropped except repeats of the same point. A ray meets an edge where their lines cross, provided that lies on the edge and not behind the origin, and a ray along an edge meets it at the end it reaches first. The closest ray hit is the one at the smallest positive distance along the ray over all edges.",
        over=["inputs"], text="line strings of any length, all segments, rays and origins with finite coordinates",
        why="The tests intersect some hand-drawn line strings; which edge is skipped, counted twice or preferred depends on length, order and position.",
        files=[L2], mech=[("segment against all edges", L2 + ": LineString2::intersection, find_two_intersections, find_all_intersections"),
                          ("ray against edges", L2 + ": LineString2::ray_edge_intersection, closest_ray_intersection")],
        spec=["c09"], floor=10),
    "C10": dict(
        title="Line strings yield every edge exactly once, in order",
        statement="The edges of a 2D or 3D line string are exactly its consecutive point pairs, and its disconnected edges exactly the pairs of points two by two, in order; the announced number of remaining edges is the number actually produced. A line string is connected exactly when it is empty or ends where it starts, and a repeated last point is not counted twice. Applying an operation changes every point exactly once, in place and in order.",
        over=["inputs"], text="2D and 3D line strings of any length, any operation",
        why="Tests iterate over a few line strings; off-by-one errors at the ends and wrong size hints depend on length and parity.",
        files=[L2, L3], mech=[("edge iteration", "src/linestring_2d/impls.rs, src/linestring_3d/impls.rs"), ("connectivity, point count", L2 + ": LineString2::is_connected, point_count"),
                              ("applying operations", L2 + ", " + L3 + ": apply")],
        spec=["c10"], floor=14),
    "C11": dict(
        title="A convex hull contains exactly the points left of all its sides",
        statement="A triangle, a parallelogram and any affine image of a reference hexagon contain, inclusively, exactly the points on or left of all sides and, exclusively, exactly those strictly left of all sides, wherever the diagonals run. An empty hull contains nothing, a one-point hull only its point, and two different points no point. An open line string contains nothing, and a hull contains another only if it contains all of its points, the parallel and the sequential test agreeing on that.",
        over=["inputs"], text="all points, all triangles, all parallelograms, all affine images of one hexagon; hull pairs of any size for hull-in-hull",
        why="The tests probe a few points of a few hulls; points on a diagonal, on a side or just outside one form a continuum of cases.",
        files=["src/linestring_2d/convex_hull.rs", L2],
        mech=[("point in hull", "src/linestring_2d/convex_hull.rs: contains_point_inclusive, contains_point_exclusive"), ("hull in hull", "src/linestring_2d/convex_hull.rs: contains_convex_hull, contains_convex_hull_par"),
              ("method forms", L2 + ": LineString2::contains_point_inclusive, contains_point_exclusive")],
        spec=["c11"], floor=14),
    "C12": dict(
        title="Self-intersection means two edges meet outside a shared end point",
        statement="A line string of at most one edge never intersects itself. One with fewer than ten points does exactly when two consecutive edges turn back onto each other or two others meet in a point that is not an end point of both; consecutive edges at a right or wider angle never do, and an edge running back along the previous one always does. From ten points on the answer is whether the sweep over all edges, common end points ignored, finds anything.",
        over=["inputs"], text="line strings of any length with finite coordinates",
        why="The tests check some drawings; pairs of edges that are skipped, and straight or reversing joints in arbitrary directions, are not sampled.",
        files=[L2], mech=[("dispatch and pairwise test", L2 + ": LineString2::is_self_intersecting"), ("joint test", L2 + ": Line2::intersection_point3")],
        spec=["c12"], floor=5),
    "C13": dict(
        title="Simplifying by distance keeps the ends and drops only what lies close",
        statement="Simplifying a 2D or 3D line string by distance keeps its first and last point and a selection of the others in their order, and every point left out lies within the given distance of the segment between the kept points around it. A point further away than all others and than the distance is kept; when all lie within the distance of the segment between the ends only the ends stay; line strings of at most two points stay as they are. Simplifying a list of indices selects exactly the points that simplifying the listed points does, also when the list is empty, unordered or repeats points.",
        over=["inputs"], text="2D and 3D line strings and index lists, all distances and finite coordinates (decided for line strings of up to five points)",
        why="The tests simplify two or three drawings; which point a recursion keeps or loses depends on the relative distances of all points.",
        files=["src/linestring_2d/simplify.rs", "src/linestring_3d/simplify.rs", L2, L3],
        mech=[("recursion on points", "src/linestring_2d/simplify.rs, src/linestring_3d/simplify.rs: simplify_rdp_recursive"), ("recursion on indices", "src/linestring_2d/simplify.rs, src/linestring_3d/simplify.rs: indexed_simplify_rdp")],
        note=NV + " Recursive: decided for line strings of 0 to 5 points with arbitrary coordinates and arbitrary distances between them, each size by complete unrolling.",
        spec=["c13"], floor=14),
    "C14": dict(
        title="A convex hull is the counter-clockwise polygon around all points",
        statement="All hull methods, sequential or parallel, on points or on indices, return the closed counter-clockwise polygon whose corners are exactly the points not inside or on a side of the hull of the others. The order of the points, repeated points, points on a side and a closing point do not matter. At most two points are returned as they are, three that are not in line in counter-clockwise order.",
        over=["inputs", "schedules"], text="all point sets (decided for a triangle or square anywhere plus any further point, repeats, and points anywhere on the sides)",
        why="The tests build hulls of random clouds and check containment loosely; a corner lost or kept wrongly for one position of a point, or one position in the list, is not sampled.",
        files=["src/linestring_2d/convex_hull.rs", L2],
        mech=[("gift wrapping", "src/linestring_2d/convex_hull.rs: gift_wrap, indexed_gift_wrap"), ("Graham scan", "src/linestring_2d/convex_hull.rs: graham_scan, indexed_graham_scan, graham_scan_wo_atan2"),
              ("parallel hull", "src/linestring_2d/convex_hull.rs: convex_hull_par, combine_indexed_convex_hull"), ("method forms", L2 + ": LineString2::convex_hull, convex_hull_par")],
        note=NV + " Decided for point sets of up to seven points: a triangle or square at any place, one further point anywhere not within rounding of a line through two corners (all relative positions are covered symbolically), repeats and points on sides. The parallel reduction is decided both from the left without splitting and split in halves down to single chunks; other groupings are not enumerated.",
        spec=["c14"], floor=36),
    "C15": dict(
        title="Simplifying by count drops the points of smallest area one after the other",
        statement="Simplifying a 2D or 3D line string by a number of points removes the inner point whose triangle with its two neighbours is smallest, then the smallest among the triangles renewed by that removal, and so on; the other points stay in their order. The first and last point stay and a closed line string stays closed; deleting none, or having at most two points, changes nothing. An open 2D line string loses exactly the number asked for while more than two inner points are left.",
        over=["inputs"], text="2D and 3D line strings with finite coordinates (decided for up to six points and up to two removals)",
        why="The tests only count points; which points go, and whether a neighbour's triangle is renewed after a removal, depends on the relative areas of all triangles.",
        files=["src/linestring_2d/simplify.rs", "src/linestring_3d/simplify.rs", "src/linestring_2d/impls.rs", L2, L3],
        mech=[("removal queue and links", "src/linestring_2d/simplify.rs, src/linestring_3d/simplify.rs: simplify_vw"), ("triangle area", L2 + ", " + L3 + ": triangle_area_squared_times_4"),
              ("queue order", "src/linestring_2d/impls.rs, src/linestring_3d/impls.rs: Ord for PriorityDistance")],
        note=NV + " Decided by complete unrolling for line strings of up to six (2D) or five (3D) points with arbitrary coordinates, up to two removals; heap and hash map contents are followed symbolically, and the removal order is only required where the smallest triangle is unique.",
        spec=["c15"], floor=20),
    "C16": dict(
        title="Conversions and comparisons respect every coordinate",
        statement="Lines and 3D boxes made from numbers or points hold exactly these in the order given. Two 2D lines or boxes are equal exactly when each pair of corresponding coordinates agrees within tolerance, empty boxes being equal only to empty ones; lines are approximately equal when their ends agree in the same or in opposite direction. Two line strings are approximately equal exactly when they have the same number of points and every pair of points agrees.",
        over=["inputs"], text="all lines, boxes and tolerances, line strings of any length",
        why="The tests compare a few equal and different objects; a coordinate left out, or a longer line string that starts with the other, needs values that differ in just that respect.",
        files=["src/linestring_2d/impls.rs", "src/linestring_3d/impls.rs", L2, L3],
        mech=[("construction from numbers and points", "src/linestring_2d/impls.rs, src/linestring_3d/impls.rs: From for Line2, Line3, Aabb3"),
              ("equality", "src/linestring_2d/impls.rs: PartialEq for Line2, Aabb2; AbsDiffEq, UlpsEq for Line2"), ("line string comparison", L2 + ", " + L3 + ": Approx for Vec")],
        spec=["c16"], floor=15),
    "C17": dict(
        title="Discretising a line string keeps its points and splits its edges evenly",
        statement="Discretising a 2D or 3D line string by a positive distance yields every point of it in order, with each edge divided into the smallest number of equal parts not longer than that distance. A repeated point is yielded as often as it occurs, the last point comes last and nothing follows it. An empty line string yields nothing and a single point only itself.",
        over=["inputs"], text="all points and distances (decided for up to five points and up to three parts per edge)",
        why="The test walks one straight line; where a point is lost, repeated or shifted depends on edge lengths relative to the distance and on edge transitions.",
        files=[L2, L3], mech=[("iteration", L2 + ", " + L3 + ": DiscreteLineSegmentIterator")],
        note=NV + " The iterator is unrolled: line strings of zero to five points, edges of one to three parts, with arbitrary coordinates and distances.",
        spec=["c17"], floor=16),
    "C18": dict(
        title="A parabolic arc is discretised within the given distance",
        statement="Discretising a parabolic arc between a segment and a focus starts and ends with the given end points and puts every further point on the parabola, where the arc is furthest from the chord replaced; a part is split exactly when it is further than the given distance from its chord. The 3D form has the same points, at a height of minus their distance to the focus. The straight 3D form joins the end points, at minus the distance of the first to the segment and of the last to the focus.",
        over=["inputs"], text="arcs of any position, size, height and extent over segments of any length in one direction (decided for up to two splits)",
        why="The test compares one arc with recorded numbers; whether a part is split, and where, depends on length, height, extent and distance together.",
        files=[L2], mech=[("discretisation", L2 + ": VoronoiParabolicArc::discretize_2d, discretize_3d, discretize_3d_straight_line")],
        note=NV + " Decided with the segment in the direction (3, 4), any start, length, focus, extent and distance, for arcs needing no, one or two splits.",
        spec=["c18"], floor=8),
    "C19": dict(
        title="The sweep-line finders report exactly where two segments meet",
        statement="Given two segments with finite coordinates, the plain and the indexed sweep-line finder report one event naming both where the pairwise intersection test puts their crossing, and where an end point of one lies on the inside of the other, whether or not shared end points are ignored, whichever starts or ends first, whichever way they are given; nothing else is reported. The joints of segments joined end to end are reported from low to high, unless shared end points are ignored, and only the lowest when stopping at the first. Segments with a coordinate that is not finite are refused, and the indexed finder keeps the given vertices in place.",
        over=["inputs", "schedules"], text="all pairs of segments with the ends at distinct heights, in every order of their ends, horizontal segments, touching segments, chains of two and three segments",
        why="Which tests the sweep makes depends on the order of the ends and on which line is a neighbour at that moment; the tests sweep fixed sets of lines and never an end point on the inside of another line.",
        files=["src/linestring_2d/intersection.rs", "src/linestring_2d/indexed_intersection.rs"],
        mech=[("plain finder", "src/linestring_2d/intersection.rs: IntersectionData::with_lines, compute, handle_event, find_new_events"),
              ("indexed finder", "src/linestring_2d/indexed_intersection.rs: IntersectionTester::with_edges, compute, handle_event, find_new_events")],
        note=NV + " Decided for two segments (chains: three); the pairwise test is an unknown symmetric function shared by both sides, assumed to put a crossing above both starts and below both ends. Completeness of the sweep for any number of segments is not claimed.",
        spec=["c19"], floor=18),
    "C20": dict(
        title="A failing step makes the whole operation return an error",
        statement="Whenever a step of an operation reports an error - creating, writing or flushing the OBJ file, a step of a convex hull, of an intersection search or of a self intersection test - the operation returns an error as well: it does not go on to report success, drop the error or panic. Saving to an OBJ file reports success only after everything written has been flushed to the file.",
        over=["fault_sequences", "inputs"], text="every step of every public operation that can fail, failing at any of its calls, and every path from there to a return",
        why="No test makes a write or an inner step fail; which of the steps swallows its error shows only when that very step fails.",
        files=[L3, L2, "src/linestring_2d/convex_hull.rs", "src/linestring_2d/intersection.rs", "src/linestring_2d/indexed_intersection.rs"],
        mech=[("OBJ file", L3 + ": save_to_obj_file"), ("self intersection test", L2 + ": LineString2::is_self_intersecting"),
              ("hulls", "src/linestring_2d/convex_hull.rs: convex_hull_par, combine_indexed_convex_hull, graham_scan, gift_wrap"),
              ("sweep finders", "src/linestring_2d/intersection.rs, src/linestring_2d/indexed_intersection.rs: compute, handle_event, find_new_events")],
        how="Typestate over the MIR control flow graph: for each call that can return an error (and each parameter that may hold one) the error is assumed, and every path to a return is followed, through matches, `?`, error conversions and callees; each such path must return an error. A second typestate tracks unflushed output of buffered writers up to each successful return. Nothing is executed and no input is chosen.",
        technique="static analysis: interprocedural typestate analysis of error values and of buffered writers over MIR",
        note="Flow of the error value through places known to hold it; a path on which the error is handed to code outside the analysis and then success is returned is undecided (reported, not an alarm). Which steps fail, and with which error, is outside.",
        trust=["the MIR dumper (rustc's own type checker and MIR builder)", "lib/flow.py: effect of Result, Option and io::Write calls"],
        run=[("flow", "errors"), ("flow", "flushed"), ("flow", "opens")], floor=8),
    "C21": dict(
        title="A saved OBJ file holds exactly the given lines",
        statement="Saving groups of 3D lines writes an OBJ file at the given path that names the object, lists every distinct end point once, in order of first appearance and with its three coordinates in full precision, and then one line element per line, in order, referring by 1-based number to the point it starts at and to the point it ends at. Groups make no difference, and an end point that two lines share is listed only once. Comments, blanks and the way numbers are written are free.",
        over=["inputs"], text="groups of lines with arbitrary coordinates and any end points in common (decided for up to three lines in up to three groups)",
        why="No test reads a saved file; wrong numbering shows only for lines that share points in a certain order.",
        files=[L3], mech=[("OBJ file", L3 + ": save_to_obj_file")],
        note="Decided for up to three lines with arbitrary coordinates, in every pattern of coinciding end points; texts are followed as sequences of constant pieces and formatted values, creating and writing are taken to succeed (C20 follows failures). Zero and minus zero are the same number here.",
        spec=["c21"], floor=8),
    "C22": dict(
        title="The same call gives the same result, every time and on every machine",
        statement="Calling an operation again with the same arguments gives exactly the same result, in the same order and with the same numbering. The result does not depend on the order in which a hashed collection happens to be walked, on which thread is first, on the clock, the environment, random numbers or addresses, nor on earlier calls.",
        over=["inputs", "schedules", "histories"], text="every function of the library, every order a hashed collection can be walked in, every order threads can deliver in",
        why="A test sees one walking order of a hashed collection and one schedule, and mostly inputs for which they make no difference.",
        files=["src/linestring_2d/intersection.rs", "src/linestring_2d/indexed_intersection.rs", "src/linestring_2d/simplify.rs", "src/linestring_3d/simplify.rs", L3, "src/shape.rs", "src/linestring_2d/convex_hull.rs"],
        mech=[("active lines of the sweeps", "src/linestring_2d/intersection.rs, src/linestring_2d/indexed_intersection.rs: compute, handle_event"),
              ("links of the simplification by count", "src/linestring_2d/simplify.rs, src/linestring_3d/simplify.rs: simplify_vw"), ("points of the OBJ file", L3 + ": save_to_obj_file"),
              ("adjacency of shapes", "src/shape.rs: divide_into_shapes"), ("parallel hull", "src/linestring_2d/convex_hull.rs: convex_hull_par")],
        how="Effect and order-taint analysis over MIR of every function: iterators over hashed collections are found by type and followed to their consumers; the order must not matter there (counts, sets, commuting loop effects) or be established by a sort before anything else reads the elements. Calls that read clocks, environment, random numbers, thread identities, addresses or state kept between calls, and parallel operations that take whichever result comes first, are searched in all functions. Nothing is executed.",
        technique="static analysis: interprocedural order-taint and effect analysis over MIR",
        note="Sorting by a key is taken to order the elements unless the key is a count; the reduction of partial hulls is taken to be independent of how they are grouped (C14). A use of the order the analysis does not know is undecided (reported, not an alarm).",
        trust=["the MIR dumper (rustc's own type checker and MIR builder)", "lib/order.py: which consumers of an iterator do not depend on its order"],
        run=[("order", "hashed"), ("order", "world"), ("order", "state"), ("order", "threads")], floor=4),
}
for _p in PROPS.values():
    _p.setdefault("level", "other")
    _p.setdefault("how", V)
    _p.setdefault("technique", TV)
    _p.setdefault("note", NV)

NOT_APPLICABLE = {
    "N01": "The sweep keeps an ordered queue and a set of active lines that grow with the input; that no crossing of many lines is missed rests on an invariant of the active set at every event, over unbounded state and over positions computed by division. No static argument here bounds it; C19 decides it for two and three segments, C12 that the sweep is consulted.",
    "N02": "Quantifies over rounding of every intermediate result. The canonical forms are over real arithmetic, and no sound error bound is derivable for coordinates of unbounded size; only the tolerance comparisons themselves are decided (C03, C06, C16).",
    "N03": "Rests on how a walk over an adjacency map and two bit sets interacts for arbitrary graphs; the loop structure depends on vertex numbers, and evaluating it on listed small graphs would be testing. Only independence of map order is decided (C22).",
    "N04": "Running time is a runtime quantity: gift wrapping, the sweeps and the two-stage shape search loop until a condition on computed geometry holds, and no variant bounding the number of rounds can be read off the source; an endless loop over repeated points was found and repaired by way of C14 instances.",
}
NA_PROPS = {
    "N01": dict(
        title="The sweep-line finders find every crossing among any number of lines",
        statement="For any number of segments with finite coordinates, the plain and the indexed sweep-line finder report exactly the positions where two or more of them meet, each with all the segments through it. Both finders agree on the same input.",
        over=["inputs"], text="any number of segments in any position",
        why="Tests run a handful of pictures; which segments are neighbours at each event depends on all of them.",
        files=["src/linestring_2d/intersection.rs", "src/linestring_2d/indexed_intersection.rs"],
        mech=[("sweep state and events", "src/linestring_2d/intersection.rs, src/linestring_2d/indexed_intersection.rs: compute, handle_event, find_new_events")]),
    "N02": dict(
        title="Results stay right under rounding of finite coordinates",
        statement="For finite coordinates of any size, hulls, intersections and distances computed in single or double precision differ from the exact results by no more than a small multiple of the precision. No intermediate overflow or cancellation turns a finite input into a wrong or missing answer.",
        over=["inputs"], text="all finite single and double precision coordinates",
        why="Rounding errors show for particular magnitudes and near-degenerate positions only.",
        files=[L2, L3, "src/linestring_2d/convex_hull.rs"],
        mech=[("orientation and intersection arithmetic", "src/linestring_2d/convex_hull.rs: cross_2d; " + L2 + ": Line2::intersection_point")]),
    "N03": dict(
        title="Dividing edges into shapes keeps every edge exactly once",
        statement="Dividing a list of edges into shapes yields continuous chains that together contain every distinct edge exactly once and no other edge; a chain ends only where a vertex has not exactly two neighbours or where a loop closes, and a loop ends where it starts. The returned marks are set exactly for the vertices with two neighbours.",
        over=["inputs"], text="all edge lists",
        why="Tests use a few graphs; junction and loop handling depends on the whole graph and on vertex numbers.",
        files=["src/shape.rs"], mech=[("walk along chains and loops", "src/shape.rs: divide_into_shapes, unwind_line, termination_candidate_nodes")]),
    "N04": dict(
        title="Every operation ends",
        statement="Every operation ends for every finite input, after a number of steps that is polynomial in the number of points or lines.",
        over=["inputs"], text="all finite inputs",
        why="A test that ends says nothing about other inputs.",
        files=["src/linestring_2d/convex_hull.rs", "src/linestring_2d/intersection.rs", "src/shape.rs"],
        mech=[("loops bounded by computed geometry", "src/linestring_2d/convex_hull.rs: gift_wrap; src/linestring_2d/intersection.rs: compute; src/shape.rs: divide_into_shapes")]),
}
