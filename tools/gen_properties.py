#!/usr/bin/env python3
"""Writes properties.jsonl (one line per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Turn direction of three points is exact for every number type",
 "For any three points the reported turn (left, right, straight) is the sign of the exact determinant, for every supported coordinate type: fixed-width integers over their whole range including the extremes, arbitrary-precision integers and rationals, and finite floats whose coordinate products neither overflow nor underflow. Computing it never overflows and never panics. Consequently it is antisymmetric under swapping two points and invariant under rotating the three.",
 ["inputs"], "all triples of points, for each of the scalar types i8,i16,i32,i64,isize,BigInt,BigRational,f32,f64 and their ordered/not-NaN wrappers (and rug integers when that feature is on)",
 "The proptests sample a handful of i8 triples; overflow, sign and rounding errors live at type extremes and one-ulp-off-a-line configurations which random samples practically never hit.",
 ["src/lib.rs", "src/orientation.rs", "src/data/point.rs"],
 [("per-scalar cmp_slope implementations", "src/lib.rs fixed_precision!/arbitrary_precision!/floating_precision!"), ("Orientation::new", "src/orientation.rs"), ("Point::orient", "src/data/point.rs")],
 observe=["Orientation::new", "Point::orient", "Point::orient_along_direction"])

prop("C02", "Turn relative to a direction vector (or its perpendicular) is exact",
 "Locating a point relative to the line through another point along a given direction vector, or along that vector rotated a quarter turn counter-clockwise, gives the sign of the exact determinant for every supported coordinate type, even when point plus vector is not representable. Ordering two points by their projection on a direction vector is likewise the exact comparison of the two dot products. None of these overflow or panic, including at the extremes of fixed-width integers and for all finite floats.",
 ["inputs"], "all (point, vector, point) triples over each scalar type",
 "Existing proptests only check that i8 inputs do not panic and two axis-aligned directions; sign errors at extremes or in the perpendicular variant are not sampled.",
 ["src/lib.rs", "src/orientation.rs", "src/data/vector.rs", "src/data/point.rs"],
 [("cmp_vector_slope / cmp_perp_vector_slope", "src/lib.rs"), ("along_vector / along_perp_vector", "src/orientation.rs"), ("cmp_along", "src/data/vector.rs")],
 observe=["Orientation::along_vector", "Orientation::along_perp_vector", "Vector::cmp_along", "Point::orient_along_vector", "Point::orient_along_direction"])

prop("C03", "Distance comparison is exact for every number type",
 "Comparing the distances from one point to two others yields exactly the ordering of the two exact squared distances, for every supported coordinate type and every representable finite coordinate. It never overflows or panics, even where a squared distance does not fit the widest native integer.",
 ["inputs"], "all triples of points over each scalar type",
 "The overflow flags only matter when one or both squared distances exceed the double-width type, which random i8 sampling rarely reaches and other widths never do.",
 ["src/lib.rs", "src/data/point.rs"],
 [("cmp_dist", "src/lib.rs"), ("cmp_distance_to", "src/data/point.rs")],
 observe=["Point::cmp_distance_to"])

prop("C04", "Angular ordering around a point is the exact counter-clockwise order",
 "Comparing two points around a centre, starting from any non-zero direction, gives the exact order of their counter-clockwise angles in [0,360) degrees measured from that direction (equal angles compare equal; points are distinct from the centre). It is a total preorder, so sorting by it gives the rotational order for every permutation of the input, and it never overflows for fixed-width integers.",
 ["inputs"], "all centres, start directions and pairs (and permutations of small sets) of points, over each scalar type",
 "Unit tests cover a few octants with one start direction; the property quantifies over every direction, every half-plane and boundary-angle combination (0 and 180 degrees), and transitivity over triples.",
 ["src/orientation.rs", "src/data/point.rs", "src/data/vector.rs"],
 [("ccw_cmp_around_with", "src/orientation.rs"), ("ccw_cmp_around", "src/data/point.rs"), ("sort_around", "src/data/vector.rs")],
 observe=["Point::ccw_cmp_around", "Point::ccw_cmp_around_with", "Vector::ccw_cmp_around", "Vector::sort_around"])

prop("C05", "Tie-breaking of straight turns is the consistent simulation of simplicity",
 "For three distinct index values the tie-breaker reports the turn of the three points obtained by placing index i at (i, 2^i); hence it never reports straight, flips under every swap, and is invariant under rotation. Combining, chaining and reversing orientations keep a decisive first answer and only consult the second for straight, and reversing twice is the identity.",
 ["inputs"], "all triples of distinct 32-bit indices (orderings) and all combinations of orientations",
 "The test compares small index triples; large indices and the mixed algebra are not enumerated.",
 ["src/orientation.rs"],
 [("SoS::new", "src/orientation.rs"), ("Orientation::{then,break_ties,sos,reverse}", "src/orientation.rs")],
 observe=["SoS::new", "Orientation::break_ties"])

prop("C06", "Segment containment and intersection are exact with open and closed ends",
 "A point lies on a segment, and two segments intersect, exactly when the mathematical point sets (with each end individually included or excluded) share a point; for parallel overlapping segments the reported overlap is exactly the common segment with the right ends included, otherwise a crossing is reported, and the answer does not depend on argument order. Listing all intersecting pairs of a set of segments returns each intersecting unordered pair exactly once and nothing else.",
 ["inputs"], "all pairs of segments (including single-point ones) with all 16 open/closed combinations, all query points, all small sets of segments, over each scalar type",
 "Tests cover a few dozen hand-made pairs plus random i8 symmetry; touching, colinear and degenerate configurations with mixed open/closed ends are measure-zero for random sampling.",
 ["src/data/line_segment.rs", "src/data/directed_edge.rs", "src/algorithms/intersection/naive.rs"],
 [("inner_between / leftmost / rightmost", "src/data/line_segment.rs"), ("Intersects for LineSegmentView", "src/data/line_segment.rs"), ("segment_intersections", "src/algorithms/intersection/naive.rs")],
 observe=["LineSegment::contains", "LineSegment::intersect", "DirectedEdge::intersect", "segment_intersections"])

prop("C07", "Line and ray crossings follow one consistent perturbation; exact line meet",
 "A line given by a point and either a direction vector or a second point crosses a segment iff the segment's ends lie on opposite sides, ends on the line counting as left. A ray starting off the segment's supporting line reports a crossing iff it meets the segment, telling whether it hits the interior or only an end point and to which side the rest of the segment lies, and reports nothing for a segment along the ray; both ways of giving the direction agree. The meeting point of two non-parallel lines is exact in exact arithmetic, and absent exactly for parallel lines.",
 ["inputs"], "all (origin, direction, segment) configurations on a grid, both direction encodings, over each scalar type",
 "A handful of unit cases exist; consistency on degenerate (endpoint-grazing, parallel) configurations needs all of them.",
 ["src/data/line.rs"],
 [("Intersects for LineSoS / HalfLineSoS", "src/data/line.rs"), ("Line::intersection_point", "src/data/line.rs")],
 observe=["LineSoS.intersect", "HalfLineSoS.intersect", "Line::intersection_point"])

prop("C08", "A polygon is accepted exactly when its vertex cycle is simple",
 "Building a polygon from a list of vertices succeeds iff there are at least three vertices, all distinct, and the closed boundary neither crosses, touches nor overlaps itself; the result is counter-clockwise, has exactly the given vertices, and visits the same cycle (reversed when the input was clockwise). Re-validating an accepted polygon always succeeds.",
 ["inputs"], "all vertex sequences (any order, duplicates, colinear runs, spikes, touching chains) of bounded length, over each scalar type and coordinate extremes",
 "Proptests generate only valid polygons; the reject side (touching vertices, zero-width spikes, colinear overlaps) is only covered by a few examples.",
 ["src/data/polygon.rs", "src/algorithms/intersection/naive.rs", "src/data/polygon/iter.rs"],
 [("Polygon::new / ensure_ccw / validate / validate_weakly", "src/data/polygon.rs"), ("Polygon::orientation", "src/data/polygon.rs")],
 observe=["Polygon::new", "Polygon::validate", "Polygon::orientation"])

prop("C09", "Boundary cursors and iterators agree with the vertex cycle under any navigation",
 "Every sequence of cursor moves, range iterations (forward, backward, or mixed from both ends) and look-ups behaves like navigation on the plain cyclic list of vertices: each item appears once, lengths announced match items delivered, vertex identifiers map back to the same vertex, and edges link consecutive vertices. Two polygons compare equal iff one vertex cycle is a rotation of the other, and directing an undirected boundary edge returns its boundary direction. A vertex is reported as an ear exactly when its corner turns left and no vertex other than the three of the corner lies in or on the corner triangle.",
 ["histories", "inputs"], "all interleavings of front/back steps and moves from every start vertex for polygons of every small size (built forwards, reversed, or by reordering), and all ordered pairs of small polygons",
 "Only forward iteration of whole boundaries is tested; ranges, double-ended interleavings, reversed index tables and the smallest polygon are not.",
 ["src/data/polygon.rs", "src/data/polygon/iter.rs"],
 [("Cursor / Position stepping", "src/data/polygon.rs"), ("CursorIter next/next_back/len", "src/data/polygon/iter.rs"), ("Polygon::equals / direct / cursor", "src/data/polygon.rs"), ("swap_positions index maintenance", "src/data/polygon.rs")],
 state=[("ring order and inverse index", "the cyclic vertex order and the vertex-to-position map", "src/data/polygon.rs Polygon")],
 observe=["Polygon::cursor", "Cursor::{next,prev,to,is_ear}", "Polygon::{iter_boundary,iter_boundary_edges,equals,direct}"])

prop("C10", "Area, centroid, bounding box and winding of polygons are exact",
 "For every simple polygon, twice the signed area equals the exact shoelace sum (positive for accepted polygons, summing over any triangulation, negated by reversal) in any result type wide enough, the centroid equals the exact area centroid in exact arithmetic, the bounding box is the exact coordinate-wise minimum and maximum, and the reported winding matches the sign of the area. Mapping, casting and converting coordinates change the coordinates and nothing else about the vertex cycle. Normalising a float polygon centres it at the origin with its larger side of length one, up to rounding.",
 ["inputs"], "all simple polygons of bounded size on a grid in every rotation and winding, at ordinary and extreme coordinates",
 "Doc examples check two triangles; winding detection relies on the minimal vertex, whose neighbours can be colinear in ways tests do not enumerate.",
 ["src/data/polygon.rs"],
 [("signed_area_2x / signed_area / centroid / bounding_box / orientation / normalize / map / cast", "src/data/polygon.rs")],
 observe=["Polygon::{signed_area,signed_area_2x,centroid,bounding_box,orientation,normalize,map,cast,float}"])

prop("C11", "Point location in a simple polygon is exact",
 "For every simple polygon and every query point the answer inside, on boundary or outside is the exact one, including query points level with vertices or horizontal edges, on vertices, and on edges. The answer does not depend on which vertex the boundary starts at or on the coordinate type.",
 ["inputs"], "all simple polygons of bounded size on a grid × all query points on a grid twice as fine, over scalar types and extremes",
 "Ray-casting bugs live exactly where the ray passes through vertices or along edges, which a random test never hits; only one unit test does.",
 ["src/data/polygon.rs", "src/data/line.rs", "src/data/directed_edge.rs"],
 [("Polygon::locate ray parity with SoS leaning", "src/data/polygon.rs"), ("HalfLineSoS intersect", "src/data/line.rs")],
 observe=["Polygon::locate"])

prop("C12", "Convex polygons: validation and logarithmic point location are exact",
 "Validation of a convex polygon succeeds exactly for simple polygons whose every corner turns strictly left. For every strictly convex polygon, of any number of vertices and starting at any of them, point location by binary search returns the exact inside, boundary or outside answer for every query point.",
 ["inputs"], "all strictly convex polygons on a grid and regular families up to 64 vertices, every rotation, every query point on a twice-finer grid",
 "Tests locate points in a few shapes; the binary search has a distinct path for each vertex count, start vertex and fan diagonal.",
 ["src/data/polygon/convex.rs", "src/data/triangle.rs"],
 [("PolygonConvex::locate fan binary search", "src/data/polygon/convex.rs"), ("PolygonConvex::validate", "src/data/polygon/convex.rs")],
 observe=["PolygonConvex::locate", "PolygonConvex::validate"])

prop("C13", "Triangles: construction, location, area, bounds and sampling are exact",
 "A triangle is accepted iff its corners turn left; the orienting constructor yields the same corners in left-turning order. Locating a point, the signed area and the bounding box are exact, and rejection sampling returns only points inside or on the triangle, whatever the random source delivers.",
 ["inputs", "schedules"], "all triples and query points on a grid over scalar types and extremes; all short sequences of random draws",
 "Only two example areas and randomised smoke tests exist.",
 ["src/data/triangle.rs"],
 [("Triangle/TriangleView validate, locate, signed_area_2x, bounding_box, rejection_sampling", "src/data/triangle.rs")],
 observe=["Triangle::{new,new_ccw,locate}", "TriangleView::{new,new_ccw,locate,signed_area,bounding_box,rejection_sampling}"])

prop("C14", "Triangulation exactly tiles every simple polygon, for every ear order",
 "For every simple polygon with n vertices, plain and spatially hashed triangulation terminate and yield exactly n-2 left-turning triangles on the polygon's vertices whose areas sum to the polygon's area, which use every boundary edge exactly once and share every diagonal between exactly two triangles. This holds whatever order the random source proposes candidate ears in, and for every starting vertex and every coordinate magnitude.",
 ["inputs", "schedules"], "all simple polygons of bounded size (colinear vertices included) × all sequences of random ear choices for small ones; structured families up to hundreds of vertices",
 "Tests fix the random seed and check the area sum on random polygons; the outcome for other ear orders, and for vertices on candidate diagonals, is not explored.",
 ["src/algorithms/triangulation/earclip.rs", "src/algorithms/zhash.rs", "src/data/polygon.rs"],
 [("triangulate_list / is_ear / EarStore", "src/algorithms/triangulation/earclip.rs"), ("triangulate_list_hashed / is_ear_hashed", "src/algorithms/triangulation/earclip.rs")],
 state=[("remaining vertex list and candidate-ear set", "linked list with deletions, plus dense set of unchecked vertices", "src/algorithms/triangulation/earclip.rs List, EarStore")],
 observe=["Polygon::triangulate", "earclip", "earclip_hashed", "triangulate_list", "triangulate_list_hashed"])

prop("C15", "Z-order hashing interleaves bits and preserves boxes",
 "Interleaving two 32-bit numbers is a bijection onto 64-bit numbers with an exact inverse and puts bit i of the first at position 2i and of the second at 2i+1. For every hashable coordinate type and enclosing box, hashing is monotone: if a point is no larger than another in both coordinates its hash is no larger, so every point inside a rectangle hashes between the rectangle's lower-left and upper-right corners.",
 ["inputs"], "all bit positions and their pairs, all pairs of byte patterns; all boxes and point pairs over extreme coordinate alphabets of every hashable type",
 "Proptests sample random words and unrestricted boxes; extreme widths (full 64-bit range, shift boundaries) are not systematically reached.",
 ["src/algorithms/zhash.rs"],
 [("zhash_pair / zunhash_pair", "src/algorithms/zhash.rs"), ("ZHashable impls", "src/algorithms/zhash.rs")],
 observe=["zhash_pair", "zunhash_pair", "ZHashable::zhash_fn"])

prop("C16", "Convex hulls of point sets are exact and minimal for both algorithms",
 "For every list of points, in any order and with any duplicates, both hull algorithms terminate; they fail exactly when the points are all on one line (or fewer than three distinct), and otherwise return the counter-clockwise strictly convex polygon whose corners are precisely the extreme points of the input. The two algorithms therefore return the same polygon.",
 ["inputs"], "all multisets and orders of points of bounded size on grids, structured large sets, over scalar types and extremes",
 "Proptests use random points, so duplicate and colinear inputs, the source of termination and minimality bugs, are rare.",
 ["src/algorithms/convex_hull/graham_scan.rs", "src/algorithms/convex_hull/gift_wrapping.rs"],
 [("graham_scan::convex_hull in-place scan", "src/algorithms/convex_hull/graham_scan.rs"), ("gift_wrapping::convex_hull", "src/algorithms/convex_hull/gift_wrapping.rs")],
 observe=["algorithms::convex_hull", "gift_wrapping::convex_hull"])

prop("C17", "The hull of a simple polygon is exact from every starting vertex",
 "For every simple polygon, however it was built and whichever vertex comes first, the linear-time polygon hull returns the counter-clockwise strictly convex polygon whose corners are exactly the extreme vertices, with no colinear or duplicate corner.",
 ["inputs", "histories"], "all simple polygons of bounded size in every rotation, built directly, from reversed input, or by uncrossing a vertex list; structured large polygons",
 "Tests compare with another hull on random polygons in storage order; colinear prefixes and reordered polygons are not enumerated.",
 ["src/algorithms/convex_hull/melkman.rs"],
 [("melkman::convex_hull deque maintenance", "src/algorithms/convex_hull/melkman.rs")],
 observe=["melkman::convex_hull"])

prop("C18", "Uncrossing moves always terminate in a simple polygon on the same vertices",
 "For every list of at least three distinct points not all on one line, and every sequence of random choices of which crossing to resolve next, uncrossing terminates and returns a valid counter-clockwise simple polygon using exactly the given points; every single step strictly shortens the tour. Duplicate, too few or all-colinear points are reported as errors, never as a panic or an endless loop.",
 ["inputs", "schedules"], "all vertex orders of all small point sets (colinear runs included) × all choice sequences, as an explicit state graph of tours",
 "Tests run random points with a fixed-seed source; the many colinear-overlap moves and the choice nondeterminism are unexplored.",
 ["src/algorithms/polygonization/two_opt.rs", "src/data/intersection_set.rs", "src/data/polygon.rs", "src/utils.rs"],
 [("untangle: 2-opt and kink moves", "src/algorithms/polygonization/two_opt.rs"), ("vertices_reverse / vertices_join", "src/data/polygon.rs"), ("incremental intersection set", "src/data/intersection_set.rs")],
 state=[("tour", "cyclic order of vertices", "src/data/polygon.rs rings"), ("pending intersections", "incrementally maintained set of crossing edge pairs", "src/data/intersection_set.rs")],
 observe=["two_opt_moves", "resolve_self_intersections"])

prop("C19", "The intersection set behaves like a set of edge pairs under any history",
 "After any sequence of insertions of not-present edge pairs, removals of all pairs touching an edge, and random picks, the contents are exactly those of a plain set to which the same operations were applied: removing an edge removes precisely the pairs that involve it, a pick returns some current member for every random draw and every member can be picked, and it returns nothing iff the set is empty.",
 ["histories"], "all operation sequences up to a depth over all edge pairs of small vertex sets, and all random draws",
 "One proptest-free unit test exists; link surgery errors need specific insert/remove interleavings.",
 ["src/data/intersection_set.rs", "src/utils.rs"],
 [("doubly linked per-edge lists", "src/data/intersection_set.rs"), ("SparseVec/DenseCollection", "src/utils.rs")],
 state=[("by_idx / by_edge", "slot table, per-edge list heads and links", "src/data/intersection_set.rs")],
 observe=["IndexIntersectionSet::{push,remove_all,random,iter}"])

prop("C20", "Monotone polygon generation and the monotonicity test are exact",
 "A simple polygon is reported monotone in a non-zero direction exactly when its boundary consists of one chain along which the projection on the direction never decreases and one along which it never increases. Generating a polygon from points and a direction succeeds whenever the points are not all on one line, and the result is a valid simple polygon on exactly the distinct input points that is monotone in that direction; otherwise it returns an error.",
 ["inputs"], "all point sets and orders of bounded size with all grid directions; all simple polygons of bounded size with all directions",
 "The generator proptest uses random points (no ties along the direction, no points on the extreme chord) and the negative side of the test has a single example.",
 ["src/algorithms/polygonization/monotone.rs", "src/data/polygon.rs"],
 [("new_monotone_polygon", "src/algorithms/polygonization/monotone.rs"), ("is_monotone", "src/algorithms/polygonization/monotone.rs")],
 observe=["new_monotone_polygon", "Polygon::is_monotone"])

prop("C21", "Star polygon generation yields a valid star around the given point",
 "Whenever the generator succeeds, the result is a valid simple polygon on exactly the given points in counter-clockwise angular order around the centre. It succeeds whenever the points lie in pairwise different directions from the centre and no angular gap between neighbours reaches 180 degrees, and then the centre sees the whole polygon.",
 ["inputs"], "all point lists of bounded size and all centres on a grid, over scalar types and extremes",
 "No tests exercise it beyond random inputs with an origin centre.",
 ["src/algorithms/polygonization/star.rs", "src/orientation.rs"],
 [("new_star_polygon", "src/algorithms/polygonization/star.rs")],
 observe=["new_star_polygon"])

prop("C22", "The visibility polygon is exactly the region visible from an interior point",
 "For every simple polygon and every point strictly inside it, computed in exact rational coordinates, the visibility polygon exists and is a valid simple polygon whose interior consists exactly of the points that the query point sees along a straight segment inside the polygon. Computing it never panics.",
 ["inputs"], "all simple polygons of bounded size on a grid (colinear and reflex vertices aligned with the viewer included) × all interior query points on a finer grid; exact area comparison plus point membership",
 "A few hand-drawn cases are tested; alignment of several vertices with the viewer is what breaks it.",
 ["src/algorithms/visibility/naive.rs", "src/data/line.rs"],
 [("get_visibility_polygon", "src/algorithms/visibility/naive.rs"), ("HalfLineSoS leaning rays", "src/data/line.rs")],
 observe=["get_visibility_polygon"])

prop("C23", "Random convex polygons are valid and fill the coordinate range",
 "For every size request and every stream of random bits that does not produce only colinear points, the generated polygon is a valid strictly convex polygon with at least three and at most the requested number of vertices (at least three), lying on or above the x axis and touching it, whose width and height both equal the maximum coordinate value; generation never overflows.",
 ["schedules", "inputs"], "all short prefixes of random draws (evenly spaced over the draw range, extremes included) followed by fixed continuations, for all small sizes and all primitive integer types",
 "Proptests draw a few random seeds; extreme draws (zero steps, maximal steps, duplicate cuts) have probability near zero for wide types.",
 ["src/data/polygon/convex.rs"],
 [("PolygonConvex::random / random_vectors / random_between_zero", "src/data/polygon/convex.rs"), ("Vector::sort_around", "src/data/vector.rs"), ("convex_hull", "src/algorithms/convex_hull/graham_scan.rs")],
 observe=["PolygonConvex::random"])

prop("C24", "Transforms compose and act on points, vectors and polygons as matrices do",
 "Applying a translation or scaling moves every coordinate exactly by the given offset or factor; applying a product of transforms equals applying the factors right to left, for every chain and in every ownership form of the operators. Transforming a polygon transforms each vertex and keeps the vertex cycle, and point and vector arithmetic (sum, difference, scaling, negation, totals) is coordinate-wise exact.",
 ["histories", "inputs"], "all chains of bounded length over a small alphabet of transforms applied to all grid points, in dimensions 1 to 3",
 "Two or three unit tests exist; composition order and off-diagonal layout errors cancel out for single transforms.",
 ["src/transformation.rs", "src/matrix.rs", "src/data/vector/*.rs", "src/data/point/*.rs"],
 [("Transform Mul impls", "src/transformation.rs"), ("Matrix multiplication", "src/matrix.rs"), ("Point/Vector operators", "src/data/point/add.rs")],
 observe=["Transform::{translate,scale,uniform_scale}", "Mul impls", "Point/Vector Add, Sub, Mul, Div, Neg, Sum"])

prop("C25", "Point order, equality and conversions are exact and lossless",
 "Points of any dimension compare lexicographically by coordinate as a total order consistent with equality, for every coordinate type (floats included, NaN-free). Conversions between coordinate types that are documented as lossless (integers to big integers, floats to rationals and back, integers to floats they fit in) round-trip exactly, conversions that must reject NaN do so for every coordinate, and the all-colinear test is true exactly when all points lie on one line.",
 ["inputs"], "all tuples of points over boundary alphabets for each dimension 1-3 and type; all short point lists including duplicates",
 "No test relates order, equality and conversions; duplicates at the head of a list are not sampled for colinearity.",
 ["src/data/point.rs", "src/data/vector.rs", "src/lib.rs"],
 [("TotalOrd/Ord/Eq for Point", "src/data/point.rs"), ("From/TryFrom impls", "src/data/point.rs"), ("all_colinear", "src/data/point.rs")],
 observe=["Point::{cmp,eq,cast,to_float,map}", "From<Point<..>>", "Point::all_colinear"])

prop("C26", "Combinatorial results are identical across number types and magnitudes",
 "Polygon validation, point location, ear and monotonicity tests, triangulation validity, hulls, uncrossing, and star and monotone generation depend only on the exact geometry: a configuration whose coordinates are stretched to the extremes of a fixed-width integer, or represented in any other supported number type, gives the same accept/reject answer and the same vertices as in arbitrary precision. None of these algorithms overflows or panics on any representable integer coordinates.",
 ["inputs", "configurations"], "all small vertex sequences on a 3x3 index grid × order-preserving coordinate tables reaching each type's extremes × all scalar types",
 "Tests exercise i8 and a little i64; an overflow in one algorithm for one width at extreme coordinates is never sampled.",
 ["src/lib.rs", "src/data/polygon.rs", "src/algorithms/"],
 [("PolygonScalar implementations", "src/lib.rs"), ("generic algorithms restricted to comparison predicates", "src/algorithms")],
 observe=["all public algorithms generic over the scalar"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
