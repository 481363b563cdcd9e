#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/boost/polygon/"
out = []
def p(id, title, st, over, text, why, files, mech, observe=None):
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    out.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Boolean operators on Manhattan sets compute the exact regions",
  "For operands that are polygon_90_set_data (either scan orientation), rectangles, Manhattan polygons with or without holes, containers of them, or nested boolean expressions, the results of |, +, &, ^, - and their assignment forms (and insert with the hole flag) are exactly the points where the boolean combination of the operands' regions is true. The operands are not changed as regions, and results do not depend on insertion order, vertex start, winding or scan orientation.",
  ["inputs", "programs"], "all integral coordinate types and values whose areas fit, all operand types and operator expressions",
  "The unit tests check a few dozen fixed shapes; the scan-line has an unbounded space of event orders, coincident edges and operand types.",
  ["polygon_90_set_data.hpp", "polygon_90_set_concept.hpp", "polygon_90_set_traits.hpp", "detail/polygon_90_set_view.hpp", "detail/boolean_op.hpp", "detail/iterator_compact_to_points.hpp", "detail/iterator_points_to_compact.hpp"],
  [("boolean scan-line", "detail/boolean_op.hpp"), ("operator views", "detail/polygon_90_set_view.hpp"), ("insertion", "polygon_90_set_data.hpp")])
p("P02", "Polygons and rectangles got from a Manhattan set tile it exactly",
  "Every output form of a Manhattan set (keyholed polygons, polygons with holes, rectangles sliced in either orientation) is a list of well-formed shapes that do not overlap and whose union is the set's region; outer rings are counterclockwise, holes clockwise, and polygons with holes come one per edge-connected component. get with a vertex bound k (even, at least 4) yields polygons of at most k vertices, rectangle slices are maximal along their slicing orientation, and get_max_rectangles yields every maximal rectangle once. What the container held stays in front.",
  ["inputs"], "all Manhattan regions, both scan orientations, all output types",
  "Tests look at a few outputs; polygon formation is a stateful scan whose tail lists depend on the whole history of edges.",
  ["detail/polygon_formation.hpp", "detail/rectangle_formation.hpp", "detail/max_cover.hpp", "polygon_90_set_data.hpp"],
  [("polygon formation scan", "detail/polygon_formation.hpp"), ("rectangle formation", "detail/rectangle_formation.hpp"), ("maximal rectangles", "detail/max_cover.hpp")])
p("P03", "Growing and shrinking a Manhattan set is the exact Minkowski offset",
  "bloat by (west, east, south, north) of a Manhattan set is the union of its points dilated by that box, shrink is the complement of the dilated complement, resize by signed amounts combines them, and the +, -, +=, -= operators with a coordinate and grow_and agree with their definitions. The result does not depend on how the region was inserted or on the scan orientation.",
  ["inputs"], "all Manhattan regions and nonnegative amounts that do not overflow",
  "A few fixed sizings are tested; offsets interact with overlaps, holes that vanish and touching corners.",
  ["polygon_90_set_data.hpp", "polygon_90_set_concept.hpp"],
  [("bloat, shrink and resize", "polygon_90_set_data.hpp"), ("free functions and operators", "polygon_90_set_concept.hpp")])
p("P04", "A Manhattan set keeps its region through every operation history",
  "Through any sequence of insertions, subtractive insertions, boolean assignments, cleaning, copies, moves of the set, scaling up, transforms, snapping of orientation, interact, self-intersect, self-xor and keep, a polygon_90_set_data denotes the region a plain model denotes. Its queries (area, extents, empty, size of equal sets, ==, !=, clear, ordering of canonical scan data) agree with that region at every step.",
  ["histories"], "all finite sequences of public operations",
  "Tests call each operation once on fresh objects; the lazily sorted and merged state (dirty, unsorted) is a product of histories.",
  ["polygon_90_set_data.hpp", "polygon_90_set_concept.hpp", "detail/polygon_90_touch.hpp"],
  [("lazy clean state", "polygon_90_set_data.hpp"), ("touch detection", "detail/polygon_90_touch.hpp")])
p("P05", "Boolean operators on 45-degree sets compute the exact regions",
  "For polygon_45_set_data, 45-degree polygons with or without holes, rectangles, Manhattan sets and polygons, containers and nested expressions whose edge lines meet at integral points, the results of |, +, &, ^, - and their assignment forms (and insert with the hole flag) are exactly the points where the boolean combination of the operands' regions is true. When edges cross at half-integral points, the result differs from that only inside the 1x1 squares reported by error_count and get_error_data. The operands are not changed as regions, and insertion order, vertex start and winding do not matter.",
  ["inputs", "programs"], "all 45-degree regions whose edges meet at integral points",
  "Few fixed 45-degree shapes are tested; the scan-line's event handling depends on coincident and crossing edges of four directions.",
  ["polygon_45_set_data.hpp", "polygon_45_set_concept.hpp", "polygon_45_set_traits.hpp", "detail/boolean_op_45.hpp", "detail/polygon_45_set_view.hpp"],
  [("45-degree boolean scan", "detail/boolean_op_45.hpp"), ("operator views", "detail/polygon_45_set_view.hpp")])
p("P06", "Outputs and histories of a 45-degree set keep its exact region",
  "Keyholed polygons, polygons with holes (one per edge-connected component) and trapezoids (either slicing orientation, at most four vertices, all on the two slice lines) got from a 45-degree set have edges at multiples of 45 degrees, do not overlap and tile its region, with counterclockwise outer rings and clockwise holes; the get functions append them to what the container held. Through any sequence of insertions, subtractive insertions, clean, copies, assignments, set, set_clean, scaling by exact factors, transforms, self_intersect, self_xor, interact (keeps polygons overlapping or touching, corners included), keep and boolean assignments the set denotes the region a plain model denotes. Its queries area, extents, empty, size, is_manhattan (once clean), ==, != and equivalence agree with that region at every step.",
  ["inputs", "histories"], "all 45-degree regions on even coordinates, all operation sequences",
  "Tests look at a few outputs of fresh sets.",
  ["polygon_45_set_data.hpp", "polygon_45_set_concept.hpp", "detail/polygon_45_formation.hpp"],
  [("45 polygon and trapezoid formation", "detail/polygon_45_formation.hpp"), ("set state", "polygon_45_set_data.hpp")])
p("P07", "Resizing a 45-degree set offsets every edge by the right amount",
  "For a convex 45-degree polygon with INTERSECTION corners, none of whose edges vanishes, resize by d moves every axis-parallel edge line by exactly d and every 45-degree edge line along x and y by d/sqrt(2) rounded to closest, up past it (OVERSIZE), down (UNDERSIZE), by d (SQRT2) or by d/2 (SQRT1OVER2); for a Manhattan region the result is the exact Manhattan offset with every rounding. For any 45-degree region growing adds and shrinking removes points only, every point within d-2 of the region is reached by growing with INTERSECTION corners (dually for shrinking), and no point farther than 2.62 times the edge movement (plus 4) is affected. The member and free resize, bloat, shrink, += and -= with an amount and insert_with_resize agree, and grow_and is the self-intersection of the polygons grown one by one.",
  ["inputs"], "all 45-degree regions, amounts and rounding options",
  "A handful of fixed resizings are tested.",
  ["polygon_45_set_data.hpp", "polygon_45_set_concept.hpp"],
  [("45 resize", "polygon_45_set_data.hpp")])
p("P08", "Boolean operators on arbitrary-angle sets are right away from edges",
  "For operands of polygon_set_data, polygons of any angle with or without holes (self-overlapping ones too), 45-degree and Manhattan polygons and sets, rectangles and containers of them, every lattice point farther than 2 units from all operand edges (4 units for nested expressions) belongs to the result of |, +, &, *, ^, - and their assignment forms exactly when the boolean combination of its memberships in the operands says so. When all intersections of the edges are lattice points not within 2 units of another edge and coordinates stay below 500000, the result is exactly that region and its vertices are operand vertices or crossings. The operands are not changed.",
  ["inputs", "programs"], "all integral polygons, containers and set expressions",
  "Fixed examples cannot cover the snap-rounding cases of an arrangement.",
  ["polygon_set_data.hpp", "polygon_set_concept.hpp", "polygon_set_traits.hpp", "detail/scan_arbitrary.hpp", "detail/polygon_arbitrary_formation.hpp", "detail/polygon_set_view.hpp"],
  [("line intersection", "detail/scan_arbitrary.hpp"), ("arbitrary boolean", "detail/scan_arbitrary.hpp"), ("views", "detail/polygon_set_view.hpp")])
p("P09", "Polygons and trapezoids got from an arbitrary-angle set tile it",
  "Polygons with holes got from a polygon_set_data have counterclockwise outer rings and clockwise holes lying inside them, do not overlap and cover every lattice point farther than 2 units from the operands' edges (keyholed polygons: 3 units) exactly when it is in the region; when all edges meet at lattice points (as in P08) they have exactly the region and share no stretch of boundary, and inserting them in a new set gives an equal set. Keyholed polygons come one per polygon with holes, closed, counterclockwise. Trapezoids, in either slicing orientation, have all vertices on two slice lines, do not overlap and cover the region likewise, with its area up to the rounding of slice points. get and get_trapezoids append to what the container held.",
  ["inputs"], "all integral polygon regions",
  "Polygon formation depends on all vertex coincidences of the arrangement; tests show a few.",
  ["detail/polygon_arbitrary_formation.hpp", "polygon_set_data.hpp"],
  [("arbitrary-angle polygon formation", "detail/polygon_arbitrary_formation.hpp")])
p("P10", "Histories and queries of an arbitrary-angle set agree with its region",
  "Through any sequence of insertions (subtractive ones too), set, assignments, copies, clean, sort, axis transforms, shifts, scaling, boolean assignments and views, self booleans and clear a polygon_set_data denotes the region a membership model denotes, exactly when all edges meet at lattice points and otherwise away from edges (as in P08). area, extents, empty, ==, !=, equivalence, downcast and concept_downcast agree with that region at every step, scale_down and scale move edges only by rounding, interact keeps exactly the polygons that touch or overlap the other set, and keep those within the area, width and height bounds.",
  ["histories"], "all finite sequences of public operations",
  "Tests exercise fresh objects; the lazily sorted and merged state and the 45-degree shortcut are products of histories.",
  ["polygon_set_data.hpp", "polygon_set_concept.hpp"],
  [("set state", "polygon_set_data.hpp")])
p("P11", "Manhattan, 45-degree and general algorithms agree on shared input",
  "For Manhattan input the Manhattan, 45-degree and general sets, and for 45-degree input on even coordinates the 45-degree and general sets, denote the same region after the same booleans, conversions and queries. Converting a set to a more general kind keeps the region, and assigning between set and polygon kinds keeps it, as does viewing a set or container as a narrower kind (view_as) when its edges allow.",
  ["inputs", "programs"], "all inputs in the common domain, all operators",
  "Tests never compare the three engines on generated input.",
  ["polygon_set_data.hpp", "polygon_45_set_data.hpp", "polygon_90_set_data.hpp", "detail/scan_arbitrary.hpp", "detail/boolean_op_45.hpp", "detail/boolean_op.hpp"],
  [("conversion insert overloads", "polygon_set_data.hpp")])
p("P12", "Property merge assigns each point exactly the properties covering it",
  "For labelled inserts of geometry, property_merge, property_merge_45 and property_merge_90 return a map in which every set (or sorted vector) of labels that covers some area is keyed to exactly the region covered by those labels and no others, and no other key is present. Inserting twice under one label adds the regions, and merging again, also after more inserts, gives the map of everything inserted so far. For property_merge, and for 45-degree edges crossing between grid points, the region is exact up to the rounding of such crossings.",
  ["inputs"], "all labelled geometry, any number of labels, repeated inserts of a label",
  "Few fixed layouts are tested; n-layer overlay has exponentially many label sets.",
  ["polygon_set_data.hpp", "polygon_90_set_data.hpp", "polygon_45_set_data.hpp", "detail/property_merge.hpp", "detail/property_merge_45.hpp", "detail/scan_arbitrary.hpp"],
  [("general property merge", "detail/scan_arbitrary.hpp"), ("Manhattan property merge", "detail/property_merge.hpp")])
p("P13", "Connectivity extraction finds exactly the touching pairs of inputs",
  "The graph filled in by connectivity_extraction_90, connectivity_extraction_45 and connectivity_extraction has, for every inserted node, exactly the other nodes whose closed regions share a point with it (overlap, a common edge or a corner), symmetrically and without self edges; ids count up from 0. Extracting again, into a vector or a map graph and also after more inserts, gives the graph of everything inserted so far, whatever the scan orientation or cleanness of the inserted sets.",
  ["inputs"], "all families of inserted polygons and sets",
  "Touching cases (edge, corner, overlap, containment) multiply with every node; tests show a few.",
  ["polygon_set_data.hpp", "polygon_45_set_data.hpp", "polygon_90_set_data.hpp", "detail/polygon_90_touch.hpp", "detail/polygon_45_touch.hpp", "detail/property_merge.hpp"],
  [("90 touch", "detail/polygon_90_touch.hpp"), ("45 touch", "detail/polygon_45_touch.hpp"), ("general touch", "detail/scan_arbitrary.hpp")])
p("P14", "Interval operations follow interval arithmetic on closed intervals",
  "For interval_data and user models of interval, contains, intersects, boundaries_intersect, abuts and euclidean_distance (with and without touch) are what their definitions over the points of the closed intervals say, and intersect, encompass and join_with compute the intersection or the hull, change nothing when they fail and report success truthfully. generalized_intersect (the middle two ends), bloat, shrink, move, convolve, deconvolve, their reflected forms (with the mirror image), flip, scale_up, scale (rounded to closest for integers) and scale_down (truncated) map the ends as defined; center and get_half split within half a unit, and construct orders its ends. The comparison operators of interval_data order by low, then high.",
  ["inputs"], "all interval pairs of every supported coordinate type whose results fit",
  "Tests hit a few relative positions with touch and no-touch flags.",
  ["interval_concept.hpp", "interval_data.hpp", "interval_traits.hpp"],
  [("interval functions", "interval_concept.hpp")])
p("P15", "Rectangle operations are the products of the interval operations",
  "For rectangle_data and user models, contains, intersects, boundaries_intersect (with and without touch), abuts (a direction, an orientation, any) and the distances along an axis, Euclidean, squared and Manhattan, from rectangles and points, are what their definitions over the closed rectangles' points say, and intersect, encompass (rectangle, point, interval) and join_with (of rectangles sharing a whole side) yield the intersection or hull, change nothing when they fail and report success truthfully. generalized_intersect, bloat and shrink (all round, one orientation, one direction), convolve, deconvolve, their reflected forms, move, scale_up, scale_down, scale and transform act on each axis as the interval functions do, set_points and construct order corners. Corners (get_corner: LOW turns left), sides, center, halves, delta, area, perimeter, guess_orientation and less_rectangle_concept follow their definitions whenever they fit.",
  ["inputs"], "all rectangle pairs whose results fit",
  "Tests hit a few relative positions.",
  ["rectangle_concept.hpp", "rectangle_data.hpp", "rectangle_traits.hpp"],
  [("rectangle functions", "rectangle_concept.hpp")])
p("P16", "Points, isotropy and transformations form the right algebra",
  "Point functions (access, order, equivalence, distances along an axis, Manhattan, squared when it fits, and Euclidean, convolve, deconvolve, move, scale_up, scale_down rounded to closest, scale rounded as floor(x+0.5) for integers, transform) equal their definitions whenever the results fit, and the isotropy types (orientation_1d/2d/3d, direction_1d/2d/3d) obey theirs: signs, opposites, turns, perpendiculars, conversions and orders. An axis_transformation is the signed permutation of x and y its directions name, sums apply the left one first, and inverse undoes it; a transformation subtracts its displacement and then applies its axis_transformation, its sums and inverses act likewise. anisotropic_scale_factor multiplies each axis by its own factor, adds by multiplying and swaps its factors under axis transformations that swap the axes.",
  ["inputs"], "all 8 axis transformations, composed with each other, all points",
  "Tests apply a few transformations to a few points.",
  ["transform.hpp", "isotropy.hpp", "point_concept.hpp", "point_data.hpp", "point_traits.hpp"],
  [("axis transformation", "transform.hpp"), ("isotropy", "isotropy.hpp"), ("points", "point_concept.hpp")])
p("P17", "Segment predicates, measures and operations are exact",
  "orientation, contains (a point or a segment), intersects, abuts and equivalence of segments equal their exact definitions over the closed segments' points at any coordinate magnitude and in any order of arguments and ends, degenerate segments included: without touch, contains needs points strictly inside and intersects a shared point that is not an end of both. length and the Euclidean distances to points and segments, when squares of distances fit the difference type, center (to a unit), move, convolve, deconvolve, scale_up, scale_down, scale and transform (of both ends, as for points) and the order of segment_data (by low, then high end) follow their definitions.",
  ["inputs"], "all pairs of segments and points over the full coordinate range, degenerate segments included",
  "Overflow and collinear degeneracies lie outside the sampled values.",
  ["segment_concept.hpp", "segment_data.hpp", "segment_traits.hpp"],
  [("segment functions", "segment_concept.hpp")])
p("P18", "Polygon measures and predicates are exact for every polygon type",
  "For simple polygons with holes in every library polygon type that holds them, user models and view_as views, area, perimeter, winding, contains (holes excluded, boundaries by consider_touch), extents, center (of the bounding box, to a unit), size and is_45 equal their exact definitions whenever the bounding box's area fits, whatever the start vertex or winding. set_points, set_compact, set_holes and assign store the given vertices and holes; convolve, move, transform, scale_up, scale_down and scale map every vertex of the ring and the holes as the point functions do, except that scaling 45-degree polygons keeps them 45-degree, each vertex within as many units of its image as the ring has vertices (no scaled edge shorter than 4).",
  ["inputs"], "all simple polygons with holes, all start vertices, both windings, all polygon types",
  "Tests use a few fixed polygons per type.",
  ["polygon_90_data.hpp", "polygon_90_with_holes_data.hpp", "polygon_45_data.hpp", "polygon_45_with_holes_data.hpp", "polygon_data.hpp", "polygon_with_holes_data.hpp", "polygon_traits.hpp"],
  [("polygon functions", "polygon_traits.hpp"), ("compact iterators", "detail/iterator_compact_to_points.hpp")])
p("P19", "Segment intersection utilities find every crossing and snap it right",
  "intersect_segments cuts every segment so that its pieces chain from one end to the other inside unit squares the segment meets, it is cut at every end point of another lying on it, two segments that cross have a common cut within a unit of the crossing, and nothing else is cut. With coordinates up to 2^20 in size no two pieces cross or overlap except at end points or by being equal; each piece carries the index of its segment and segments of no length vanish. envelope_segments is the exact bounding box.",
  ["inputs"], "all finite multisets of integral segments",
  "Robustness of the sweep depends on combinations of crossings, overlaps and vertical segments tests do not reach.",
  ["segment_utils.hpp", "detail/scan_arbitrary.hpp"],
  [("line intersection sweep", "detail/scan_arbitrary.hpp"), ("segment utilities", "segment_utils.hpp")])
p("P20", "The Minkowski sum of two polygon sets is the sum of their regions",
  "The sum that minkowski_offset computes of two general polygon sets (polygons with holes, in either order, whatever the result held before) is the set of sums of a point of one and a point of the other: exact for Manhattan sets, and for others away from its edges by more than the snapping distance. The polygons got from it do not overlap.",
  ["inputs"], "all pairs of integral polygon sets whose sums fit",
  "Nothing in the tests checks a sum against a definition.",
  ["detail/minkowski.hpp"],
  [("convolution", "detail/minkowski.hpp")])
p("P21", "Simplify stays within its tolerance and never adds vertices",
  "simplify keeps a cyclic subsequence of a polygon's vertices and reports how many it removed; every removed vertex lies within the given length, times the number of vertices removed between two kept ones, of the edge that replaces them, and no kept vertex lies within it of the segment joining its neighbours, so that simplifying again changes nothing and length 0 removes exactly the vertices on their neighbours' segment. A polygon left with fewer than three vertices vanishes. Simplifying a polygon set does this to every polygon and hole.",
  ["inputs"], "all vertex sequences and thresholds",
  "Tests check a few shapes.",
  ["detail/polygon_simplify.hpp", "polygon_set_data.hpp"],
  [("Douglas-Peucker style simplify", "detail/polygon_simplify.hpp")])
p("P22", "Voronoi diagrams are well-formed half-edge structures",
  "For every input of points and segments that meet at most at end points, however inserted, the diagram has one cell per distinct point, end point and segment, with a source index and category naming an input equal to it, twin, next, prev, rot_next, rot_prev, cell, vertex and incident_edge links are mutually consistent, every cell's and vertex's edges form one cycle of degree at least three at vertices, colours start at zero, keep 59 bits and change nothing else, and Euler's relation and the linear size bounds hold. Edges are primary unless between an end point and its own segment, linear unless between a segment and a point not its end, infinite exactly when a vertex is missing. A cell is degenerate only for a single site or an end point with segments in every half-plane around it.",
  ["inputs"], "all multisets of points and segments meeting only at end points, with 32-bit coordinates, whose sweep events do not nearly coincide (relative difference 1e-14) without being equal",
  "Tests run a few hand-made and random diagrams with weaker checks.",
  ["voronoi_diagram.hpp", "voronoi_builder.hpp", "voronoi.hpp", "detail/voronoi_structures.hpp"],
  [("diagram construction", "voronoi_diagram.hpp"), ("sweep", "voronoi_builder.hpp")])
p("P23", "Voronoi vertices, edges and cells are geometrically correct",
  "Every vertex of the diagram is equidistant from the sites of the cells around it, no site is nearer, and where three cells meet its coordinates are within 64 ULPs of the exact point. Every edge, and the bisector an infinite edge stands for, is equidistant from and nearest to the sites of the cells on its two sides and is directed with its own cell on the left, so that each site's cell is exactly the set of points nearest to it.",
  ["inputs"], "all multisets of points and segments meeting only at end points, with 32-bit coordinates, whose sweep events do not nearly coincide (relative difference 1e-14) without being equal",
  "Exactness of the predicates can fail on rare nearly degenerate inputs only.",
  ["voronoi_builder.hpp", "detail/voronoi_predicates.hpp", "detail/voronoi_ctypes.hpp", "detail/voronoi_robust_fpt.hpp"],
  [("predicates", "detail/voronoi_predicates.hpp"), ("circle formation", "detail/voronoi_predicates.hpp")])
p("P24", "Voronoi arithmetic types compute exactly or within stated error",
  "extended_int arithmetic, comparison, signs and conversions agree with unbounded integers whenever results fit (p and d to one ULP); every extended_exponent_fpt operation, square root included, is right to one ULP at any exponent, zero operands included; robust_fpt results lie within their stated relative error (in units of 2^-53) of the real value of the expression, robust_dif equals the expression with two nonnegative parts, and ulp_comparison counts representable doubles (-0 is 0). The sums of one to four terms A*sqrt(B) of robust_sqrt_expr have the sign of the real value (zero exactly when it is) and relative errors below 4, 7, 16 and 25 times 2^-52. robust_cross_product and the orientation test are exact in sign for all 32-bit points.",
  ["inputs"], "all operand values within the documented bit sizes",
  "Carry and cancellation patterns are astronomically many.",
  ["detail/voronoi_ctypes.hpp", "detail/voronoi_robust_fpt.hpp", "detail/voronoi_predicates.hpp"],
  [("extended integers and floats", "detail/voronoi_ctypes.hpp"), ("robust square roots", "detail/voronoi_robust_fpt.hpp")])
p("P25", "Voronoi construction depends only on the set of sites and its shape",
  "Constructing a diagram from the same points and segments in another insertion order, through another overload, with duplicated points or swapped segment end points gives bitwise the same vertices, edges and neighbours by sites; only which of several equal inputs a cell names, and its category, may differ. A builder can construct repeatedly, also after more insertions (indices count on) and after clear (indices restart), always giving what a fresh builder gives for everything inserted since. Translating, reflecting, swapping the axes of or scaling small inputs maps the diagram the same way up to rounding.",
  ["inputs", "histories"], "all inputs as in P22, permutations and axis symmetries, all builder histories",
  "Metamorphic relations are not tested.",
  ["voronoi_builder.hpp", "voronoi_diagram.hpp", "voronoi.hpp"],
  [("builder", "voronoi_builder.hpp")])
p("P26", "No operation is undefined on in-range input: memory, arithmetic, termination",
  "Running any of the library's geometry, set, polygon, resize, merge, extraction, segment and Voronoi operations on in-range input, in any order the concepts allow, reads and writes only memory it owns, uses iterators and containers within their preconditions, and executes no undefined integer, enumeration or floating-to-integer conversion. It terminates and throws nothing.",
  ["inputs", "histories"], "all in-range inputs and operation sequences",
  "Tests run without sanitizers and on few inputs.",
  ["polygon_90_set_data.hpp", "polygon_45_set_data.hpp", "polygon_set_data.hpp", "voronoi_builder.hpp", "detail/scan_arbitrary.hpp"],
  [("all engines", "polygon.hpp")])
p("P27", "User types that model a concept behave like the library's own types",
  "A user-defined point, interval, rectangle, polygon or polygon set that specializes the documented traits gives, in every concept function and operator, the same results as the library's type holding the same value, also when it normalizes, stores the data differently or is used in containers.",
  ["inputs", "programs"], "all values held by user types, all concept functions",
  "Tests only use one or two custom types in examples.",
  ["polygon_traits.hpp", "rectangle_concept.hpp", "polygon_set_traits.hpp", "polygon_90_set_traits.hpp", "polygon_45_set_traits.hpp"],
  [("traits dispatch", "polygon_traits.hpp")])
p("P28", "Resizing a general set moves every edge by the distance",
  "Resizing a general set (operators + - += -=, resize, bloat, shrink, on sets and on containers of polygons) moves every edge by exactly the distance, outward for positive and inward for negative values, with mitred corners: away from edges by more than the rounding distance membership is that of the moved polygons, whenever no edge vanishes; polygons or holes narrower than twice the distance disappear. With arcs, the result is the set of points within the distance of the set (or farther than it from the complement), up to the given number of segments per circle.",
  ["inputs"], "simple polygons with holes of any angle, distances to the size of the set, all spellings",
  "Tests resize a few fixed polygons.",
  ["polygon_set_data.hpp", "polygon_set_concept.hpp", "detail/minkowski.hpp"],
  [("bloat and shrink", "polygon_set_data.hpp"), ("arcs", "detail/minkowski.hpp")])
with open(V + "/properties.jsonl", "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
print(len(out))
