#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


B = "skcurve/_base.py"
DG = "skcurve/_diffgeom.py"
GA = "skcurve/_geomalg.py"
IN = "skcurve/_intersect.py"
IP = "skcurve/_interpolate.py"
SM = "skcurve/_smooth.py"

prop("C01", "A constructed curve holds exactly the points it was given",
     "A curve built from a sequence of coordinate vectors, from an M x N array (or an array of any shape with an axis "
     "naming the point direction), or from another curve holds exactly the given points in the given order, in the "
     "requested numeric type (by default float64 for sequences and the source's own type for arrays and curves), with "
     "missing dimensions up to ndmin added as zero columns and with the given parametrization vector; a point holds "
     "exactly its given coordinates. Copying a curve (Curve(c), copy, deepcopy) keeps data, type, dimension and "
     "parametrization, also for empty curves. One-dimensional data, a bad axis or ndmin, a non-numeric type and a "
     "parametrization of the wrong shape or size are rejected with ValueError.",
     ["inputs", "configurations"],
     "Every layout (list of vectors, list of arrays, M x N array, axis in range incl. negative, N-D array, Curve), size "
     "0..n, dimension 2..6, numeric dtype, ndmin, tdata.",
     "Tests build a handful of 2-D/3-D curves of fixed shape and dtype; layout x dtype x axis x ndmin x size combinations "
     "(and empty/one-point curves) are unbounded and mostly never built.",
     [B, "skcurve/_utils.py"], [("Curve.__init__", B), ("Point.__init__", B), ("as2d", "skcurve/_utils.py")],
     [("Curve._data/_tdata", "coordinates and parametrization", B)])

prop("C02", "Objects never change, and derived values do not depend on access history",
     "No operation changes the curve, point or segment it is called on, any other existing object, or an array or object "
     "passed in by the caller: coordinate arrays and given parametrization vectors are exposed read-only and later writes to a "
     "caller's source array do not show through. Every derived quantity of a curve (lengths, parametrization, derivatives, frames, "
     "curvature, torsion, segments) has the same value whichever other quantities, points, segments, slices or edits were "
     "asked for before and however often, equal to that of a freshly built identical curve.",
     ["histories", "inputs"],
     "Every sequence of operations (reads of cached quantities, edits, slicing, interpolation, smoothing, intersection) on "
     "every curve.",
     "Tests call each operation once on a fresh object and look at its result; they never re-inspect the receiver or the "
     "arguments after a history of operations, nor vary the order in which cached values are filled.",
     [B, DG, SM, IP], [("read-only numpy flags", B), ("cached_property caches", DG), ("copy in constructor", B)],
     [("cached_property values", "lazily filled derived quantities", DG)])

prop("C03", "Indexing selects exactly the points a sequence index would select",
     "For every integer (positive or negative), slice (any start, stop, step), non-empty integer list/array (with repeats "
     "and negatives) and boolean mask, indexing a curve yields exactly the points, in order, that the same index selects from "
     "the list of its points, together with their parameter values when the curve is parametric, keeping dimension and "
     "numeric type even if nothing is selected. len, iteration and truth value agree with the list of points, and a point's "
     "own coordinates index the same way (a slice of a point is a point). An integer outside -size..size-1 raises "
     "IndexError, a mis-typed or multi-dimensional index raises TypeError or IndexError.",
     ["inputs"], "All curves (parametric or not, any dtype, size 0..n) and all index values.",
     "Tests use a few fixed indices on one curve; the index domain (negative steps, out-of-range bounds, masks, duplicates, "
     "empty selections) is unbounded.",
     [B], [("Curve.__getitem__", B), ("CurvePoint.__init__", B), ("Point.__getitem__", B)])

prop("C04", "Edits behave like edits of the list of points",
     "Inserting a point or sub-curve (at an integer, negative, list or slice position), appending, deleting by integer, list "
     "or slice, concatenating two curves and reversing produce exactly the point list that the same edit produces on a plain "
     "list of points, for every sequence of such edits, keeping the receiver's dimension and numeric type (a sum of two curves has their common type). Positions outside "
     "the curve raise IndexError and operands of another dimension raise ValueError.",
     ["histories", "inputs"], "All sequences of edits over all curves and operands.",
     "Tests check single edits at one or two positions; nothing exercises compositions, emptying and refilling, or the full "
     "position domain.",
     [B], [("Curve.insert/append/delete/__add__/reverse", B)])

prop("C05", "Search and equality agree with comparing points one by one",
     "Membership of a point or contiguous sub-curve, index(point, start, end), count, and equality of points, segments and "
     "curves give exactly what comparing the points one by one (within the library's closeness tolerance for floats, exactly "
     "for integers) gives: first matching absolute index inside start:end (with Python slice semantics, negative bounds "
     "included), number of matches, ValueError if absent. Curves of different size or dimension are unequal, never contain "
     "each other's points when dimensions differ, and index/count with another dimension raise ValueError.",
     ["inputs"], "All pairs of curve and point/sub-curve, all start/end bounds, int and float data.",
     "Tests look up one or two points in one curve; duplicates, bounds, sub-curve positions and near-equal values form an "
     "unbounded domain.",
     [B, "skcurve/_numeric.py"], [("Curve.__contains__/index/count/__eq__", B), ("allequal", "skcurve/_numeric.py")])

prop("C06", "Dimension edits touch only the dimension they name",
     "insertdim puts the given values (zeros by default) as one new coordinate column at the named position, appenddim at the "
     "end, and deletedim removes exactly the named columns, leaving every other coordinate, the point order and the numeric "
     "type unchanged; values(axis) returns the named coordinate column and values() all columns in order. deletedim undoes "
     "insertdim; 2-dimensional curves cannot lose a dimension (ValueError) and axes outside the curve raise the documented "
     "error.",
     ["inputs", "histories"], "All curves of dimension 2..6, all positive and negative axes and axis lists/slices, all value "
     "vectors.",
     "Tests use a fixed 3-D example per method; axis and dimension combinations are not enumerated.",
     [B], [("Curve.insertdim/appenddim/deletedim/values", B)])

prop("C07", "Cleaning operations keep exactly the points they promise",
     "unique keeps the first occurrence of every distinct point in original order; drop removes exactly the points flagged by "
     "the checker (boolean vector, boolean M x N matrix with any-column semantics, or index vector). nonsingular returns an "
     "order-preserving subset without any NaN/Inf point and without any (nearly) zero-length segment, removing nothing else, "
     "and is idempotent. All three keep parameter values aligned with the points kept, and work on empty curves.",
     ["inputs"], "All curves including ones with NaN/Inf runs, repeated points separated by invalid ones, all-invalid and empty "
     "curves; all checkers.",
     "Tests have one example per operation; interleavings of duplicates and invalid points are combinatorial.",
     [B, DG], [("Curve.unique/drop", B), ("nonsingular", DG)])

prop("C08", "Parametrization follows the points through every operation",
     "A curve given tdata is parametric and t is that vector; otherwise t is the cumulative arc length. Copying, indexing, "
     "slicing, deleting, reversing, unique, drop, nonsingular, coorientplane and concatenating two parametric curves keep "
     "every remaining point paired with its own parameter value, and interpolation of a parametric curve yields the grid as "
     "parametrization. Insert, append, dimension edits, smoothing and concatenation with a non-parametric curve yield a "
     "non-parametric curve.",
     ["histories", "inputs"], "All sequences of operations starting from parametric and non-parametric curves.",
     "Tests check isparametric for single operations on one curve; pairing of points with parameters through operation "
     "sequences is never checked.",
     [B, IP, SM], [("tdata handling in Curve operations", B)], [("Curve._tdata", "parametrization", B)])

prop("C09", "Lengths are the Euclidean lengths of the chords",
     "chordlen is the Euclidean distance of each pair of consecutive points (one fewer than points; none for empty and "
     "one-point curves), arclen is their sum, and cumarclen starts at 0, has one value per point and ends at arclen, for every "
     "dimension and numeric type including integer types. Lengths are non-negative, unchanged by reversal, rigid motion and "
     "dimension padding, scale with the data, and add up over sub-curves; segment lengths agree with chordlen.",
     ["inputs"], "All curves: any size, dimension, integer or floating dtype, magnitude, offset.",
     "Tests use float64 curves of a few points; dtype ranges, degenerate sizes and invariances are universally quantified.",
     [DG, B], [("chordlen, arclen, cumarclen", DG)])

prop("C10", "Derivatives are second-order finite differences of the points",
     "firstderiv (tangent) is the central difference in the interior and the second-order one-sided difference at both ends "
     "(first-order for two points, zeros with a warning for one), second and third derivatives are the same operator applied "
     "again, all of shape points x dimension for every size including empty and one-point curves. They are linear in the "
     "coordinates, act on each coordinate independently, are translation invariant, exact for polynomials of degree two "
     "(first derivative), and speed is the norm of the tangent.",
     ["inputs"], "All curves of any size, dimension and integer or floating dtype.",
     "Tests compare one 4-5 point curve with stored numbers; edge formulas, tiny sizes and dtype handling are not covered.",
     [DG], [("_gradient, firstderiv, secondderiv, thirdderiv, speed", DG)])

prop("C11", "Frenet vectors form the Gram-Schmidt frame of the derivatives",
     "Wherever tangent, normal or binormal are well defined, frenet1/2/3 are unit vectors, mutually orthogonal, and equal the "
     "Gram-Schmidt orthonormalisation of the first, second and third derivative; normal and binormal are the corresponding "
     "unnormalised remainders, orthogonal to the preceding frame vectors. Where they are not well defined (stationary point, "
     "straight line, plane curve) the result is finite and (nearly) zero with a warning, never NaN or a spurious unit vector, "
     "whatever the scale or sampling density of the curve.",
     ["inputs"], "All finite curves with 3+ points in dimension 2..6, from coarse to dense sampling.",
     "Tests compare one small curve; unitness and orthogonality over scales, densities and dimensions are universal claims.",
     [DG], [("frenet1/2/3, normal, binormal", DG)])

prop("C12", "Curvature and torsion are the geometric quantities of the sampled curve",
     "For plane curves curvature is the documented signed formula of the first and second derivatives, for higher dimensions "
     "the norm of the unit-tangent derivative over speed, and torsion is <e2', e3> over speed, all from the finite-difference "
     "derivatives. On circles, lines, helices and parabolas curvature converges to the analytic value at every interior point "
     "and torsion at every point three or more points away from the ends, whatever radius, pitch, offset, orientation and "
     "sampling density. They are unchanged by translation and rotation, scale "
     "by the inverse scale factor, signed curvature flips under reversal and mirroring, and torsion of a plane curve is zero.",
     ["inputs"], "All smooth sampled curves with analytic reference; all finite curves for the formula and invariance clauses.",
     "Tests check fixed expected arrays of one or two curves; analytic agreement for all parameters and invariance under all "
     "motions cannot be sampled by hand.",
     [DG], [("curvature, torsion", DG)])

prop("C13", "Curve points and curve segments are faithful views of their curve",
     "Every curve point reports its index, coordinates, parameter and all differential-geometry values equal to the same row "
     "of the curve's arrays; every curve segment i runs from point i to point i+1, reports its index and chord length, and the "
     "segments array has exactly size-1 entries in order. subcurve(p, q) is exactly the slice between the two indices (end "
     "included or not as asked) and rejects points of another curve with ValueError; segment indices out of range are "
     "rejected.",
     ["inputs"], "All curves, all point and segment indices (negative included), all point pairs.",
     "Tests probe one index; index/sign/endpoint combinations over all quantities are not enumerated.",
     [B, DG], [("CurvePoint, CurveSegment, Curve.segments", B), ("_maybe_curve_point", DG)])

prop("C14", "Point arithmetic and metrics agree with vector arithmetic",
     "Sums, differences, products, quotients and floor quotients of points with points or numbers (either side), dot product "
     "and norm equal the component-wise vector results, return points, and never change the operands (norms and distances of integer points are those of the numbers they hold, and copies and slices of a point keep its values and type); unsupported operand "
     "types raise TypeError. distance(metric) equals the named scipy metric with its keyword arguments (Euclidean by default) "
     "or calls the given callable with both coordinate vectors and the keyword arguments; it raises NameError for an unknown "
     "name and TypeError for a non-callable.",
     ["inputs"], "All point pairs of equal dimension, all numbers, all registered metrics with their parameters.",
     "Tests use one pair of points per operator and only the default metric family.",
     [B, "skcurve/_distance.py"], [("Point operators, norm, distance", B), ("get_metric", "skcurve/_distance.py")])

prop("C15", "Segment parametrization and basic attributes",
     "point(t) is p1 + t(p2 - p1) for a number and for a sequence of numbers (one point each, in order), so t=0 and t=1 give the "
     "end points, and t(point) inverts it for every point on the segment's line - one value for a point, an array in order for "
     "a sequence - and gives NaN with a warning exactly for the points that are off the line. direction, seglen, dot, data, "
     "ndim, singular, reverse, to_curve and equality are the values defined by the two end points, and segments with empty or "
     "differently dimensioned ends are rejected.",
     ["inputs"], "All segments of dimension 1..6 away from and near the origin, all parameters and query points.",
     "Tests use a couple of segments through the origin; off-origin lines, mixed on/off-line sequences and scales are open.",
     [B, GA], [("segment_point, segment_t", GA), ("Segment", B)])

prop("C16", "Parallel, collinear, coplanar and angle decide the geometric predicate",
     "For segments and points with exactly representable coordinates, parallel, collinear and coplanar return true exactly "
     "when the exact (rational) geometry says so - independently of segment length, orientation, operand order and position "
     "relative to the origin - and clearly non-parallel or non-collinear inputs are never accepted, while a tolerance well above (below) the deviation accepts (rejects) it. angle is the angle in "
     "[0, pi] between the directions, symmetric, 0 for equal and pi for opposite directions, and NaN with a warning for a "
     "singular segment.",
     ["inputs"], "All segment/segment and segment/point pairs with integer or dyadic coordinates in dimension 2..5.",
     "Tests enumerate a few hand-made pairs, mostly through the origin; the exact predicate over all positions needs an "
     "independent oracle.",
     [GA, B], [("parallel_segments, collinear_points, coplanar_points, segments_angle", GA)])

prop("C17", "Overlap of collinear segments is exactly their common part",
     "For two collinear segments overlap returns the segment whose end points are exactly the ends of the common part (a "
     "singular segment when they only touch) and None when they are disjoint, for every orientation, slope and operand order; "
     "with check_collinear non-collinear segments give None.",
     ["inputs"], "All pairs of collinear segments with exactly representable coordinates in dimension 1..5, plus non-collinear "
     "pairs with the check enabled.",
     "Tests use a few axis-aligned or positive-slope pairs.",
     [GA, B], [("overlap_segments", GA)])

prop("C18", "Shortest distance and segment are the true minimum",
     "distance and shortest_segment between a segment and a point or another segment give the true minimum distance: the "
     "returned ends lie on the operands, its length equals the minimum over all point pairs, and it is symmetric in the "
     "operands - for crossing, parallel, collinear, touching and degenerate (zero-length) segments of every dimension and "
     "scale.",
     ["inputs"], "All segment/point and segment/segment pairs, scales 1e-6..1e6.",
     "Tests contain a handful of pairs; optimality is a universally quantified claim over all point pairs.",
     [GA, B], [("segment_to_point, segment_to_segment", GA)])

prop("C19", "Exact segment intersection agrees with exact rational geometry",
     "For two segments with exactly representable coordinates the exact method reports no intersection, a single intersection "
     "point, or an overlap exactly as exact rational geometry does (parallel and skew segments never intersect, end-point "
     "touches do), and the reported point or overlap segment is the true one and lies on both segments, symmetrically in the "
     "operands. The result object is truthy exactly when there is an intersection, names both segments, and its point, segment "
     "and type agree with each other (mid-point for overlaps, singular segment for points, None when there is none); an "
     "intersection type can only be paired with the data it admits (ValueError otherwise).",
     ["inputs"], "All non-singular segment pairs with small-integer/dyadic coordinates in dimension 2..4, incl. end-point and "
     "collinear contacts.",
     "Tests list about twenty hand-made pairs; contact configurations x dimension x position are combinatorial.",
     [IN, GA], [("ExactIntersectionMethod", IN), ("IntersectionType, SegmentsIntersection", IN)])

prop("C20", "Curve intersection finds exactly the intersecting segment pairs",
     "The exact intersections of two curves, or of a curve and a segment, are exactly the pairs (i, j) of segments that "
     "intersect according to the segment intersection, each once and in row order, carrying the right segments and the same "
     "intersection data, whatever the operand order; the self-intersection of a curve reports exactly the intersecting pairs "
     "i < j that are not adjacent. Empty and one-point curves give an empty list, and operands of different dimension raise.",
     ["inputs"], "All pairs of curves with exactly representable coordinates, self-intersections, curve-segment pairs in both "
     "orders.",
     "Tests count intersections of three or four fixed curves; completeness over all pairs (bounding-box pruning, index "
     "mapping) is universal.",
     [IN], [("_find_segments_bbox_intersection, _curves_intersect_indices", IN)])

prop("C21", "Almost-intersection reports exactly the pairs closer than the tolerance",
     "With the almost method a pair of segments intersects exactly when their shortest distance is below dist_tol, with a "
     "connecting segment of that length with one end on each segment; curves report exactly those pairs (self-intersection: "
     "non-adjacent i < j), with the same result as treating each pair separately, for integer and float data. With "
     "remove_extra exactly one intersection survives per cluster of intersection points linked by distances below extra_tol - "
     "the one with the shortest connecting segment - and with correct_overlap parallel overlapping pairs are reported as "
     "overlaps.",
     ["inputs", "configurations"], "All curve pairs in dimension 2..4, all tolerances and option combinations.",
     "Tests use two fixed 3-D curves; pair completeness, clustering and option interplay are not decided by them.",
     [IN, GA], [("AlmostIntersectionMethod", IN), ("segments_to_segments", GA)])

prop("C22", "Every interpolation method computes the curve it names",
     "Interpolated points at the grid values equal the named scheme applied to each coordinate against the curve's parameter: "
     "piecewise linear, cubic spline with the chosen boundary conditions, cubic Hermite with unit tangents, Akima, monotone "
     "PCHIP, k-order (weighted, smoothing) spline and smoothing spline with its smoothing parameter and weights. Interpolating "
     "schemes reproduce every data point at its own parameter value, polynomials within the scheme's order are reproduced, and "
     "the result keeps dimension and numeric type with one point per grid value.",
     ["inputs", "configurations"], "All non-singular curves with enough points, all grids inside and (where supported) outside "
     "the parameter range, all methods and documented options.",
     "Tests run one curve with one grid per method and mostly check shapes or a few numbers.",
     [IP], [("LinearInterpolator ... CsapsInterpolator", IP)])

prop("C23", "Interpolation grids have the requested points and invalid ones are refused",
     "A count n gives n uniformly spaced parameters from the first to the last parameter of the curve; UniformInterpolationGrid "
     "by length gives round(arclen/length)+1 of them; UniformExtrapolationGrid adds exactly the requested points (or length) "
     "before and after with the same spacing; PreservedSpeedInterpolationGrid gives pcount increasing values from start to end "
     "following the curve's own point spacing; an explicit grid is used as given. Grids that are not one-dimensional and "
     "strictly increasing, counts below two and invalid kinds or fill types are rejected, and a grid not covering the parameter "
     "range warns.",
     ["inputs", "configurations"], "All curves with 2+ points (parametric or not) and all grid specifications.",
     "Tests check a few grid sizes; end points, spacing and rejection over all specifications are universal.",
     [IP, "skcurve/_numeric.py"], [("UniformInterpolationGrid, UniformExtrapolationGrid, PreservedSpeedInterpolationGrid", IP),
                                    ("_get_interpolation_grid", IP)])

prop("C24", "Smoothing applies the named filter to each coordinate",
     "smooth with a window equals the normalised-window moving average of every coordinate with the chosen boundary mode "
     "(named or callable window), and savgol equals the local least-squares polynomial fit (or its derivative) with the chosen "
     "edge mode; the result has the same number of points and dimension, is float64 and not parametric. Constant curves are "
     "unchanged by window smoothing, savgol reproduces polynomials up to its order, smoothing commutes with translation and "
     "scaling, and invalid parameters raise ValueError, TypeError or SmoothingError.",
     ["inputs", "configurations"], "All curves of any dtype, all window sizes/types/modes, all savgol lengths, orders, "
     "derivatives, deltas and modes.",
     "Tests run one noisy curve per method and check shapes.",
     [SM], [("window_filter, savgol_filter, smooth", SM)])

prop("C25", "Well-known curves satisfy their defining equations",
     "Each generator (arc, lemniscate of Bernoulli, Archimedean spiral, Euler spiral, Lissajous, helix, irregular helix) "
     "returns p_count points evenly spaced in its parameter from t_start to t_stop (kept as the parametrization), every point "
     "satisfying the curve's parametric and implicit equations for the given parameters.",
     ["inputs"], "All parameter values (start, stop, count, radii, amplitudes, frequencies, offsets).",
     "Tests evaluate the default parameters of at most a couple of generators.",
     ["skcurve/curves.py"], [("arc, lemniscate_of_bernoulli, archimedean_spiral, euler_spiral, lissajous, helix, "
                              "irregular_helix", "skcurve/curves.py")])

prop("C26", "Method registries behave like name-to-method maps",
     "Registering an interpolator, smoothing or intersection method makes exactly that name available and used, leaves the "
     "others as they were, and returns the registered object to the decorator's user; registering a taken name raises "
     "ValueError and a wrong class TypeError, both without changing the registry. Unknown names raise NameError everywhere, the "
     "default intersection method is the last one set (by option or setter) and is what intersect uses when no method is named, "
     "and a method instance passed directly is used as is.",
     ["histories", "inputs"], "All sequences of register, look-up, use and set-default operations with valid and invalid names.",
     "Tests look up one unknown name per registry and never register in sequence.",
     [IN, IP, SM], [("register_* / get_* / *_methods, set_default_intersect_method", IN + ", " + IP + ", " + SM)],
     [("_intersect_methods, _default_intersect_method, _interpolators, _smooth_methods", "registries", IN)])

prop("C27", "Plane detection and co-orientation decide the geometric condition",
     "isplane is true exactly when all points lie in one plane (always in 2-D and for up to three points), in every position "
     "and point order; is2d, is3d and isspatial reflect the dimension. coorientplane returns the curve itself or its reverse "
     "(parameters following), such that the result's first and last points are positively oriented in the named coordinate "
     "plane whenever they are not in line with its origin (and is idempotent then), and leaves empty and one-point curves "
     "unchanged.",
     ["inputs"], "All curves with exactly representable coordinates in dimension 2..5, all axis pairs.",
     "Tests use two or three fixed curves.",
     [B, GA, DG], [("Curve.isplane, coorientplane", B), ("coplanar_points", GA), ("coorientplane", DG)])

prop("C28", "Invalid requests fail with the documented error and change nothing",
     "Every request outside an operation's contract - wrong operand type, mismatching dimensions, unknown method or parameter "
     "name, invalid method parameter, out-of-range index or axis, wrong checker or metric type - raises the documented "
     "exception type (TypeError, ValueError, IndexError, NameError or the operation's own error class) instead of returning a "
     "result, and leaves all operands, registries and defaults usable and unchanged.",
     ["inputs", "fault_sequences"], "All public operations combined with invalid arguments from every class of mistake, "
     "including user callbacks that raise.",
     "Tests check a dozen raises() cases; callback failures and cross-products of bad arguments are not covered.",
     [B, IN, IP, SM], [("argument checks in the public methods", B)])

prop("C29", "Plotting draws exactly the curve",
     "curveplot draws a line through exactly the curve's points in order on 2-D or 3-D axes (new axes of the right kind, or the "
     "given ones, with plot arguments passed through); with a parameter name it draws one coloured piece per segment whose ends "
     "are the consecutive points, coloured by that parameter over its full range, and show_normals draws the unit normals at "
     "the points. Chained plots share the same axes; curves of more than three dimensions raise ValueError and a 3-D curve on "
     "2-D axes raises TypeError.",
     ["inputs", "configurations"], "All 2-D and 3-D curves and plot options.",
     "No existing test imports the plotting module.",
     ["skcurve/plot.py"], [("CurvePlot", "skcurve/plot.py")])

prop("C30", "Geometric results do not depend on the choice of coordinates",
     "Permuting or mirroring the coordinate axes, translating, padding with zero dimensions, reversing an operand and swapping "
     "operands changes lengths, derivatives, frames, curvature, intersections, overlaps, distances, interpolated and smoothed "
     "curves only by the same transformation (and by the reversal of indices or parameters), never in kind, number or place.",
     ["inputs"], "All curves and curve pairs with exactly representable data, all axis permutations, mirrorings and integer "
     "translations.",
     "Metamorphic relations between runs on transformed inputs are not expressed in any test.",
     [DG, GA, IN, IP, SM], [("all numerical routines act on coordinates symmetrically", "skcurve/")])

prop("C31", "Results depend on the points only, not on how they are stored or made",
     "Curves (and segments and points) with equal coordinates, whatever their number type, memory layout, byte order or the route by which they were made "
     "(constructed, sliced, concatenated, inserted, appended, deleted, dropped, copied, reversed, dimensions inserted and removed), "
     "give equal derived quantities, intersections, overlaps, distances, searches, interpolated and smoothed curves, also when "
     "operands of different types are mixed. Only the type in which new points are stored follows the curve's own type, and "
     "integer types never wrap around inside a computation.",
     ["inputs", "configurations"], "All number types, layouts and routes of construction, for curves whose coordinates float64 represents exactly.",
     "Tests use float64 or default integer lists, made directly by the constructor; type x layout x route x operation is never crossed.",
     [B, DG, GA, IN, IP, SM], [("numeric conversions before the computations", "skcurve/")])

prop("C32", "Local results depend on the neighbouring points only",
     "Chord lengths, derivatives, frames, curvature, torsion, segments, linear, PCHIP and Akima interpolation, window and "
     "Savitzky-Golay smoothing at a place of a curve depend only on a bounded number of neighbouring points, so a part of a curve gives there what the "
     "whole curve gives. The intersections, searches, counts and cleaning of the parts add up to those of the whole curve, and "
     "the length of a curve is the sum of the lengths of its parts.",
     ["inputs"], "All curves of 9 to 200 points, all contiguous parts, all contents of the rest of the curve.",
     "Tests compare whole results of short fixed curves; whole-versus-part relations are not expressed.",
     [B, DG, IN, IP, SM], [("point-wise and segment-wise routines", "skcurve/")])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].replace("i.e.", "").count(". ") + 1
    assert n <= 3, (p["id"], n)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
