"""Oracle and generator notes per property, as written into DESIGN.md."""
import json, os
N = {
'C01': ('the generating point list itself (exact equality of data, dtype, shape and parameters)', 'point lists of 0..n points in 2..6 dimensions, all integer/float dtypes with their extreme values, every layout (lists, arrays, N-D array with an axis, curve), ndmin, tdata; malformed arguments; points and curve points of one or several other curves as the source; NaN, infinities, signed zeros'),

'C03': ('Python list indexing of the list of rows (and of the parameters)', 'integers in and outside of range, slices with any of start/stop/step, integer lists and arrays with repeats, masks, numpy integers; parametric and plain curves of every dtype, size 0..n, with NaN, infinities, signed zeros and full-range integers'),
'C04': ('a Python list of tuples edited by the same operation; compared after every step', 'histories of up to 8 edits with positions of every kind (negative, out of range, lists, slices) and operands (points, curves of 0..n points), with NaN, infinities and full-range integers too; sums of curves of different types'),
'C05': ('a plain loop over the points with the closeness predicate stated in the docs (|a-b| <= atol + rtol*|b| for floats, equality for integers)', 'curves over tiny alphabets (many repeats), near-equal values on both sides of the tolerance, start/end of every sign, sub-curves cut from the curve, other dimensions'),
'C06': ('a list of columns edited by the same operation', 'histories of insertdim/appenddim/deletedim, axes in and outside of range, scalar lists and slices, odd values (NaN, infinities, -0.0), values given as points, lists, arrays and matrices (refused)'),
'C07': ('reference filters written from the documentation; a validity predicate (subset, order, nothing else removed) and idempotence', 'point lists with many repeats, NaN and infinities anywhere, segments around the zero-length threshold, checkers of all three result kinds, offsets up to 1e6'),
'C08': ('a list of (point, parameter) pairs', 'histories of parametrization-keeping operations, optionally ended by a breaking one'),
'C09': ('exact rational squared lengths (Fractions), metamorphic relations', 'all dtypes with extreme integers, size 0..n, dimension 2..6, scales 1e-150..1e150, curves far from the origin'),
'C10': ('finite differences evaluated in Fractions', 'size 0..n, dimension 2..6, all dtypes, polynomials of degree up to two'),
'C11': ('Gram-Schmidt in Fractions of the exact finite differences (deciding also whether a vector is well defined); analytic frames', 'random curves, plane and straight curves, stationary points, circles/ellipses/helices/lines over ten orders of magnitude of scale and density'),
'C12': ('the documented formulas on reference differences; analytic values; invariance under motions', 'as C11'),
'C13': ('the arrays of the curve (and sequences of rows)', 'all sizes, dimensions, parametric or not, indices of both signs, NaN and infinities in the coordinates'),
'C14': ('component-wise numpy/Fraction arithmetic in the promoted type; scipy metric of that name plus independent formulas', 'points of every dtype with points and Python/numpy numbers on either side; integers up to the limits of their types; copies and slices; every scipy metric with its parameters'),
'C15': ('exact rational parameter; closed formulas', 'segments of every orientation, scales 2^-10..2^45 and distance from the origin, float and integer points; parameters as numbers, lists, arrays, inside and outside 0..1; points on and off the line'),
'C16': ('exact rational predicates on integer and dyadic coordinates; atan2 of exact products', 'small-integer and dyadic segments constructed to be parallel/collinear/coplanar/almost so, far from the origin, at scales 2^-20..2^20'),
'C17': ('exact intersection of two parameter intervals on a common line', 'direction x four positions on it: nested, touching, disjoint, reversed, singular'),
'C18': ('exact minimum over the five candidate pairs in Fractions', 'crossing, parallel, collinear, touching and degenerate segments, dimension 2..5, scales'),
'C19': ('exact rational intersection (none / point / overlap)', 'small-integer segments (touching, T, cross, overlap, parallel, skew), dyadic scales 2^-10..2^45 and far offsets, touching and parallel within 1e-6..1e-3 of a miss; decimal crossing segments with stated tolerance'),
'C20': ('the exact reference for all pairs of segments; an orientation test of all pairs for long curves', 'curves over small grids (many touches and overlaps), repeated points, empty and one-point curves, scales 2^-10..2^30, long random walks'),
'C21': ('exact squared distances of all pairs; union-find clusters', 'curves with distances on both sides of dist_tol (and away from it by a margin), overlapping pairs, clusters chained below extra_tol'),
'C22': ('independent implementations: tridiagonal/dense solves of the named scheme in vf/oracle.py; the smoothing functional solved directly; FITPACK called directly for the smoothing fit', 'parametric and natural curves, grids by count, explicit, on the knots, outside of the range; boundary conditions, orders, weights, smoothing parameters'),
'C23': ('formulas of the documentation; validity predicates (increasing, ends, spacing)', 'counts, lengths, extrapolation by count and length, preserved speed for every point spacing, explicit grids valid and invalid, parameters far from zero'),
'C24': ('direct convolution with explicit boundary extension; local least squares by numpy lstsq', 'window names with parameters, sizes, modes, callables; savgol windows, orders, derivatives, modes'),
'C25': ('the equations of the documentation evaluated independently (Fresnel integrals by scipy.special)', 'parameters of both signs, ranges in both directions, counts 0..n'),
'C26': ('a dictionary per registry', 'histories of register/look-up/use/set-default with taken and wrong registrations, names differing in case, space and prefix'),
'C27': ('exact affine rank; sign of the exact 2x2 determinant', 'planar, almost planar and spatial point sets at integer coordinates in every order; axis pairs'),
'C28': ('table of documented errors; snapshots of operands, caches, registries and defaults before and after', 'sequences of invalid requests incl. callbacks which raise; wrong-typed arguments to every operation'),
'C29': ('the matplotlib artists (line data, colours, normal quivers) against the curve', 'plane and spatial curves, given and new axes, parameters, normals, chains of plots'),
'C30': ('the run on the original input, transformed', 'signed axis permutations, integer translations, zero padding, reversal, swapping; units from 2^-100 to 2^100'),
'C31': ('the same operation on the plain, contiguous float64 curve of the same points', 'eleven number types x twenty ways of storing or making a curve; mixed operands; curves of 0-120 points; segments and points of every type with coordinates at the limits of the type'),
'C32': ('the same operation on the whole curve', 'curves of 12-200 points, contiguous parts of at least nine points, rest of the curve replaced or undefined, scales 2^-40..2^30, the other points scaled by 2^-40..2^40; for intersections curves of 3-30 points'),
}
N['C02'] = ('snapshots of every object made so far after every operation; differential against a freshly built identical curve', 'histories of up to ~10 operations (reads of derived quantities of curve, points and segments, edits, slices, interpolation, smoothing, intersection, plotting-free) on every kind of curve; orders of access')
json.dump({k: {'oracle': a, 'gen': b} for k, (a, b) in N.items()},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'design_notes.json'), 'w'), indent=1)
