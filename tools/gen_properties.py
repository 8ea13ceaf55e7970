"""Writes properties.jsonl (kept here so that the text has one source)."""
import json, os
S = "interpolation/splines/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})
p("C01", "Linear splines reproduce the multilinear interpolant inside the grid",
  "For every evenly or unevenly spaced (or mixed) grid, every array of nodal values and every point inside the grid, eval_linear / eval_spline(k=1) returns the multilinear interpolant of the cell that contains the point. In particular the nodal value is returned at every node and any function that is affine in each variable on a cell is reproduced there.",
  ["inputs", "configurations"], "all grids (1 to 4 dimensions, each dimension even or uneven, any number of nodes >= 2), all values, all points of the closed grid, scalar or vector valued, one point or many",
  "tests compare a few fixed grids and random interior points in some of the generated variants; the code is generated per (dimension, spacing, layout) variant and most variants and cell borders are never run",
  [S + "codegen.py", S + "eval_splines.py", S + "multilinear_numba.py"],
  [("template that locates the cell and the barycentric coordinate", S + "codegen.py eval_template, eval_template_vectorized"), ("tensor reduction", S + "codegen.py gen_trex, get_values")],
  ["eval_linear", "eval_spline(k=1)"])
p("C02", "Outside the grid the requested extrapolation rule is followed exactly",
  "For a point with at least one coordinate outside the grid: 'linear' extends the border cell (multilinear for linear splines; for cubic splines the value and slope at the border are continued along a straight line in that coordinate), 'nearest' returns the value at the closest point of the grid, 'constant' returns 0 for every output. Calls without an extrapolation argument extrapolate linearly.",
  ["inputs", "configurations"], "all grids, coefficients, points with any non-empty subset of coordinates outside, on either side and at any distance; all dimensions 1 to 4, linear and cubic, all call shapes",
  "tests run extrapolation options for smoke only (no values compared) and never mix inside/outside coordinates",
  [S + "codegen.py", S + "eval_splines.py", S + "option_types.py"],
  [("extrapolation branches of the template", S + "codegen.py"), ("option dispatch by type", S + "eval_splines.py __eval_linear/__eval_cubic")],
  ["eval_linear", "eval_cubic", "eval_spline"])
p("C03", "Cubic evaluation inside the grid is the tensor-product B-spline",
  "For every evenly spaced grid, every coefficient array and every point of the closed grid, eval_cubic / eval_spline(k=3) returns the sum over the 4^d neighbouring coefficients of coefficient times product of uniform cubic B-spline values. Hence the result is twice continuously differentiable across cell borders and is the same whichever extrapolation rule is selected.",
  ["inputs", "configurations"], "all evenly spaced grids in 1 to 4 dimensions, all coefficients, all points in the closed grid, all call shapes",
  "tests compare against stored results at a few random points; the polynomial identity on each generated variant is not checked",
  [S + "codegen.py", S + "eval_splines.py"], [("blending formula and basis matrix", S + "codegen.py blending_formula; " + S + "eval_splines.py Ad, dAd")],
  ["eval_cubic", "eval_spline(k=3)"])
p("C04", "Prefiltered cubic coefficients interpolate the data with natural ends",
  "For every data array the coefficients returned by prefilter / filter_cubic / filter_coeffs / filter_mcoeffs make the cubic spline take the data value at every node and have zero second derivative at both ends of every dimension. Both prefilter implementations therefore agree with each other, with and without a caller-supplied output array and independently of its previous contents, and they never modify the data.",
  ["inputs", "configurations"], "all data arrays with any number of nodes >= 2 per dimension in 1 to 4 dimensions, scalar or vector valued, any grid bounds",
  "tests compare with a few stored arrays; the tridiagonal recurrence must work for every length and every dimension",
  [S + "prefilter_cubic.py", S + "filter_cubic.py"], [("tridiagonal elimination along a line", "find_coefs_1d / solve_deriv_interp_1d in both modules"), ("dimension by dimension sweeps", "filter_coeffs_2d..4d, prefilter_cubic overloads")],
  ["prefilter", "filter_cubic", "filter_coeffs", "filter_mcoeffs"])
p("C05", "Requested derivatives are the exact partial derivatives of the spline",
  "For every list of derivative multi-indices with entries 0 or 1 (and higher orders for linear splines, which are 0), eval_spline(diff=...) returns in the given order the exact mixed partial derivatives, in units of the grid coordinates, of the function that is returned without diff, inside the grid and in the linear and constant extrapolation regions.",
  ["inputs", "configurations"], "all grids, coefficients and points (for linear splines off the cell borders, where the derivative exists), all orders lists, linear and cubic, 1 to 4 dimensions, all call shapes",
  "the only derivative test uses one function on one grid with equal unit spacing; scaling by the spacing per dimension and mixed partials are not pinned down",
  [S + "codegen.py", S + "eval_splines.py"], [("differentiated blending formula", S + "codegen.py blending_formula"), ("orders handling", S + "codegen.py get_code_spline")],
  ["eval_spline(diff=...)"])
p("C06", "All call shapes agree, outputs are fully overwritten, inputs untouched",
  "Evaluating many points equals evaluating each point alone; evaluating a vector-valued spline equals evaluating each component alone; calls with a caller-supplied output array write exactly the values the allocating call returns, whatever the array contained; the compatibility functions and spline objects return the same values as eval_linear/eval_cubic. No call modifies grids, coefficients, values or points.",
  ["inputs", "configurations"], "all inputs; every combination of one/many points, scalar/vector valued, allocating/in place, and all entry points in 1 to 4 dimensions",
  "each combination compiles to different generated code; tests exercise a handful and never pre-fill outputs or check inputs afterwards",
  [S + "eval_splines.py", S + "codegen.py", S + "eval_cubic.py", S + "multilinear_numba.py", S + "splines.py", S + "multilinear.py"],
  [("two templates (single and vectorised)", S + "codegen.py"), ("output allocation", S + "eval_splines.py allocate_output"), ("compatibility layer", S + "eval_cubic.py, multilinear_numba.py")],
  ["eval_spline", "eval_linear", "eval_cubic", "eval_cubic_spline(s)", "vec_eval_cubic_spline(s)", "multilinear_interpolation", "vec_multilinear_interpolation", "CubicSpline(s)", "LinearSpline(s)"])
p("C07", "Hand-unrolled cubic routines return the spline value and its exact gradient",
  "Every routine of eval_cubic_numba (eval_cubic_spline(s)_1..4, vec_eval_cubic_spline(s)_1..4) writes or returns the tensor-product cubic spline continued linearly outside the grid; vec_eval_cubic_splines_G and CubicSplines.interpolate(diff=True) return at every point the same values as the plain cubic evaluation and, for every component, all first partial derivatives of that function in grid units, also for points outside the grid where the spline is continued linearly.",
  ["inputs", "configurations"], "all evenly spaced grids in 1 to 4 dimensions, all coefficients, points anywhere, any number of components",
  "one test compares the gradient with finite differences on one grid in the interior; the code is 9000 hand-unrolled lines, different for each dimension",
  [S + "eval_cubic_numba.py", S + "eval_cubic.py", S + "splines.py"], [("unrolled tensor products", S + "eval_cubic_numba.py vec_eval_cubic_splines_G_1..4")],
  ["vec_eval_cubic_splines_G", "CubicSplines.interpolate(diff=True)"])
p("C08", "interp and mlinterp are multilinear interpolation; interp clamps to the grid",
  "mlinterp returns the multilinear interpolant of the cell of the point (border cells are extended outside); interp returns the value of that interpolant at the closest point of the grid. All argument forms (scalars, tuple, one point array, list of points, per-axis arrays) give the same numbers, in the order of the arguments.",
  ["inputs", "configurations"], "all evenly spaced / uneven / mixed grids in 1 to 4 dimensions, all values, all points inside, outside or on nodes, all argument forms",
  "tests check shapes and one linear function; clamping, border cells and the dispatch on argument types are not compared with an oracle",
  ["interpolation/multilinear/mlinterp.py", "interpolation/multilinear/fungen.py"], [("cell search", "fungen.py ol_get_index"), ("tensor reduction", "fungen.py ol_get_coeffs, ol_tensor_reduction"), ("clamping", "fungen.py ol_project"), ("argument form detection", "mlinterp.py detect_types, make_mlinterp")],
  ["interp", "mlinterp"])
p("C09", "Hermite interpolation matches values and slopes and clamps outside",
  "For every increasing grid with values and slopes, the Hermite interpolant is on each cell the cubic that matches both values and both slopes; at or beyond the first/last node it is the first/last value. The vector and matrix forms apply this to each entry.",
  ["inputs", "configurations"], "all increasing grids with >= 2 nodes, all values, slopes and points; scalar, vector and one-column matrix arguments",
  "the tests compare only a few fixed points",
  [S + "hermite.py"], [("basis polynomials", "hermite_splines, hermite_interp"), ("cell search and clamping", "HermiteInterpolation"), ("argument dispatch", "ol_hermite")],
  ["HermiteInterpolation", "HermiteInterpolationVect", "hermite"])
p("C10", "Complete-polynomial basis lists every monomial exactly once, in one order",
  "For every number of variables and every degree 0..5, complete_polynomial returns exactly the n_complete(n, d) distinct monomials of total degree at most d evaluated at each observation, in a fixed order; a single observation gives the same column as a matrix of observations. Degrees above 5 are refused.",
  ["inputs", "configurations"], "all data, any number of observations, any number of variables, all degrees",
  "tests check two small hand-written cases",
  ["interpolation/complete_poly.py"], [("nested monomial loops", "_complete_poly_impl, _complete_poly_impl_vec"), ("count", "n_complete")],
  ["complete_polynomial", "n_complete"])
p("C11", "Complete-polynomial derivative basis is the exact derivative of the basis",
  "For every variable, complete_polynomial_der returns the partial derivative of every row of complete_polynomial in the same order; a fitted CompletePolynomial evaluates its coefficients on that basis, its der() is the exact partial derivative of its value, and with damping the coefficients are the stated convex combination of the new least-squares fit and the old coefficients.",
  ["inputs", "configurations", "histories"], "all data, variables, degrees 0..5, numbers of variables and observations; all sequences of fits",
  "tests check small hand-written cases for one or two variables",
  ["interpolation/complete_poly.py"], [("nested derivative loops", "_complete_poly_der_impl, _complete_poly_der_impl_vec"), ("fit/evaluate", "CompletePolynomial")],
  ["complete_polynomial_der", "CompletePolynomial"])
p("C12", "Grid enumerations list every node once, in the documented order",
  "cartesian returns one row per element of the product, last coordinate varying fastest for order 'C' and first coordinate fastest for 'F'; mlinspace, nodes and the grid attributes of spline objects enumerate exactly the nodes on which values are read by the evaluation functions, so that values computed on them reshape to the value array.",
  ["inputs", "configurations"], "all lists of node arrays with any lengths, all bounds and orders, both enumeration orders, mixed grids",
  "tests check one 2-d and one 3-d example",
  ["interpolation/cartesian.py", S + "__init__.py", S + "multilinear.py", S + "splines.py"], [("repetition kernel", "cartesian.py _repeat_1d"), ("strides", "cartesian.py cartesian"), ("object grids", S + "multilinear.py mlinspace")],
  ["cartesian", "mlinspace", "nodes", "CubicSpline.grid", "LinearSpline.grid"])
p("C13", "Smolyak basis matrix holds products of Chebyshev polynomials and derivatives",
  "cheby2n returns T_0..T_n (or U_0..U_n for the second kind) at every entry; build_B returns for every point and basis index the product over dimensions of the indexed Chebyshev polynomials and, with deriv=True, its exact partial derivatives.",
  ["inputs", "configurations"], "all points, all isotropic or anisotropic index sets",
  "the derivative is marked untested in the source; tests compare one function on one grid",
  ["interpolation/smolyak/grid.py"], [("three term recurrence", "cheby2n"), ("basis products", "build_B")], ["cheby2n", "build_B"])
p("C14", "Smolyak index sets and sparse grids are exactly the nested disjoint union",
  "smol_inds lists every index vector i >= 1 with sum at most d+mu (and i_k <= mu_k+1 when anisotropic) exactly once; the grid consists of distinct Chebyshev extrema, one per basis polynomial, nested in mu, with the closed-form number of points.",
  ["inputs", "configurations"], "all dimensions d >= 2 and all isotropic or anisotropic density parameters",
  "tests compare counts for a few small (d, mu)",
  ["interpolation/smolyak/grid.py", "interpolation/smolyak/util.py"], [("index enumeration", "smol_inds, permute"), ("disjoint sets", "a_chain, phi_chain, s_n"), ("products", "build_grid, poly_inds")],
  ["smol_inds", "poly_inds", "build_grid", "m_i", "num_grid_points", "SmolyakGrid"])
p("C15", "Smolyak interpolation reproduces data and differentiates in user units",
  "dom2cube and cube2dom are mutually inverse affine maps taking the bounds to -1 and 1; the interpolant evaluates the fitted coefficients on the basis at the mapped point, its coefficients solve the interpolation equations of the grid, its gradient is the exact derivative in the user's coordinates, and the requested outputs come back in the documented order.",
  ["inputs", "histories", "configurations"], "all bounds, grids, function values, points and combinations of requested outputs; all sequences of update_theta",
  "tests check a few quadratic functions on the default domain",
  ["interpolation/smolyak/interp.py", "interpolation/smolyak/grid.py"], [("coefficients", "find_theta"), ("evaluation", "SmolyakInterp.interpolate"), ("domain change", "SmolyakGrid.dom2cube, cube2dom")],
  ["SmolyakInterp.interpolate", "SmolyakGrid.dom2cube", "SmolyakGrid.cube2dom"])
p("C16", "No evaluation ever reads or writes outside its arrays, whatever the point",
  "Evaluation and filtering functions access only existing elements of the grid, coefficient, point and output arrays, for any point whatsoever (far outside, infinite or NaN), for every grid with at least two nodes per dimension.",
  ["inputs", "configurations"], "all grids, all coefficient arrays of matching shape, all points including infinities and NaN, 1 to 4 dimensions, every entry point",
  "compiled code has no bounds checks, so an out-of-range access silently returns garbage or corrupts memory; tests use finite points near the grid",
  [S + "codegen.py", S + "eval_cubic_numba.py", S + "hermite.py", "interpolation/multilinear/fungen.py", S + "prefilter_cubic.py", S + "filter_cubic.py", "interpolation/cartesian.py"],
  [("index clamping", S + "codegen.py; fungen.py clamp"), ("loop bounds of the filters", "filter_coeffs_*")], ["all evaluation functions"])
p("C17", "Grid constructors accept exactly the valid grids and return them unchanged",
  "UCGrid and CGrid return the dimensions in order and unchanged when every dimension is valid (bounds increasing and at least two nodes; 1-d array with at least two nodes for CGrid) and raise otherwise, whichever dimension is invalid.",
  ["inputs", "configurations"], "all argument lists",
  "tests build two valid grids only",
  [S + "__init__.py"], [("assertions per dimension", "UCGrid, CGrid")], ["UCGrid", "CGrid"])
p("C18", "B-spline basis function is the Cox-de Boor recursion with local support",
  "For every increasing knot vector, order and index the recursive basis function equals the Cox-de Boor B-spline: non-negative, zero outside its knot span, and summing to one over the indices at any point covered by enough knots.",
  ["inputs"], "all strictly increasing knot vectors, all orders, indices and points",
  "no test calls it", [S + "basis_splines.py"], [("recursion", "B, B0")], ["basis_splines.B"])
p("C19", "Spline objects always evaluate the values that were set last",
  "After any sequence of set_values and evaluations, a CubicSpline, CubicSplines, LinearSpline or LinearSplines object evaluates exactly the function determined by its bounds and the most recently accepted values; evaluation changes nothing, arrays passed in are neither modified nor retained by the cubic classes, and non-finite values or points are refused by the cubic classes without changing the object.",
  ["histories", "inputs"], "all sequences of operations and all values and points",
  "tests build each object once and evaluate it once",
  [S + "splines.py", S + "multilinear.py"], [("copy and refilter", "CubicSpline.set_values, CubicSplines.set_values"), ("guards", "interpolate")],
  ["CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines"],
  [("coefficients", "filtered coefficients of the last accepted values", S + "splines.py __coeffs__, __mcoeffs__")])
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(q) + "\n")
