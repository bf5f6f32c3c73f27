import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if observe: a["observe_at"]=observe
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
N="neutralocean/"
p("C01","Root finding brackets a zero of the given function or says NaN",
  "Solving for a zero of a function between two bounds returns NaN exactly when the function values at the bounds have no sign change or a bound or a value there is NaN. Otherwise the result lies between the bounds and is either an exact zero or is within twice the requested tolerance (plus rounding) of a point across which the function changes sign. The variant that starts from a guess gives the same guarantee for the bracket it finds inside the bounds.",
  ["inputs"],"every function, every pair of bounds, every guess, every non-negative tolerance",
  "the tests try one function family and a handful of brackets; the guarantee is over all functions and all iterations of the search",
  [N+"fzero.py"],[("inverse quadratic / secant / bisection steps keep a sign-changing bracket",N+"fzero.py:brent"),("guess to bounds then bracketing solve",N+"fzero.py:brent_guess")],
  ["return values of brent and brent_guess"])
p("C02","Bracketing search stays inside the bounds and finds a sign change or NaN",
  "Given a guess and two bounds, the bracketing search returns two numbers inside the bounds, in order, between which the function changes sign (or is zero at an end), or returns a pair of NaN. NaN is returned when an input is NaN, and otherwise only when the function has the same sign at both bounds. It always stops, also for guesses outside the bounds and NaN guesses or bounds.",
  ["inputs"],"every function, bounds and guess, including guesses outside the bounds, NaN guesses and bounds",
  "the expansion history depends on the function; tests sample one",
  [N+"fzero.py"],[("geometric outward expansion from the guess",N+"fzero.py:guess_to_bounds")],["return value of guess_to_bounds"])
p("C03","The valid range of a cast is its first run of non-NaN data",
  "For data along a cast, the reported range (start, stop) is exactly the first maximal contiguous run of non-NaN data: every datum in it is non-NaN, everything before it is NaN, and the datum just after it (if any) is NaN; if there is no datum the range is empty. For two arrays the range is that of positions where both are non-NaN. The inputs are not changed.",
  ["inputs"],"every length and every NaN pattern",
  "patterns grow exponentially with the length; tests try none directly",
  [N+"ppinterp/lib.py"],[("scan for first non-NaN then first NaN",N+"ppinterp/lib.py:valid_range_1, valid_range_1_two, valid_range")])
p("C04","Interpolants are evaluated with the right polynomial piece, or NaN",
  "Evaluating a piecewise polynomial at a point inside the valid range gives the requested derivative of the polynomial of the segment that contains the point; outside the valid range, for a NaN point, or without at least two valid data the result is NaN (the variants that skip the checks agree with the checked ones inside the range). Evaluating two dependent variables at once equals evaluating them one at a time.",
  ["inputs"],"every grid of data sites (with NaN padding), every coefficient array, every evaluation point including data sites and end points, every derivative order",
  "the tests evaluate a few points of two casts; boundaries between segments, end points and NaN patterns are not swept",
  [N+"ppinterp/ppinterp.py",N+"ppinterp/lib.py"],[("segment search and Horner evaluation",N+"ppinterp/ppinterp.py:ppval_1, ppval_1_two, ppval_1_nonan, ppval_1_nonan_two, ppinterp_1, pval")])
p("C05","Linear and PCHIP interpolants pass through the data and keep its shape",
  "The linear and PCHIP coefficients give an interpolant that equals the data at every data site of the valid range and is NaN outside it. On each segment the linear interpolant is the chord; the PCHIP interpolant is once continuously differentiable, monotone between neighbouring data (so it never overshoots them), and its slopes at the sites are the Fritsch-Carlson / three-point values. Computing coefficients reads and writes only inside the arrays and leaves the data unchanged.",
  ["inputs"],"every strictly increasing set of sites, every data values, every NaN padding, every length including 0, 1, 2 and 3",
  "tests compare with scipy on a few random casts",
  [N+"ppinterp/linear.py",N+"ppinterp/pchip.py",N+"ppinterp/lib.py"],[("chord slopes",N+"ppinterp/linear.py"),("harmonic-mean interior slopes and limited end slopes",N+"ppinterp/pchip.py:_pchip_coeffs_i, _pchip_coeffs_1")])
p("C06","Equation of state derivative functions are the true derivatives",
  "Each equation of state's functions for partial derivatives with respect to salinity, temperature and pressure return exactly the mathematical partial derivatives of that equation of state's density (or specific volume) function, for every first, second and third derivative it offers.",
  ["inputs"],"every salinity, temperature and pressure for which the function is differentiable",
  "tests compare with finite differences or stored values at a point or two; a wrong high-order coefficient is invisible there",
  [N+"eos/jmd95.py",N+"eos/jmdfwg06.py",N+"eos/gsw.py"],[("hand-differentiated polynomials and rational functions",N+"eos/*.py")])
p("C07","Equations of state compute the published formulas and Boussinesq scaling",
  "Each equation of state returns the published formula (its published coefficients and unit conversions) at every salinity, temperature and pressure. Selecting one by name, with or without gravity and Boussinesq reference density, returns that function evaluated at pressure equal to depth times 1e-4 times gravity times reference density, pressure derivatives scaled by the same factor per order, and vectorising it changes no value. Unknown names are rejected.",
  ["inputs","configurations"],"every (s, t, p), every name, every gravity and reference density, in any order of requests",
  "tests check one check value per equation of state; cached constructors depend on the history of requests",
  [N+"eos/jmd95.py",N+"eos/jmdfwg06.py",N+"eos/gsw.py",N+"eos/tools.py"],[("polynomial evaluation",N+"eos/*.py"),("cached factories",N+"eos/tools.py:_make_eos, make_bsq, vectorize_eos")])
p("C08","Isosurfaces: each cast is on the isovalue within tolerance, or NaN",
  "On every cast, a potential-density or anomaly isosurface is either NaN in all three of salinity, temperature and pressure, or its pressure lies within the cast's valid range, is within the solver tolerance of an exact crossing of the isovalue, and its salinity and temperature are the interpolated values at that pressure. It is NaN where the cast has fewer than two valid data, and otherwise only where both ends of the cast lie on the same side of the isovalue. One cast's result does not depend on any other cast.",
  ["inputs"],"every set of casts, NaN patterns, reference, isovalue, tolerance, interpolant and equation of state",
  "tests check two configurations of one synthetic ocean",
  [N+"surface/_vertsolve.py",N+"surface/isopycnal.py"],[("bracket and solve per cast",N+"surface/_vertsolve.py:_vertsolve, _zero_potential, _zero_anomaly")])
p("C09","The reference, isovalue and pinning choices select the surface asked for",
  "With reference and isovalue given, pinning arguments are ignored; with a pinning cast and pressure, the surface passes exactly through that pressure on that cast, with the interpolated salinity and temperature there, and the reported reference and isovalue are the given ones or the values at the pinning point. Calls that do not determine a surface are rejected.",
  ["inputs","configurations"],"every combination of reference, isovalue, pinning cast and pressure, for both kinds of surface, and every way to name the pinning cast",
  "tests use one combination per kind",
  [N+"surface/isopycnal.py",N+"lib.py"],[("argument precedence and pinning",N+"surface/isopycnal.py:_isopycnal, _check_ref, _choose_ref_isoval"),("pinning cast names",N+"lib.py:_process_pin_cast")])
p("C10","Neutral connections and trajectories are neutral at the midpoint pressure",
  "The neutral connection from a bottle to a cast is either NaN in salinity, temperature and pressure, or lies in the cast's valid range at a pressure within tolerance of a place where bottle and cast have equal density at their average pressure, with salinity and temperature interpolated there; it is NaN for casts with fewer than two valid data and otherwise only if both ends of the cast are on the same side of the bottle. A neutral trajectory starts at the given pressure on the first cast, each next point is the neutral connection from the previous one, and after the first failure all later points are NaN.",
  ["inputs","histories"],"every bottle, cast, sequence of casts, tolerance, interpolant and equation of state",
  "tests run one trajectory on one data set",
  [N+"traj.py"],[("density difference at average pressure",N+"traj.py:_pot_dens_diff"),("bracket and solve",N+"traj.py:_ntp_bottle_to_cast, _ntp_bottle_to_cast_ppc"),("trajectory recurrence",N+"traj.py:neutral_trajectory")])
p("C11","Breadth-first search returns exactly the connected component of its root",
  "For every graph, set of admissible nodes and root, the search returns each admissible node connected to the root through admissible nodes exactly once, and no other node, starting with the root; it returns nothing if the root is not admissible. Every node after the first has a neighbour earlier in the list.",
  ["inputs"],"every graph (including self loops and repeated edges), admissible set and root",
  "tests only reach it through two surface computations on one rectangular grid",
  [N+"bfs.py"],[("queue of visited nodes",N+"bfs.py:bfs_conncomp1")],None,[("queue","nodes reached so far","qu, qt, qh in bfs_conncomp1")])
p("C12","Wetting grows the surface only by neutral links below the mixed layer",
  "Wetting the perimeter keeps the surface unchanged on casts connected to the pinning cast, removes it elsewhere, and adds casts only next to the surface, each at the mean of the neutral links from its wet neighbours that lie within its data and below its own mixed layer, with salinity and temperature interpolated there; the number of added casts is reported. The search that wets as it goes likewise adds each cast at most once, only by a neutral link below its mixed layer, and returns all casts of the grown component.",
  ["inputs","histories"],"every graph, surface, ocean, mixed layer, root and number of passes",
  "the set of casts reached depends on the whole history of earlier links; tests see one history",
  [N+"bfs.py"],[("component search plus perimeter queue",N+"bfs.py:bfs_conncomp1_wet_perim, bfs_conncomp1_wet")])
p("C13","Omega update keeps the pinning cast and moves each cast by its correction",
  "In each iteration of an omega surface, a cast whose density correction is zero is left exactly as it was, a cast with no correction or no solution becomes NaN in all three variables, and any other cast moves to a point in its valid range where density referenced to its previous pressure differs from its previous value by the correction, within tolerance. The pinning cast keeps its pressure exactly, and only casts connected to it through the surface are kept.",
  ["inputs","histories"],"every initial surface, ocean, grid, number of iterations and option",
  "tests run a few iterations on one small ocean and look at one norm",
  [N+"surface/_vertsolve.py",N+"surface/omega.py"],[("vertical update",N+"surface/_vertsolve.py:_vertsolve_omega"),("iteration and pinning",N+"surface/omega.py:omega_surf")])
p("C14","Omega corrections solve the weighted least-squares neutrality problem",
  "The density correction computed for a connected region is zero at the pinning cast, NaN outside the region, and minimises the distance-weighted sum over the region's edges of the squared neutrality error after correction; both matrix formulations give the same correction. Edges leaving the region do not influence it.",
  ["inputs"],"every region, graph, set of distances, surface and pinning cast",
  "tests compare final norms of two runs with loose tolerances",
  [N+"surface/omega.py"],[("edge selection and remapping",N+"surface/omega.py:_omega_matsolve_helper"),("graph Laplacian / gradient system",N+"surface/omega.py:_omega_matsolve_poisson, _omega_matsolve_gradient")])
p("C15","Neutrality errors, their norms and edge sums follow their definitions",
  "The neutrality error of each pair of adjacent casts is the density derivative at their mean salinity, temperature and pressure times the differences from the first to the second, divided by their distance if given; it is NaN exactly when either cast is NaN. The norms are the area-weighted root mean square and mean absolute value over the non-NaN edges (zero if there are none). Sums over edges at nodes, and divergences, add each edge once to its node and nothing for negative indices.",
  ["inputs"],"every surface, graph, distances and equation of state",
  "tests compare a norm with stored numbers for one ocean",
  [N+"ntp.py",N+"lib.py",N+"grid/tools.py"],[("edge errors",N+"ntp.py:_ntp_epsilon_error1, ntp_epsilon_errors"),("norms",N+"ntp.py:ntp_epsilon_errors_norms"),("aggregation",N+"lib.py:aggsum, grid/tools.py:divergence")])
p("C16","Graph conversions list every edge in both directions and nothing else",
  "Converting a list of edges to adjacency form gives, for every node, exactly the other ends of its edges (each as often as it occurs), in a valid compressed layout that covers all nodes. Building a grid from one or two adjacency matrices lists each adjacent pair once with its own distances, for dense and sparse, symmetric and one-sided matrices, and rejects matrices whose structures differ. Applying a function to edges evaluates it on the first and second node of each edge.",
  ["inputs"],"every edge list, node count and matrix",
  "tests build one small rectangular graph",
  [N+"grid/graph.py"],[("counting sort by node",N+"grid/graph.py:edges_to_csr"),("sparse conversions",N+"grid/graph.py:edges_to_graph, build_grid, triu_if_sym, graph_binary_fcn")])
p("C17","Grids connect exactly the adjacent casts, each edge with its distances",
  "Rectilinear grids have exactly one edge per pair of casts that are neighbours along a dimension, wrapping around in periodic dimensions and not otherwise; tripolar grids wrap in longitude and fold the northern row onto itself. Each edge's distance and perpendicular distance are the given values at that edge (broadcast, and with halo removed where allowed). Converting edge data to maps puts each edge's value at its cell in its dimension and NaN elsewhere, and so inverts the edge ordering.",
  ["inputs","configurations"],"every grid size, periodicity and distances (scalars, 1D, 2D, with halo)",
  "tests use one grid size and check only through surfaces",
  [N+"grid/rectilinear.py",N+"grid/tripolar.py",N+"grid/xgcm.py"],[("index arrays",N+"grid/rectilinear.py:_build_edges, _build_edgedata, edgedata_to_maps"),("fold",N+"grid/tripolar.py:_build_edges, _build_edgedata"),("tiled",N+"grid/xgcm.py:build_grid, edgedata_to_maps")])
p("C18","Veronis density is surface density plus the integral of neutral stratification",
  "The Veronis density at a pressure is the potential density at the start pressure plus the factor times the integral, from start to end pressure, of the locally referenced vertical density derivative along the interpolated cast, by the trapezoidal rule with steps no larger than asked and never across a data site. It is antisymmetric in swapping the end points, and NaN when either pressure is outside the cast.",
  ["inputs"],"every cast, pair of pressures (including data sites and end points), step, factor, interpolant and equation of state",
  "no test covers it",
  [N+"label.py"],[("piecewise trapezoidal integral",N+"label.py:veronis, _int_dlrpd_dz, _int_x_k")])
p("C19","Mixed layer base is where density first exceeds the reference bottle",
  "The mixed layer pressure on each cast is the interpolated pressure at which potential density (referenced to the given pressure) exceeds that of the chosen near-surface bottle by the given difference, whether the equation of state gives density or specific volume, and NaN when the cast never reaches it or lacks data.",
  ["inputs"],"every set of casts with increasing density, threshold, reference pressure, bottle and equation of state",
  "no test covers it",
  [N+"mixed_layer.py"],[("inverse interpolation of the density difference",N+"mixed_layer.py:mixed_layer")])
p("C20","Input conventions do not change results, and inputs are never modified",
  "Surfaces, trajectories and mixed layers give the same numbers whichever axis (or named dimension) is vertical, whether the data are plain or labelled arrays, whether pressure is given per level or per cell, and in whatever memory layout; surfaces of labelled inputs are labelled, with the lateral dimensions and coordinates of the input. None of the caller's arrays is modified.",
  ["inputs","configurations"],"every axis order, memory layout, labelled or plain, broadcast or full pressure, and dtype",
  "tests use one layout",
  [N+"lib.py",N+"surface/isopycnal.py",N+"surface/omega.py",N+"traj.py",N+"mixed_layer.py"],[("normalisation of casts",N+"lib.py:_process_casts, _process_vert_dim, _contiguous_casts"),("labelled in and out",N+"lib.py:_xr_in, _xrs_in, _xr_out")])
p("C21","Array helpers index exactly what they say",
  "Finding the first NaN along any axis gives the smallest index whose value is NaN, or the length if none. Taking values with fill gives the element at each non-negative index and the fill value elsewhere; evaluating an array at a level (one for all casts or one per cast) gives the element at that level, NaN for negative levels, keeps the lateral shape and leaves the array unchanged.",
  ["inputs"],"every array, axis, shape (including length-1 dimensions) and index",
  "tests use them as tools on one array",
  [N+"lib.py"],[("loops over casts",N+"lib.py:find_first_nan, _find_first_nan, take_fill, val_at")])
p("C22","Stabilisation leaves stable casts alone and makes unstable ones stable",
  "Stabilising a set of casts changes only casts with a pair of neighbouring bottles whose locally referenced density gradient is below the threshold, changes only their valid data, and leaves each pair of every cast at or above the threshold (within the optimiser's tolerance). Counting unstable pairs gives the number of neighbouring bottles with non-increasing locally referenced density.",
  ["inputs"],"every set of casts, threshold, weight, layout and density function",
  "no test covers it",
  [N+"stability.py"],[("constrained minimisation per cast",N+"stability.py:stabilize_ST"),("counting",N+"stability.py:count_unstable")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["title"]
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
