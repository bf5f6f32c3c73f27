"""Which units (functions under contract, lemmas) and which concrete harness decide
each property."""

PROPS = {}


def prop(pid, modules, units, harness, only=None, budget=25, trusted=(), bounded="", assume=(), env=None):
    """modules: contract modules; units: predicate on the unit name or list of prefixes"""
    PROPS[pid] = dict(modules=modules, units=units, harness=harness, only=only, budget=budget,
                      trusted=list(trusted), bounded=bounded, assume=list(assume), env=env or {})


FZ, LIB, LIN, PPI, PCH = ("neutralocean/fzero.py:", "neutralocean/ppinterp/lib.py:", "neutralocean/ppinterp/linear.py:",
                          "neutralocean/ppinterp/ppinterp.py:", "neutralocean/ppinterp/pchip.py:")

prop("C01", ["fzero"], [FZ + "brent", FZ + "brent_guess"], "h_fzero", budget=25,
     assume=["continuity of the user's function (intermediate value theorem) turns the proved sign change into a root; termination is not proved (a search with a watchdog stands in)"])
prop("C02", ["fzero"], [FZ + "guess_to_bounds"], "h_fzero", budget=25,
     assume=["termination is not proved (a search with a watchdog stands in)"])
GUF = ["numba's guvectorize applies the kernel to every combination of the broadcast leading indices"]
prop("C03", ["ppi", "guf"], [LIB + "valid_range_1", LIB + "valid_range_1_two", LIB + "valid_range", "lemma:valid-range-unique"], "h_interp", only=["vr", "diff"], budget=15,
     assume=GUF)
prop("C04", ["ppi", "guf"], [PPI, LIB], "h_interp", only=["pp", "make"], budget=20, assume=GUF,
     bounded="pval: up to 8 coefficients and derivatives up to 6; the others: 2 and 4 coefficients, derivatives up to 3; more coefficients are searched")
prop("C05", ["ppi", "pchip", "guf"], [LIN, PCH, LIB + "diff", "lemma:pchip"], "h_interp", only=["interp", "make", "diff"], budget=30, assume=GUF,
     bounded="derivative orders above 1 of the interpolants and make_pp on its own are exercised concretely only")
EOSA = ["floats are exact reals and decimal literals denote themselves; identities hold up to a relative 1e-15 per coefficient; s > 0 (s = 0 and the clipping of negative salinity are exercised concretely)"]
prop("C06", ["eos"], [r"re:\[deriv\]$"], "h_eos", only=["deriv"], budget=20, assume=EOSA)
prop("C07", ["eos"], [r"re:\[value\]$", "neutralocean/eos/tools.py:"], "h_eos", only=["value", "make", "bad", "gswc", "bsq"], budget=20,
     assume=EOSA + ["make_bsq with num_p_derivs 0..3; numba's njit and vectorize preserve the semantics of the function they wrap"],
     bounded="eos/gswc.py (thin wrapper of the external gsw library) is exercised concretely only")
VS, TRJ, ISO = "neutralocean/surface/_vertsolve.py:", "neutralocean/traj.py:", "neutralocean/surface/isopycnal.py:"
CASTS = ["the casts are stacked in one horizontal dimension (numpy.ndindex over more is exercised concretely)",
         "pressure strictly increases along the valid data, temperature is valid where salinity and pressure are, the equation of state gives a number for numbers",
         "continuity of the density difference turns the proved sign change into a root"]
prop("C08", ["vert", "iso"], [VS + "_vertsolve", VS + "_zero_potential", VS + "_zero_anomaly", r"re:_surf\[ref\+isoval,none", "lemma:ppval"], "h_surf", only=["iso"], budget=30,
     assume=CASTS, bounded="more than one horizontal dimension and diags=True are exercised concretely only")
prop("C09", ["vert", "iso"], [r"re:isopycnal.py:.*_surf\[", "lemma:ppval"], "h_surf", only=["pin", "reject", "iso"], budget=30,
     assume=CASTS + ["the pinning pressure lies in the valid range of the pinning cast"],
     bounded="pinning casts that do not index the data and more than one horizontal dimension are exercised concretely only")
prop("C10", ["vert"], [r"re:^neutralocean/traj.py:(?!.*(vert_dim|one P|labelled))"], "h_traj", budget=30, assume=CASTS)
prop("C11", ["bfs"], [r"re:bfs_conncomp1$", "lemma:count"], "h_bfs", only=["bfs"], budget=20,
     assume=["indptr, indices are a graph in CSR form with valid node numbers (proved for edges_to_csr, C16)"])
prop("C12", ["bfs"], [r"re:bfs_conncomp1_wet", "lemma:count"], "h_bfs", only=["wet", "perim"], budget=35,
     assume=CASTS + ["indptr, indices are a graph in CSR form with valid node numbers (proved for edges_to_csr, C16)"])
prop("C13", ["vert"], [VS + "_vertsolve_omega", VS + "_zero_potential"], "h_omega", only=["update", "omega"], budget=40, assume=CASTS,
     bounded="omega_surf's outer iteration (convergence history, pinning between iterations, wetting) is exercised concretely only")
prop("C14", ["omega", "arrays"], ["neutralocean/surface/omega.py:_omega_matsolve", "lemma:selection", "lemma:sums", "lemma:balance", "lemma:power", "lemma:energy",
                                  "lemma:minimum", "neutralocean/lib.py:aggsum", "neutralocean/ntp.py:ntp_epsilon_errors"], "h_omega", only=["solve"], budget=25,
     trusted=["scipy.sparse.csc_matrix adds the entries given for one place; L[i, j] += v changes that entry",
              "scipy.sparse.linalg.spsolve solves a system of full rank exactly (the full rank is proved)",
              "scipy.sparse.linalg.lsqr returns a least-squares solution (it satisfies the normal equations)"],
     assume=["the region is connected (a spanning tree is given; C11) and its casts are wet (C12)", "distance ratios are positive and finite",
             "the derivatives of the equation of state are finite on finite input"])
prop("C15", ["arrays"], ["neutralocean/ntp.py:", "neutralocean/grid/tools.py:", "neutralocean/lib.py:aggsum"], "h_ntp", only=["eps", "agg", "div"], budget=25,
     assume=["the derivatives of the equation of state are finite on finite input", "arrays of 1 to 3 dimensions"])
prop("C16", ["graph"], ["neutralocean/grid/graph.py:", "lemma:graph"], "h_graph", only=["csr", "graph", "binary", "matgrid"], budget=25,
     bounded="build_grid and edges_to_graph (scipy.sparse matrices) are exercised concretely only")
prop("C17", ["grids"], ["neutralocean/grid/rectilinear.py:", "neutralocean/grid/tripolar.py:", "lemma:flat"], "h_graph", only=["rect", "trip", "tile"], budget=25,
     assume=["distances are scalars, one value per row, per column or per cell; periodic is a pair of bools"],
     bounded="grid/xgcm.py (needs xgcm, which is not installed) is exercised with a stand-in only")
prop("C18", ["label"], ["neutralocean/label.py:_int_x_k", "neutralocean/label.py:_int_dlrpd_dz", "neutralocean/label.py:veronis"], "h_label", only=["veronis"], budget=30,
     assume=["pressure strictly increases and is a number throughout; coefficients of order 2 and 4; veronis itself: salinity and temperature are numbers throughout (pieces with missing data: _int_dlrpd_dz), the equation of state and its derivatives give numbers for numbers"])
prop("C19", ["mixed", "ppi", "guf"], ["neutralocean/mixed_layer.py:", PPI + "ppinterp_1", r"re:_interp_1\[d=0\]$", r"re:_interp\["], "h_label", only=["ml"], budget=25,
     assume=GUF + ["arrays of 1 to 3 dimensions; the equation of state gives a number for numbers"],
     bounded="equations of state named by strings (make_eos: C07) are exercised concretely only")
FORM = r"(vert_dim|one P|labelled)"
prop("C20", ["inputs", "iso", "vert", "mixed"],
     ["neutralocean/lib.py:_process_casts", "neutralocean/lib.py:_process_vert_dim", "neutralocean/lib.py:_process_pin_cast", "neutralocean/lib.py:_xr",
      r"re:_surf\[.*" + FORM, r"re:neutral_trajectory\[.*" + FORM, r"re:mixed_layer\[.*" + FORM], "h_inputs", budget=45,
     assume=CASTS + ["the functions' own contracts on plain arrays: C08, C09, C10, C19", "a labelled dimension has at least one element; coordinates that pick the pinning cast strictly increase"],
     trusted=["xarray.DataArray (dims, coords, attrs, name, isel, transpose of the data through numpy, searchsorted of a coordinate), xarray.full_like, numpy.require (returning its argument or a copy)"],
     bounded="omega_surf, and surfaces over more than one horizontal dimension are exercised concretely only")
prop("C21", ["arrays"], ["neutralocean/lib.py:_find_first_nan", "neutralocean/lib.py:find_first_nan", "neutralocean/lib.py:take_fill", "neutralocean/lib.py:val_at"], "h_ntp", only=["ffn", "take", "valat"], budget=25,
     assume=["arrays of 1 to 3 dimensions"])
prop("C22", ["stab", "ppi"], ["neutralocean/stability.py:", LIB + "valid_range_1", "lemma:valid-range-unique"], "h_label", only=["stab", "count"], budget=40,
     trusted=["scipy.optimize.minimize: when it reports success, its solution satisfies the inequality constraints (exactly, here) and has as many elements as the first guess"],
     assume=["pressure strictly increases; where salinity is valid so are temperature and pressure; the equation of state gives a number for numbers",
             "stabilize_ST: casts stacked in one horizontal dimension; count_unstable: 1 to 3 dimensions, without interp_two"],
     bounded="more than one horizontal dimension in stabilize_ST, count_unstable with interp_two, and labelled input are exercised concretely only")
