From 4879b390f25cc4f47dcbc9d8e5f0589114857fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 01/16] fix: diff_1d_samesize no longer reads or writes outside
 its array

---
 neutralocean/ppinterp/lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..b98b348 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,9 +11,10 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    if d.size > 0:
+        d[-1] = np.nan
     return d
 
 
-- 
2.43.0


From 3f4c7e44d80876176075d6e3c4031167d1f6f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:13 +0000
Subject: [PATCH 02/16] fix: neutral_trajectory does not interpolate a first
 cast without two data sites

---
 neutralocean/traj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index 49c5c1d..908d6fe 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -277,10 +277,11 @@ def neutral_trajectory(
 
         if c == 0:
             # Evaluate S and T on first cast at p0
-            Sppc = ppc_fn(Pc[k:K], Sc[k:K])
-            Tppc = ppc_fn(Pc[k:K], Tc[k:K])
-            s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
             p[0] = p0
+            if K - k > 1:  # else, at most one valid data site. Can't interpolate that.
+                Sppc = ppc_fn(Pc[k:K], Sc[k:K])
+                Tppc = ppc_fn(Pc[k:K], Tc[k:K])
+                s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
         else:
             # Make a neutral connection from previous bottle to the cast (S[c,:], T[c,:], P[c,:])
             s[c], t[c], p[c] = _ntp_bottle_to_cast(
-- 
2.43.0


From f3083288f17e2a32a8369e6833e17075221a8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:00 +0000
Subject: [PATCH 03/16] fix: guess_to_bounds returns NaN rather than searching
 forever from a NaN guess

---
 neutralocean/fzero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutralocean/fzero.py b/neutralocean/fzero.py
index 3f3b6a2..5585980 100644
--- a/neutralocean/fzero.py
+++ b/neutralocean/fzero.py
@@ -178,6 +178,10 @@ def guess_to_bounds(f, x, A, B, args=()):
         Lower and upper bounds within which `f(x)` changes sign.
     """
 
+    # Protection against bad input, for which the search below would never end
+    if np.isnan(x) or np.isnan(A) or np.isnan(B):
+        return (np.nan, np.nan)
+
     # Check value of f at bounds
     if f(A, *args) == 0.0:
         return (A, A)
-- 
2.43.0


From 4d99b3d1ede99840987e83abf23dbfb2d05e5269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 04/16] fix: veronis no longer needs np.trapz, which NumPy 2
 removed

---
 neutralocean/label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..e960afb 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,7 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+    return np.sum(0.5 * (y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1]))
 
 
 # TODO
-- 
2.43.0


From 9e4a615ab2941d1f00669d3c1e126ce7528b6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 05/16] fix: tripolar build_grid accepts distances that include
 the halo

---
 neutralocean/grid/tripolar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..842fd8f 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -145,12 +145,12 @@ def _build_edgedata(dims, data):
 
     nj, ni = dims
     v, u = data
-    v = np.broadcast_to(v, dims)
-    u = np.broadcast_to(u, dims)
-    if v.shape == (nj + 1, ni + 2):
+    if np.shape(v) == (nj + 1, ni + 2):
         v = v[:-1, 1:-1]
-    if u.shape == (nj + 1, ni + 2):
+    if np.shape(u) == (nj + 1, ni + 2):
         u = u[:-1, 1:-1]
+    v = np.broadcast_to(v, dims)
+    u = np.broadcast_to(u, dims)
 
     return np.concatenate((v.reshape(-1), u.reshape(-1)))
 
-- 
2.43.0


From 2e026c65d9201fb9dcc64ec7fb4929bafd075b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 06/16] fix: build_grid accepts sparse distance matrices

---
 neutralocean/grid/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..cd715f8 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -2,7 +2,7 @@ import numpy as np
 import numba as nb
 
 from scipy.sparse import coo_matrix, csr_matrix, find, triu, issparse
-from scipy.linalg import issymmetric
+from scipy.linalg import issymmetric as issymmetric_dense
 
 
 @nb.njit
@@ -261,7 +261,11 @@ def sym_structure(A):
 
 def triu_if_sym(A):
     """Return upper triangle matrix if symmetric"""
-    if issymmetric(A):
+    if issparse(A):
+        issymmetric = A.shape[0] == A.shape[1] and (A != A.T).nnz == 0
+    else:
+        issymmetric = issymmetric_dense(A)
+    if issymmetric:
         return triu(A)
     else:
         return A
-- 
2.43.0


From a921e03915a679ae4be649e8ebaee893289d1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 07/16] fix: val_at keeps length-1 lateral dimensions

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..1e91250 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -189,7 +189,7 @@ def val_at(T, k):
         Tk = T[..., k]
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
-        Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
+        Tk = np.take_along_axis(T, k[..., None], -1)[..., 0]
     else:
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
-- 
2.43.0


From 73aeed79e6dbc74f552ea5f10e23efd9ce9b5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 08/16] fix: perimeter wetting compares with the mixed layer of
 the cast being wetted

---
 neutralocean/bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 728f9e1..8cd3cf9 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -336,7 +336,7 @@ def bfs_conncomp1_wet_perim(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
                         )
 
-                        if np.isfinite(p_) and p_ > p_ml[n]:
+                        if np.isfinite(p_) and p_ > p_ml[m]:
                             # The NTP connection was successful, and its location
                             # on the neighbouring cast is below the mixed layer.
                             p0 += p_
-- 
2.43.0


From 7e9e09eaad085fc40ed91ca1796bf84ff54b18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 09/16] fix: val_at with an integer index no longer writes into
 its input, or fails for 1D input

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 1e91250..f8d09c9 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -186,7 +186,7 @@ def val_at(T, k):
     """
     if isinstance(k, int) or T.ndim == 1:
         # select the k'th element along the last dimension of T
-        Tk = T[..., k]
+        Tk = np.array(T[..., k])  # copy, lest NaN be written into T below
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
         Tk = np.take_along_axis(T, k[..., None], -1)[..., 0]
-- 
2.43.0


From 08b4349dcaf400a0ca245cbf880b6290b81462ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 10/16] fix: accept DataArrays whose vertical dimension has no
 coordinate

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index f8d09c9..806a89c 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -213,7 +213,7 @@ def _xr_in(S, vert_dim):
             return xr.full_like(S, 0)
         elif isinstance(vert_dim, int):
             vert_dim = S.dims[vert_dim]  # convert to str
-        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim), 0)
+        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim, errors="ignore"), 0)
     else:
         return None
 
-- 
2.43.0


From fa1f1b1792003437b5632d38eba8eef0dc6819db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 11/16] fix: pin_cast as a dict in any order, or as a list,
 indexes the right cast

---
 neutralocean/lib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 806a89c..37e5887 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -357,9 +357,15 @@ def _process_pin_cast(pin_cast, S):
     # One issue is this always rounds one way, whereas a "nearest" neighbour
     # type behaviour would be preferred, as in xr.DataArray.sel
     if isinstance(pin_cast, dict):
-        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in pin_cast.items())
+        return tuple(
+            int(S.get_index(k).searchsorted(pin_cast[k]))
+            for k in S.dims
+            if k in pin_cast
+        )
     elif isinstance(pin_cast, int):
         return (pin_cast,)
+    elif isinstance(pin_cast, list):
+        return tuple(pin_cast)
     else:
         return pin_cast
 
-- 
2.43.0


From 0206cf0542c20039aa45c8e0b6b2c49bc2a2a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 12/16] fix: pin_cast and pin_p are unused when ref and isoval
 are given, as documented

---
 neutralocean/surface/isopycnal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..f5a763d 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -369,6 +369,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
+    pinned = ref is None or isoval is None
     ref, isoval = _choose_ref_isoval(
         ans_type, ref, isoval, pin_cast, pin_p, eos, S, T, P, ppc_fn
     )
@@ -378,7 +379,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     timer = time()
     s, t, p = vertsolve(S, T, P, ref, isoval, TOL_P_SOLVER)
 
-    if pin_p is not None:  # pin_cast must also be valid
+    if pinned:  # pin_cast and pin_p must also be valid
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
@@ -466,7 +467,7 @@ def _choose_ref_isoval(
     # >>> _isopycnal(ans_type, S, T, P, ref, isoval)
     # >>> _isopycnal(ans_type, S, T, P, ref, pin_cast, pin_p)
     # >>> _isopycnal(ans_type, S, T, P, pin_cast, pin_p)
-    if isoval is None:  # => pin_cast and pin_p are both not None
+    if ref is None or isoval is None:  # => pin_cast and pin_p are both not None
         n = pin_cast  # evaluate S and T on the surface at the chosen location
         # s0, t0 = interp_fn(pin_p, P[n], S[n], T[n])
 
-- 
2.43.0


From cc1389b495f102984beaebbaa57096629db0f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:10 +0000
Subject: [PATCH 13/16] fix: omega_surf diagnostics keep the last iteration,
 and allow ITER_MAX = 0

---
 neutralocean/surface/omega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..f9e5ad2 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -375,6 +375,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     # Note: the surface exists wherever p is non-nan.  The nan structure of s
     # and t is made to match that of p when the vertical solve step is done.
     Δp_RMS = 0.0  # ensure this is defined; needed if TOL_P_CHANGE_RMS == 0
+    iter_ = 0  # ensure this is defined; needed if ITER_MAX == 0
     for iter_ in range(1, ITER_MAX + 1):
         timer = time()
 
@@ -463,7 +464,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From 6278e0f8360c8d425b8380d61fb954c37baf1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:06 +0000
Subject: [PATCH 14/16] fix: stabilize_ST mutates its inputs also when the
 vertical dimension is not last

---
 neutralocean/stability.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..5c0911b 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,8 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    vert_dim = _process_vert_dim(vert_dim, S)
+    S_in, T_in = xr_to_np(S), xr_to_np(T)
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -233,6 +235,11 @@ def stabilize_ST(S, T, P, eos, **kw):
                     f"Perturbed cast {c} by weighted RMS amount {f(res.x, weight)}"
                 )
 
+    # Where `_process_casts` had to copy, pass the changes on to the inputs
+    for X_in, X in ((S_in, S), (T_in, T)):
+        if not np.shares_memory(X_in, X):
+            np.moveaxis(X_in, vert_dim, -1)[...] = X
+
 
 def calc_dLRPDdp_fd_1(S, T, P, eos):
     # Calculate d(LRPD)/dp using Finite Difference scheme in 1 cast.
-- 
2.43.0


From 34539227c920a2eb4613148eefb2b9a05c4e9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:06 +0000
Subject: [PATCH 15/16] fix: xgcm build_grid gives each edge its own distances,
 and accepts float distances

---
 neutralocean/grid/xgcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..27f7b3e 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -122,9 +122,9 @@ def build_grid(
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-    # where m is the local node and n is its neighbour in the j dimension.
+    # where m is the local node and n is its neighbour in the i dimension.
     # The second N entries are [m,n] where m is the local node and n is its
-    # neighbour in the i dimension.
+    # neighbour in the j dimension.
     a = np.tile(np.arange(N), 2)
     b = np.empty(N * 2, dtype=int)  # prealloc space
     b[:N] = im1.values.reshape(-1)
@@ -133,14 +133,14 @@ def build_grid(
     # Build list of distances between adjacent nodes, in the same order as the
     # pairs of nodes built by edges.
     dist = np.empty(N * 2, dtype=float)
-    dist[:N] = dyC.reshape(-1)
-    dist[N:] = dxC.reshape(-1)
+    dist[:N] = np.broadcast_to(dxC, im1.shape).reshape(-1)
+    dist[N:] = np.broadcast_to(dyC, im1.shape).reshape(-1)
 
     # Build list of distances of the faces between adjacent nodes, in the same
     # order as the pairs of nodes built by edges.
     distperp = np.empty(N * 2, dtype=float)
-    distperp[:N] = dxG.reshape(-1)  # dxG lives at same place as dyC
-    distperp[N:] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    distperp[:N] = np.broadcast_to(dyG, im1.shape).reshape(-1)  # at dxC
+    distperp[N:] = np.broadcast_to(dxG, im1.shape).reshape(-1)  # at dyC
 
     # Trim out invalid edges, i.e. those for which one of the two nodes was
     # filled by `apply_as_grid_ufunc` to have a value of -1.
-- 
2.43.0


From d2e1c482b9e363b755deecc63cd32f2a83dd6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:06 +0000
Subject: [PATCH 16/16] fix: dist and distperp of the grid default to 1.0 where
 absent, as documented

---
 neutralocean/ntp.py           | 7 ++++---
 neutralocean/surface/omega.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a6b9869..baeaec3 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -108,7 +108,8 @@ def ntp_epsilon_errors_norms(
     # The actual distances will be handled in computing the norms
     e = ntp_epsilon_errors(s, t, p, {"edges": grid["edges"]}, eos_s_t)
 
-    area = grid["dist"] * grid["distperp"]  # Area [m^2] centred on edges
+    dist, distperp = (grid.get(x, 1.0) for x in ("dist", "distperp"))
+    area = dist * distperp  # Area [m^2] centred on edges
 
 
     # L2 norm of vector [a_i], weighted by vector [w_i], is sqrt( sum( w_i * a_i^2 ) / sum( w_i ) )
@@ -124,8 +125,8 @@ def ntp_epsilon_errors_norms(
     #     area / dist^2 = distperp / dist,
     # and the numerator of L1 norm needs to multiply epsilon by
     #     area ./ dist = distperp.
-    e_RMS = np.sqrt(np.nansum(grid["distperp"] / grid["dist"] * e**2) / denom)
-    e_MAV = np.nansum(grid["distperp"] * abs(e)) / denom
+    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)
+    e_MAV = np.nansum(distperp * abs(e)) / denom
 
     return e_RMS, e_MAV
 
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index f9e5ad2..6762043 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -241,7 +241,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         pin_c = np.ravel_multi_index(pin_c, surf_shape)
 
     # Prepare grid ratios for matrix problem.
-    distratio = grid["distperp"] / grid["dist"]
+    distratio = grid.get("distperp", 1.0) / grid.get("dist", 1.0)
 
     # Pre-compute mixed layer
     if isinstance(p_ml, dict):
-- 
2.43.0

