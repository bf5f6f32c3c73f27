SEEDS = []
def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
N = "neutralocean/"
OCEAN = """
import numpy as np
from neutralocean.eos import jmd95
def cast(n, top=0.0, dp=100.0, s0=34.0, t0=20.0):
    P = top + dp * np.arange(n)
    return s0 + 0.002 * P / 10, t0 - 0.01 * P, P
"""
seed("C01-relative-tolerance", "C01", "a requested tolerance that is small compared with the size of the zero",
     "brent silently replaces a small tolerance by one relative to the zero: the result is farther from the zero than asked",
     [(N + "fzero.py", "tol = 2.0 * eps * abs(b) + t", "tol = 2.0 * eps * abs(b) + max(t, 1e-10 * abs(b))")],
     """
import numpy as np, numba as nb
from neutralocean.fzero import brent
@nb.njit
def f(x, r):
    return 1.0 if x > r else -1.0   # changes sign exactly at r
for r in np.linspace(3.3, 2987.1, 100):
    x = brent(f, 0.0, 6000.0, 1e-10, (r,))
    assert 0 <= x <= 6000 and abs(x - r) <= 2.0e-10 + 1e-11, (r, x - r)
""")
seed("C02-lower", "C02", "a starting guess below the lower bound",
     "the bracketing search evaluates the function below the lower bound and returns a bracket that starts there",
     [(N + "fzero.py", "x = min(max(x, A), B)", "x = min(x, B)")],
     """
import numpy as np, numba as nb
from neutralocean.fzero import guess_to_bounds
@nb.njit
def f(x, r):
    return x - r
for x in np.linspace(-0.2, 1.2, 29):
    for r in (0.001, 0.3, 0.7, 0.95, 0.999, 1.02, 1.1, 1.5):
        a, b = guess_to_bounds(f, x, 0.0, 1.0, (r,))
        if r > 1:
            assert np.isnan(a) and np.isnan(b), (x, r, a, b)
        else:
            assert 0 <= a <= r <= b <= 1, (x, r, a, b)
""")
seed("C03-range-second-array", "C03", "the second array missing at the top where the first is present",
     "the common valid range of two arrays starts where the second one is still NaN",
     [(N + "ppinterp/lib.py", "if np.isfinite(X[i]) and np.isfinite(Y[i]):", "if np.isfinite(X[i]):")],
     """
import numpy as np
from neutralocean.ppinterp import valid_range_1_two
n = np.nan
X = np.array([1., 1., 2., n, 4.]); Y = np.array([n, 1., 2., 3., 4.])
assert valid_range_1_two(X, Y) == (1, 3), valid_range_1_two(X, Y)
assert valid_range_1_two(Y, X) == (1, 3)
""")
seed("C04-top-of-cast", "C04", "NaN above the first datum, and evaluation exactly at the first datum",
     "evaluating at the first valid site uses the (NaN) piece above it",
     [(N + "ppinterp/ppinterp.py", """    i = max(k, np.searchsorted(X[k:K], x) + k - 1)

    dx = x - X[i]  # >= 0
    return pval(dx, Yppc[i], d), pval(dx, Zppc[i], d)""", """    i = max(0, np.searchsorted(X[k:K], x) + k - 1)

    dx = x - X[i]  # >= 0
    return pval(dx, Yppc[i], d), pval(dx, Zppc[i], d)""")],
     """
import numpy as np
from neutralocean.ppinterp import make_pp, ppval_1_two, ppval_1
c = make_pp("linear", "1", "coeffs", True)
n = np.nan
X = np.array([0., 1., 2., 3.]); Y = np.array([n, 5., 7., 8.]); Z = np.array([n, 1., 0., 4.])
for x in (1.0, 1.5, 2.0, 3.0):
    y, z = ppval_1_two(x, X, c(X, Y), c(X, Z))
    assert np.isclose(y, np.interp(x, X[1:], Y[1:])) and np.isclose(z, np.interp(x, X[1:], Z[1:])), (x, y, z)
""")
seed("C05-pchip-start", "C05", "NaN above the first datum in the data but not in the sites",
     "PCHIP interpolation next to the first valid datum uses the NaN datum above it",
     [(N + "ppinterp/pchip.py", "np.isnan(X[i - 1] + Y[i - 1])", "np.isnan(X[i - 1])")],
     """
import numpy as np
from scipy.interpolate import PchipInterpolator
from neutralocean.ppinterp import make_pp
f = make_pp("pchip", "1", "interp")
X = np.array([0., 1., 2., 3., 4.]); Y = np.array([np.nan, 1., 4., 9., 16.])
for x in (1.0, 1.5, 2.0, 3.3, 4.0):
    y = f(x, X, Y, 0)
    z = PchipInterpolator(X[1:], Y[1:])(x)
    assert np.isclose(y, z, rtol=1e-12), (x, y, z)
assert np.isnan(f(0.5, X, Y, 0))
""")
seed("C06-gsw-spp", "C06", "a third derivative, with salinity and pressure both away from zero",
     "the derivative twice in pressure and once in salinity has a wrong coefficient",
     [(N + "eos/gsw.py", "2*v102 + x*( 4*v202 + x*(6*v302 + x*(8*v402)))", "2*v102 + x*( 4*v202 + x*(4*v302 + x*(8*v402)))")],
     """
import numpy as np
from neutralocean.eos import gsw
s, t, p = 35.0, 12.0, 3000.0
h = 5.0
num = (np.array(gsw.specvol_second_derivs(s, t, p + h)) - np.array(gsw.specvol_second_derivs(s, t, p - h))) / (2 * h)
d3 = gsw.specvol_third_derivs(s, t, p)
# second: ss st tt sp tp pp ; third: sss sst stt ttt ssp stp ttp spp tpp ppp
for k, j in ((0, 4), (1, 5), (2, 6), (3, 7), (4, 8), (5, 9)):
    assert np.isclose(num[k], d3[j], rtol=1e-5, atol=0), (k, num[k], d3[j])
""")
seed("C07-bsq-order", "C07", "a Boussinesq pressure derivative of order two",
     "the chain-rule factor is applied once only, whatever the order of the pressure derivative",
     [(N + "eos/tools.py", "factor = z_to_p**num_p_derivs", "factor = z_to_p * (num_p_derivs > 0)")],
     """
import numpy as np, numba as nb
from neutralocean.eos.tools import make_bsq
@nb.njit
def f_pp(s, t, p):
    return 6.0 * p + s
g, r = 9.81, 1027.5
c = 1e-4 * g * r
assert np.isclose(make_bsq(f_pp, g, r, 2)(35., 1., 100.), (6 * 100 * c + 35) * c * c, rtol=1e-12)
assert np.isclose(make_bsq(f_pp, g, r, 1)(35., 1., 100.), (6 * 100 * c + 35) * c, rtol=1e-12)
""")
seed("C08-two-bottles", "C08", "a cast with exactly two valid bottles",
     "casts with two valid data are left out of the surface though they cross the isovalue",
     [(N + "surface/_vertsolve.py", "        if K - k > 1:\n", "        if K - k > 2:\n")],
     OCEAN + """
from neutralocean.surface import potential_surf
S, T, P = cast(8)
S2 = np.stack([S, S, S]); T2 = np.stack([T, T, T]); P2 = np.stack([P, P, P])
S2[1, 2:] = np.nan; T2[1, 2:] = np.nan
iso = float(jmd95.rho(0.5 * (S[0] + S[1]), 0.5 * (T[0] + T[1]), 0.0))
s, t, p, d = potential_surf(S2, T2, P2, ref=0.0, isoval=iso, eos="jmd95", diags=False)
assert np.allclose(p, 50.0, atol=1.0), p
""")
seed("C09-isoval-ref", "C09", "a reference pressure given that differs from the pinning pressure",
     "the isovalue of a pinned potential density surface is not referenced to the given reference pressure",
     [(N + "surface/isopycnal.py", "isoval = eos(s0, t0, ref)", "isoval = eos(s0, t0, pin_p)")],
     OCEAN + """
from neutralocean.surface import potential_surf
S, T, P = cast(12)
S2 = np.stack([S, S + 0.1]); T2 = np.stack([T, T - 0.3]); P2 = np.stack([P, P])
s, t, p, d = potential_surf(S2, T2, P2, ref=900.0, pin_cast=0, pin_p=400.0, eos="jmd95", diags=False)
assert d["ref"] == 900.0
assert np.isclose(d["isoval"], jmd95.rho(s[0], t[0], 900.0), rtol=0, atol=1e-9)
assert np.isclose(jmd95.rho(s[1], t[1], 900.0), d["isoval"], atol=1e-4)
""")
seed("C10-midpoint", "C10", "a bottle shallower than the top of the cast it is connected to",
     "the neutral connection is not neutral at the midpoint pressure",
     [(N + "traj.py", "p_avg = (pB + p) * 0.5", "p_avg = (max(pB, P[0]) + p) * 0.5")],
     OCEAN + """
from neutralocean.traj import ntp_bottle_to_cast
S, T, P = cast(12, top=300.0)
sB, tB, pB = 34.6, 16.0, 20.0
s, t, p = ntp_bottle_to_cast(sB, tB, pB, S, T, P, 1e-9, "linear", "jmd95")
assert np.isfinite(p)
m = 0.5 * (pB + p)
d = jmd95.rho(sB, tB, m) - jmd95.rho(s, t, m)
assert abs(d) < 1e-9, d
""")
seed("C11-bad-root", "C11", "a root that is not admissible",
     "the search from an inadmissible root returns that root and the component next to it",
     [(N + "bfs.py", "    if good[root]:\n        # Root node is valid.  Initialize BFS from root node\n        qt += 1  # Add root to queue\n        qu[qt] = root\n        good[root] = False  # mark root as discovered\n\n        while",
                     "    if 0 <= root < N:\n        # Root node is valid.  Initialize BFS from root node\n        qt += 1  # Add root to queue\n        qu[qt] = root\n        good[root] = False  # mark root as discovered\n\n        while")],
     """
import numpy as np
from neutralocean.bfs import bfs_conncomp1
from neutralocean.grid.graph import edges_to_csr
a = np.array([1, 2, 3, 5]); b = np.array([0, 1, 2, 4])
ip, ix = edges_to_csr((a, b), 8)
for r in range(8):
    g = np.ones(8, dtype=np.bool_); g[2] = False
    want = {0: [0, 1], 1: [0, 1], 2: [], 3: [3], 4: [4, 5], 5: [4, 5]}.get(r, [r])
    q = bfs_conncomp1(ip, ix, r, g)
    assert sorted(q) == want, (r, q)
""")
seed("C12-wet-ml", "C12", "a mixed layer that is deeper on the dry cast than on its wet neighbour",
     "the search that wets as it goes compares with the mixed layer of the wrong cast, and wets a cast inside its mixed layer",
     [(N + "bfs.py", "if np.isfinite(p_) and p_ > p_ml[n]:", "if np.isfinite(p_) and p_ > p_ml[m]:")],
     OCEAN + """
from neutralocean.bfs import bfs_conncomp1_wet
from neutralocean.grid.graph import edges_to_csr
from neutralocean.ppinterp import make_pp
S, T, P = cast(12)
S2 = np.stack([S, S, S]); T2 = np.stack([T, T, T]); P2 = np.stack([P, P, P])
ip, ix = edges_to_csr((np.array([1, 2]), np.array([0, 0])), 3)
s = np.full(3, np.nan); t = s.copy(); p = s.copy()
s[0], t[0], p[0] = S[4], T[4], P[4]
ml = np.array([0.0, 600.0, 100.0])
q, n = bfs_conncomp1_wet(s, t, p, ip, ix, 0, S2, T2, P2, 1e-6, jmd95.rho, make_pp("linear", "1", "coeffs", False), ml)
assert np.isnan(p[1]) and n == 1 and abs(p[2] - P[4]) < 1e-3, (p, n)
assert sorted(q) == [0, 2]
""")
seed("C13-no-correction", "C13", "a cast on the surface for which there is no (NaN) correction",
     "a cast without correction keeps its old salinity and temperature instead of leaving the surface",
     [(N + "surface/_vertsolve.py", "            # ϕ is nan, or only one grid cell so cannot interpolate.\n            # Ensure s,t,p all have the same nan structure\n            s[n], t[n], p[n] = np.nan, np.nan, np.nan\n", "            # ϕ is nan, or only one grid cell so cannot interpolate.\n            p[n] = np.nan\n")],
     OCEAN + """
from neutralocean.surface._vertsolve import _make_vertsolve
from neutralocean.ppinterp import make_pp
S, T, P = cast(12)
S2 = np.stack([S, S, S]); T2 = np.stack([T, T, T]); P2 = np.stack([P, P, P])
f = _make_vertsolve(jmd95.rho, make_pp("linear", "1", "coeffs", False), "omega")
s, t, p = S2[:, 4].copy(), T2[:, 4].copy(), P2[:, 4].copy()
f(s, t, p, S2, T2, P2, np.array([0.0, np.nan, 0.05]), 1e-6)
assert p[0] == P[4] and p[2] > P[4]
assert np.isnan(s[1]) and np.isnan(t[1]) and np.isnan(p[1]), (s, t, p)
""")
seed("C14-scalar-ratio", "C14", "distances given as scalars, with ratio other than one",
     "the neutrality errors are not weighted when the distance ratio is a scalar",
     [(N + "surface/omega.py", "        if distratio != 1.0:\n            e *= fac", "        if distratio == 0.0:\n            e *= fac")],
     """
import numpy as np
from neutralocean.surface.omega import _omega_matsolve_poisson, _omega_matsolve_gradient
from neutralocean.eos import jmd95
rng = np.random.default_rng(0)
n = 6
s = 34 + rng.random(n); t = 5 + rng.random(n); p = 500 + 100 * rng.random(n)
a = np.array([1, 2, 3, 4, 5, 3]); b = np.array([0, 1, 2, 3, 4, 0])
m = np.arange(n)
x = _omega_matsolve_poisson(s, t, p, (a, b), 2.5, m, 0, jmd95.rho_s_t)
y = _omega_matsolve_poisson(s, t, p, (a, b), np.full(len(a), 2.5), m, 0, jmd95.rho_s_t)
z = _omega_matsolve_poisson(s, t, p, (a, b), 1.0, m, 0, jmd95.rho_s_t)
assert np.allclose(x, y, rtol=1e-9, atol=1e-12)
assert np.allclose(x, z, rtol=1e-9, atol=1e-12)   # a constant ratio does not matter
""")
seed("C15-mav", "C15", "a surface with NaN casts (land)",
     "the norms are divided by the area of all edges, also those with NaN error",
     [(N + "ntp.py", "denom = np.sum(area * np.isfinite(e))", "denom = np.sum(area * (np.abs(e) != np.inf))")],
     """
import numpy as np
from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
from neutralocean.eos import jmd95
s = np.array([34., 34.1, np.nan, 34.5]); t = np.array([5., 5.2, np.nan, 4.]); p = np.array([100., 120., np.nan, 90.])
g = dict(edges=(np.array([1, 2, 3, 3]), np.array([0, 1, 2, 0])), dist=np.array([1., 2., 3., 4.]), distperp=np.array([2., 2., 5., 1.]))
e = ntp_epsilon_errors(s, t, p, {"edges": g["edges"]}, jmd95.rho_s_t)
ok = np.isfinite(e)
A = (g["dist"] * g["distperp"])[ok]
rms = np.sqrt(np.sum((g["distperp"] / g["dist"])[ok] * e[ok] ** 2) / A.sum())
mav = np.sum(g["distperp"][ok] * abs(e[ok])) / A.sum()
r, m = ntp_epsilon_errors_norms(s, t, p, g, jmd95.rho_s_t)
assert np.isclose(r, rms) and np.isclose(m, mav), (r, rms, m, mav)
""")
seed("C16-structure", "C16", "two distance matrices whose entries lie in the same rows but other columns",
     "matrices of different structure are accepted, and distances paired with the wrong edges",
     [(N + "grid/graph.py", "if not np.array_equal(a, A) or not np.array_equal(b, B):", "if not np.array_equal(a, A) and not np.array_equal(b, B):")],
     """
import numpy as np
from scipy.sparse import csr_matrix
from neutralocean.grid.graph import build_grid
def ok(D, P):
    try:
        build_grid(dict(dist=D, distperp=P)); return True
    except ValueError:
        return False
D = np.zeros((4, 4)); D[0, 1] = 2; D[1, 3] = 3
P = np.zeros((4, 4)); P[0, 2] = 2; P[1, 3] = 3
assert ok(csr_matrix(D), csr_matrix(D * 2))
assert not ok(csr_matrix(D), csr_matrix(P))
assert not ok(csr_matrix(D.T), csr_matrix(P.T))
""")
seed("C17-roll", "C17", "a periodic second dimension with distances that vary along it",
     "edges of the periodic second dimension are paired with the distance of another edge",
     [(N + "grid/rectilinear.py", "np.roll(idx, 1, axis=1)", "np.roll(idx, -1, axis=1)")],
     """
import numpy as np
from neutralocean.grid.rectilinear import build_grid
ni, nj = 3, 5
dy = np.arange(ni * nj, dtype=float).reshape(ni, nj)
g = build_grid((ni, nj), (False, True), 1.0, dy, 1.0, 1.0)
a, b = g["edges"]
d = {}
for x, y, v in zip(a, b, g["dist"]):
    d[frozenset((int(x), int(y)))] = v
for i in range(ni):
    for j in range(nj):
        # dyC[i,j] is the distance between cell (i,j) and its neighbour (i,j-1)
        assert d[frozenset((i * nj + j, i * nj + (j - 1) % nj))] == dy[i, j]
""")
seed("C18-steps", "C18", "a distance to the next data site that is not a multiple of the step",
     "the integral uses steps larger than asked for, and drops a last partial step",
     [(N + "label.py", "int(np.ceil((P[k + 1] - p) / dp))", "int(np.floor((P[k + 1] - p) / dp))")],
     OCEAN + """
from neutralocean.label import veronis
S, T, P = cast(6)
full = veronis(450.0, S, T, P, 20.0, 0.0, 1.0, 1e-2, "linear", "jmd95")
for dp in (1.0, 7.0, 60.0, 250.0):
    v = veronis(450.0, S, T, P, 20.0, 0.0, 1.0, dp, "linear", "jmd95")
    assert abs(v - full) < 1e-3, (dp, v, full)
""")
seed("C19-specvol-ml", "C19", "an equation of state that gives specific volume, and a nonzero reference pressure",
     "with specific volume the near-surface bottle is not referenced to the same pressure as the cast",
     [(N + "mixed_layer.py", "DD = 1 / eos(S, T, ref_p) - 1 / eos(SB, TB, ref_p)", "DD = 1 / eos(S, T, ref_p) - 1 / eos(SB, TB, P[..., bottle_index : bottle_index + 1])")],
     OCEAN + """
import numba as nb
from neutralocean.mixed_layer import mixed_layer
@nb.njit
def sv(s, t, p):
    return 1.0 / jmd95.rho(s, t, p)
S, T, P = cast(12, dp=10.0)
a = mixed_layer(S, T, P, eos=jmd95.rho, ref_p=100.0)
b = mixed_layer(S, T, P, eos=sv, ref_p=100.0)
assert np.isclose(a, b, rtol=1e-6), (a, b)
""")
seed("C20-p-init", "C20", "an initial pressure array without NaN given by the caller",
     "the caller's initial pressure array is overwritten with the omega surface",
     [(N + "surface/omega.py", "p = p_init.copy()", "p = p_init")],
     """
import numpy as np
from neutralocean.surface import omega_surf
from neutralocean.grid.rectilinear import build_grid
ni, nj, nk = 4, 4, 10
P = np.linspace(0, 1800, nk)
ii, jj = np.mgrid[0:ni, 0:nj]
S = 34 + 0.001 * P + 0.02 * ii[..., None] + 0 * jj[..., None]
T = 20 - 0.008 * P + 0.3 * jj[..., None]
p0 = np.full((ni, nj), 700.0)
c = p0.copy()
s, t, p, d = omega_surf(S, T, P, build_grid((ni, nj), (False, False)), (1, 1), p0, eos="jmd95", ITER_MAX=3, diags=False, output=False)
assert np.array_equal(p0, c)
""")
seed("C21-take-zero", "C21", "index zero",
     "taking values with fill gives the fill value for index 0",
     [(N + "lib.py", "        if idx[i] >= 0:\n            b[i] = a_", "        if idx[i] > 0:\n            b[i] = a_")],
     """
import numpy as np
from neutralocean.lib import take_fill
a = np.array([[3., 4.], [5., 6.]])
r = take_fill(a, np.array([0, -1, 3, 0]), np.nan)
assert np.array_equal(r, [3., np.nan, 6., 3.], equal_nan=True), r
""")
seed("C22-threshold", "C22", "thresholds that vary with depth and casts with NaN above their first datum",
     "the stability thresholds are taken from the wrong levels",
     [(N + "stability.py", "min_dLRPDdp_1 = min_dLRPDdp[k : K - 1]", "min_dLRPDdp_1 = min_dLRPDdp[0 : K - 1 - k]")],
     """
import numpy as np
from neutralocean.stability import stabilize_ST
from neutralocean.eos import jmd95
from neutralocean.eos.tools import vectorize_eos
eos = vectorize_eos(jmd95.rho)
n = 6
P = 100.0 * np.arange(n)
S = 34 + 0.0005 * P; T = 10 - 0.002 * P
S[0:2] = np.nan; T[0:2] = np.nan
T[4] = T[3] + 0.5
thr = np.array([1e-3, 1e-3, 1e-6, 1e-6, 1e-6])
S, T = S[None].copy(), T[None].copy()
stabilize_ST(S, T, P[None].copy(), eos, min_dLRPDdp=thr, verbose=False)
s, t, p = S[0, 2:], T[0, 2:], P[2:]
pm = 0.5 * (p[1:] + p[:-1])
g = (eos(s[1:], t[1:], pm) - eos(s[:-1], t[:-1], pm)) / np.diff(p)
assert np.all(g >= thr[2:] - 1e-9), g
assert g.min() < 1e-4, g     # not pushed to the thresholds of other levels
""")
