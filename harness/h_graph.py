"""C16, C17: graphs and grids"""
import numpy as np, numba as nb
import scipy.sparse as sp
from hutil import *
from neutralocean.grid import graph, rectilinear, tripolar
from neutralocean.grid.graph import edges_to_csr, edges_to_graph, graph_binary_fcn
import xarray as xr

try:
    from neutralocean.grid import xgcm as xg
except Exception:
    xg = None


@nb.njit
def bf(x, y):
    return 3.0 * x - 2.0 * y + 0.5 * x * y


def bad_edges(a, b, N):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.ndim != 1:
        return f"edge arrays of shapes {a.shape}, {b.shape}"
    if a.size and (min(a.min(), b.min()) < 0 or max(a.max(), b.max()) >= N):
        return "edge to a node outside the grid"


def val(data, dims, i, j):
    d = np.asarray(data, float)
    return float(np.broadcast_to(d, dims)[i, j])


def want_rect(dims, per):
    """-> list of (a, b, axis, i, j)"""
    ni, nj = dims
    out = []
    for i in range(ni):
        for j in range(nj):
            if per[0] or i > 0:
                out.append((i * nj + j, ((i - 1) % ni) * nj + j, 0, i, j))
            if per[1] or j > 0:
                out.append((i * nj + j, i * nj + (j - 1) % nj, 1, i, j))
    return out


def und(a, b):
    return (min(a, b), max(a, b))


def check(c):
    k = c["kind"]
    if k == "csr":
        N, a, b = c["N"], np.array(c["a"], dtype=np.int64), np.array(c["b"], dtype=np.int64)
        a0, b0 = a.copy(), b.copy()
        if N < 0 and not len(a):
            return None
        ip, ix = edges_to_csr((a, b), N)
        n = N if N >= 0 else max(a.max(), b.max()) + 1
        if len(ip) != n + 1 or ip[0] != 0 or (np.diff(ip) < 0).any() or ip[-1] != len(ix) or len(ix) != 2 * len(a):
            return f"row pointers {ip.tolist()} do not lay out {len(ix)} entries for {n} nodes, {len(a)} edges"
        adj = [[] for _ in range(n)]
        for x, y in zip(a.tolist(), b.tolist()):
            adj[x].append(y)
            adj[y].append(x)
        for m in range(n):
            g = sorted(ix[ip[m]:ip[m + 1]].tolist())
            if g != sorted(adj[m]):
                return f"neighbours of {m}: {g}, want {sorted(adj[m])}"
        if not (same(a, a0) and same(b, b0)):
            return "edges modified"
        return None
    if k == "graph":
        N, a, b = c["N"], np.array(c["a"], dtype=np.int64), np.array(c["b"], dtype=np.int64)
        if N < 0 and not len(a):
            return None
        w = None if c["w"] is None else np.array(c["w"], float)
        G = edges_to_graph((a, b), N, w)
        n = N if N >= 0 else max(a.max(), b.max()) + 1
        W = np.zeros((n, n))
        for i, (x, y) in enumerate(zip(a, b)):
            v = 1 if w is None else w[i]
            W[x, y] += v
            W[y, x] += v
        return None if G.shape == (n, n) and close(G.toarray(), W) else f"adjacency matrix {G.toarray().tolist()}, want {W.tolist()}"
    if k == "binary":
        a, b = np.array(c["a"], dtype=np.int64), np.array(c["b"], dtype=np.int64)
        d = nan(c["d"])
        d = d.reshape(c["shape"])
        g = graph_binary_fcn((a, b), d, bf)
        f = d.reshape(-1)
        w = np.array([bf.py_func(f[x], f[y]) for x, y in zip(a, b)])
        return None if close(g, w) else f"edge values {g.tolist()} want {w.tolist()}"
    if k == "matgrid":
        n = c["n"]
        D, Q = np.zeros((n, n)), np.zeros((n, n))
        pairs = {}
        for (x, y), d, q in zip(c["pairs"], c["dist"], c["perp"]):
            pairs[und(x, y)] = (x, y, d, q)
        for x, y, d, q in pairs.values():
            D[x, y], Q[x, y] = d, q
            if c["sym"]:
                D[y, x], Q[y, x] = d, q
        for i, j, v in c.get("move", []):
            # the second matrix has another structure: an entry more, or one moved
            if Q[i, j] == 0:
                Q[i, j] = v
                if c["sym"]:
                    Q[j, i] = v
        for i, j in c.get("drop", []):
            Q[i, j] = 0
            if c["sym"]:
                Q[j, i] = 0
        mk = {"dense": lambda A: A, "csr": sp.csr_matrix, "csc": sp.csc_matrix, "coo": sp.coo_matrix}[c["fmt"]]
        try:
            g = graph.build_grid({"dist": mk(D), "distperp": mk(Q)}) if c["two"] else graph.build_grid(mk(D))
        except ValueError as e:
            # differing structures only
            return None if ((D != 0) != (Q != 0)).any() and c["two"] else f"rejected: {e}"
        if c["two"] and ((D != 0) != (Q != 0)).any():
            return "matrices of different structure were accepted"
        a, b = g["edges"]
        got = {}
        for i in range(len(a)):
            u = und(int(a[i]), int(b[i]))
            if u in got:
                return f"pair {u} listed twice"
            got[u] = (g["dist"][i], g["distperp"][i])
        want = {u: ((v[2], v[3]) if c["two"] else (1.0, 1.0)) for u, v in pairs.items()}
        return None if got == want else f"edges {got}, want {want}"
    if k == "rect":
        dims, per = tuple(c["dims"]), tuple(bool(x) for x in c["per"])
        dat = {x: np.array(c[x], float) if isinstance(c[x], list) else c[x] for x in ("dxC", "dyC", "dyG", "dxG")}
        g = rectilinear.build_grid(dims, per, **dat)
        a, b = g["edges"]
        r = bad_edges(a, b, dims[0] * dims[1])
        if r:
            return r
        W = want_rect(dims, per)
        want = sorted((und(x, y), val(dat["dxC" if ax == 0 else "dyC"], dims, i, j), val(dat["dyG" if ax == 0 else "dxG"], dims, i, j)) for x, y, ax, i, j in W)
        if not (len(a) == len(g["dist"]) == len(g["distperp"])):
            return f"{len(a)} edges, {len(g['dist'])} distances, {len(g['distperp'])} perpendicular distances"
        got = sorted((und(int(x), int(y)), float(d), float(q)) for x, y, d, q in zip(a, b, g["dist"], g["distperp"]))
        if got != want:
            miss = [x for x in want if x not in got][:3]
            more = [x for x in got if x not in want][:3]
            return f"grid {dims} periodic {per}: missing {miss}, unexpected {more}"
        # maps: cell (i,j) holds the datum of its edge to (i-1,j) resp. (i,j-1)
        e = np.arange(len(a)) + 1.0
        F = rectilinear.edgedata_to_maps(e, dims, per)
        at = {}
        for n, (x, y) in enumerate(zip(a, b)):
            at.setdefault((int(x), int(y)), []).append(e[n])
            at.setdefault((int(y), int(x)), []).append(e[n])
        nanw = [np.full(dims, np.nan), np.full(dims, np.nan)]
        for x, y, ax, i, j in W:
            v = F[ax][i, j]
            if v not in at.get((x, y), []):
                return f"map {ax} at {(i, j)} holds {v}, the edge's datum is {at.get((x, y))}"
            nanw[ax][i, j] = 0
        for ax in (0, 1):
            if F[ax].shape != dims or (np.isnan(F[ax]) != np.isnan(nanw[ax])).any():
                return f"map {ax} is NaN at {np.argwhere(np.isnan(F[ax])).tolist()}"
        if sorted(v for A in F for v in A.reshape(-1) if v == v) != sorted(e):
            return "maps do not hold every edge's datum once"
        F2 = rectilinear.edgedata_to_maps(g["dist"], dims, per)
        for x, y, ax, i, j in W:
            if F2[ax][i, j] != val(dat["dxC" if ax == 0 else "dyC"], dims, i, j):
                return f"map of distances, dimension {ax}, cell {(i, j)}: {F2[ax][i, j]}"
        return None
    if k == "trip":
        nj, ni = dims = tuple(c["dims"])
        dat = {}
        for x in ("e1u", "e2v", "e2u", "e1v"):
            dat[x] = np.array(c[x], float) if isinstance(c[x], list) else c[x]
        g = tripolar.build_grid(dims, **dat)

        def at_(x, j, i):
            d = np.asarray(dat[x], float)
            if d.shape == (nj + 1, ni + 2):
                return float(d[j, i + 1])
            return val(d, dims, j, i)

        want = []
        for j in range(nj):
            for i in range(ni):
                m = j * ni + i
                n = (j + 1) * ni + i if j < nj - 1 else j * ni + (ni - 1 - i)
                want.append((und(m, n), at_("e2v", j, i), at_("e1v", j, i)))
                want.append((und(m, j * ni + (i + 1) % ni), at_("e1u", j, i), at_("e2u", j, i)))
        a, b = g["edges"]
        r = bad_edges(a, b, nj * ni)
        if r:
            return r
        got = [(und(int(x), int(y)), float(d), float(q)) for x, y, d, q in zip(a, b, g["dist"], g["distperp"])]
        if sorted(got) != sorted(want) or not len(a) == len(g["dist"]) == len(g["distperp"]):
            return f"tripolar {dims}: missing {[x for x in want if x not in got][:3]}, unexpected {[x for x in got if x not in want][:3]}"
        e = np.arange(len(a)) + 1.0
        v, u = tripolar.edgedata_to_maps(e, dims)
        if v.shape != dims or u.shape != dims:
            return f"maps of shapes {v.shape}, {u.shape}"
        for j in range(nj):
            for i in range(ni):
                m = j * ni + i
                n = (j + 1) * ni + i if j < nj - 1 else j * ni + (ni - 1 - i)
                for M, o, what in ((v, n, "y"), (u, j * ni + (i + 1) % ni, "x")):
                    q = int(M[j, i]) - 1
                    if not 0 <= q < len(a) or und(int(a[q]), int(b[q])) != und(m, o):
                        return f"map in {what} at {(j, i)} holds the datum of another edge"
        dv, du = tripolar.edgedata_to_maps(g["dist"], dims)
        for j in range(nj):
            for i in range(ni):
                if dv[j, i] != at_("e2v", j, i) or du[j, i] != at_("e1u", j, i):
                    return f"maps of distances at {(j, i)}"
        if sorted(list(v.reshape(-1)) + list(u.reshape(-1))) != sorted(e):
            return "maps do not hold every edge's datum once"
        return None
    if k == "tile":
        # the neighbour indices come from xgcm (stand-in); everything else is the real code
        if xg is None:
            return None
        shp = tuple(c["shape"])
        im1 = xr.DataArray(np.array(c["im1"]).reshape(shp))
        jm1 = xr.DataArray(np.array(c["jm1"]).reshape(shp))
        N = im1.size
        old = xg._build_im1_jm1
        xg._build_im1_jm1 = lambda *a: (im1, jm1)
        try:
            dat = {x: np.array(c[x], float).reshape(shp) if isinstance(c[x], list) else c[x] for x in ("dxC", "dyC", "dyG", "dxG")}
            g = xg.build_grid(shp[-1], {}, ("tile", "j", "i"), "left", "left", **dat)
            a, b = g["edges"]
            F = xg.edgedata_to_maps(np.arange(len(a)) + 1.0, shp[-1], {}, ("tile", "j", "i"), "left", "left")
        finally:
            xg._build_im1_jm1 = old
        v = lambda x, m: float(np.broadcast_to(np.asarray(dat[x], float), shp).reshape(-1)[m])
        want = [(m, int(n), v("dxC", m), v("dyG", m)) for m, n in enumerate(c["im1"]) if n >= 0] + [(m, int(n), v("dyC", m), v("dxG", m)) for m, n in enumerate(c["jm1"]) if n >= 0]
        got = [(int(x), int(y), float(d), float(q)) for x, y, d, q in zip(a, b, g["dist"], g["distperp"])]
        if sorted(want) != sorted(got):
            return f"tiled grid: missing {[x for x in want if x not in got][:3]}, unexpected {[x for x in got if x not in want][:3]}"
        for f, nb_ in ((F[0], c["im1"]), (F[1], c["jm1"])):
            f = np.asarray(f).reshape(-1)
            for m, n in enumerate(nb_):
                if n < 0:
                    if f[m] == f[m]:
                        return "map not NaN where there is no edge"
                elif not (f[m] == f[m] and int(a[int(f[m]) - 1]) == m and int(b[int(f[m]) - 1]) == n):
                    return f"map at {m} holds the datum of another edge"
        return None


def rl(rng, *shape):
    if not shape:
        return round(rng.uniform(0.5, 9), 3)
    return [rl(rng, *shape[1:]) for _ in range(shape[0])]


def gen(rng):
    k = rng.choice(["csr", "graph", "binary", "matgrid", "rect", "rect", "trip", "tile"])
    if k in ("csr", "graph", "binary"):
        n = rng.choice([1, 2, 3, 6, 10])
        E = rng.choice([0, 1, 2, 5, 15])
        a, b = [rng.randrange(n) for _ in range(E)], [rng.randrange(n) for _ in range(E)]
        c = dict(kind=k, a=a, b=b, N=rng.choice([n, n, n + 2, -1]), w=None if rng.random() < 0.4 else [rl(rng) for _ in range(E)])
        if k == "binary":
            c["d"] = [None if rng.random() < 0.1 else rl(rng) for _ in range(n)]
            c["shape"] = rng.choice([[n], [1, n], [n, 1]] + ([[2, n // 2]] if n % 2 == 0 else []))
        return c
    if k == "matgrid":
        n = rng.choice([2, 3, 4, 6])
        E = rng.choice([0, 1, 3, 7])
        pr = [[rng.randrange(n), rng.randrange(n)] for _ in range(E)]
        pr = [p if p[0] != p[1] or rng.random() < 0.3 else [p[0], (p[0] + 1) % n] for p in pr]
        pr = [p for p in pr if p[0] != p[1]]
        sym = rng.random() < 0.6
        if not sym:
            pr = [sorted(p, reverse=rng.random() < 0.2) for p in pr]
            d = {}
            for p in pr:
                d[und(*p)] = p
            pr = list(d.values())
        perp = [rl(rng) for _ in pr]
        if perp and rng.random() < 0.1:
            perp[rng.randrange(len(perp))] = 0.0
        more = {}
        if pr and rng.random() < 0.4:
            i, j = rng.choice(pr)
            l = rng.randrange(n)
            more["drop"] = [[i, j]]
            more["move"] = [[i, l, 2.5] if rng.random() < 0.5 else [l, j, 2.5]]
        return dict(kind=k, **more, n=n, pairs=pr, dist=[rl(rng) for _ in pr], perp=perp, sym=sym, two=bool(more) or rng.random() < 0.7, fmt=rng.choice(["dense", "csr", "csc", "coo"]))
    if k == "rect":
        dims = [rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 4, 6])]
        c = dict(kind=k, dims=dims, per=[rng.randint(0, 1), rng.randint(0, 1)])
        for x in ("dxC", "dyC", "dyG", "dxG"):
            c[x] = rng.choice([lambda: rl(rng), lambda: rl(rng, dims[1]), lambda: rl(rng, *dims), lambda: rl(rng, *dims), lambda: rl(rng, dims[0], 1)])()
        return c
    if k == "trip":
        dims = [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4, 6])]
        c = dict(kind=k, dims=dims)
        for x in ("e1u", "e2v", "e2u", "e1v"):
            c[x] = rng.choice([lambda: rl(rng), lambda: rl(rng, *dims), lambda: rl(rng, *dims), lambda: rl(rng, dims[0] + 1, dims[1] + 2), lambda: rl(rng, dims[1])])()
        return c
    shp = [rng.choice([1, 2]), 2, 2] if rng.random() < 0.5 else [2, 3, 3]
    N = shp[0] * shp[1] * shp[2]
    c = dict(kind=k, shape=shp, im1=[rng.choice([-1, rng.randrange(N), rng.randrange(N)]) for _ in range(N)], jm1=[rng.choice([-1, rng.randrange(N), rng.randrange(N)]) for _ in range(N)])
    for x in ("dxC", "dyC", "dyG", "dxG"):
        c[x] = rl(rng) if rng.random() < 0.4 else rl(rng, N)
    return c


def edge():
    import random
    r = random.Random(11)
    return [gen(r) for _ in range(200)]
