"""C11, C12: breadth-first search and wetting"""
import numpy as np
from collections import deque
from hutil import *
from hocean import *
from neutralocean.bfs import bfs_conncomp1, bfs_conncomp1_wet, bfs_conncomp1_wet_perim
from neutralocean.traj import _ntp_bottle_to_cast
from neutralocean.ppinterp import make_pp


def csr(N, edges):
    adj = [[] for _ in range(N)]
    for a, b in edges:
        adj[a].append(b)
        adj[b].append(a)
    indptr = np.zeros(N + 1, dtype=np.int64)
    indptr[1:] = np.cumsum([len(x) for x in adj])
    indices = np.array([y for x in adj for y in x], dtype=np.int64)
    return adj, indptr, indices


def component(adj, root, good):
    if not good[root]:
        return set()
    seen, q = {root}, deque([root])
    while q:
        m = q.popleft()
        for n in adj[m]:
            if good[n] and n not in seen:
                seen.add(n)
                q.append(n)
    return seen


PPC = {i: make_pp(i, kind="1", out="coeffs", nans=False) for i in ("linear", "pchip")}


def check(c):
    N = c["N"]
    adj, indptr, indices = csr(N, c["edges"])
    root = c["root"]
    if c["kind"] == "bfs":
        good = np.array(c["good"], dtype=bool)
        qu = bfs_conncomp1(indptr, indices, root, good.copy())
        q = [int(x) for x in qu]
        w = component(adj, root, good)
        if len(set(q)) != len(q):
            return f"a node is listed twice: {q}"
        if set(q) != w:
            return f"component {sorted(q)}, want {sorted(w)}"
        if q and q[0] != root:
            return f"does not start with the root: {q}"
        for i in range(1, len(q)):
            if not any(q[j] in adj[q[i]] for j in range(i)):
                return f"node {q[i]} listed before any of its neighbours: {q}"
        return None
    S, T, P = nan(c["S"]), nan(c["T"]), nan(c["P"])
    pml = np.array([-np.inf if x is None else x for x in c["pml"]])
    s, t, p = nan(c["s"]), nan(c["t"]), nan(c["p"])
    tol, interp = c["tol"], c["interp"]
    eos, ppc = EOS[c["eos"]][0], PPC[interp]
    s0, t0, p0 = s.copy(), t.copy(), p.copy()
    cp = [x.copy() for x in (S, T, P, pml, indptr, indices)]

    def link(m, n, s, t, p):
        k, K = vr(S[n], P[n])
        return _ntp_bottle_to_cast(s[m], t[m], p[m], S[n], T[n], P[n], k, K, tol, eos, ppc)

    good0 = np.isfinite(p0)
    comp = component(adj, root, good0)
    if c["kind"] == "wet":
        qu, nw = bfs_conncomp1_wet(s, t, p, indptr, indices, root, S, T, P, tol, eos, ppc, pml)
        # model of the search, in the same order
        ms, mt, mp = s0.copy(), t0.copy(), p0.copy()
        good, dry, q, new = good0.copy(), ~good0, [], 0
        if good[root]:
            q.append(root)
            good[root] = False
            h = 0
            while h < len(q):
                m = q[h]
                h += 1
                for n in adj[m]:
                    if good[n]:
                        q.append(n)
                        good[n] = False
                    elif dry[n]:
                        s_, t_, p_ = link(m, n, ms, mt, mp)
                        if np.isfinite(p_) and p_ > pml[n]:
                            q.append(n)
                            dry[n] = False
                            new += 1
                            ms[n], mt[n], mp[n] = s_, t_, p_
        g = [int(x) for x in qu]
        if len(set(g)) != len(g):
            return f"a node is listed twice: {g}"
        if set(g) != set(q):
            return f"grown component {sorted(g)}, want {sorted(q)}"
        if nw != new:
            return f"{nw} casts reported as newly wet, {new} are"
        if not (same(p, mp) and same(s, ms) and same(t, mt)):
            return f"surface after wetting p={p.tolist()}, want {mp.tolist()}"
        for n in range(N):
            if good0[n] and not (s[n] == s0[n] and t[n] == t0[n] and p[n] == p0[n]):
                return f"wet cast {n} changed"
    else:
        nrep = c["nrep"]
        nw = bfs_conncomp1_wet_perim(s, t, p, indptr, indices, root, S, T, P, tol, eos, ppc, pml, nrep)
        wet = np.isfinite(p)
        for n in range(N):
            if n in comp:
                if not (s[n] == s0[n] and t[n] == t0[n] and p[n] == p0[n]):
                    return f"cast {n}, connected to the root, changed from {p0[n]!r} to {p[n]!r}"
            elif good0[n] and wet[n]:
                return f"cast {n}, not connected to the root, is kept"
        new = [n for n in range(N) if wet[n] and n not in comp]
        if nw != len(new):
            return f"{nw} casts reported as newly wet, {len(new)} are: {new}"
        # model: pass by pass over the perimeter, in the order of its discovery
        mp = np.where([n in comp for n in range(N)], p0, np.nan)
        ms, mt = s0.copy(), t0.copy()
        seen = good0.copy()
        front, q, good = [], [], good0.copy()
        if good[root]:
            q = [root]
            good[root] = False
            h = 0
            while h < len(q):
                m = q[h]
                h += 1
                for n in adj[m]:
                    if good[n]:
                        good[n] = False
                        q.append(n)
                    elif not seen[n]:
                        seen[n] = True
                        front.append(n)
        rep = 0
        while front and rep < nrep:
            rep += 1
            nxt = []
            for m in front:
                k, K = vr(S[m], P[m])
                if K - k > 1:
                    L = []
                    for n in adj[m]:
                        if np.isfinite(mp[n]):
                            q_ = link(n, m, ms, mt, mp)[2]
                            if np.isfinite(q_) and q_ > pml[m]:
                                L.append(q_)
                    if L:
                        tot = 0.0
                        for x in L:
                            tot += x
                        mp[m] = tot / len(L)
                        ms[m], mt[m] = at(interp, mp[m], P[m], S[m]), at(interp, mp[m], P[m], T[m])
                        for n in adj[m]:
                            if not seen[n]:
                                seen[n] = True
                                nxt.append(n)
            front = nxt
        if not (close(p, mp, 1e-7, max(1e-6, 3 * tol)) and close(s[wet], ms[wet], 1e-7, 1e-6) and close(t[wet], mt[wet], 1e-7, 1e-5)):
            # another order of visiting neighbours is fine as long as every new cast follows the rule
            for m in new:
                k, K = vr(S[m], P[m])
                if not (K - k > 1 and P[m][k] <= p[m] <= P[m][K - 1]):
                    return f"newly wet cast {m} at {p[m]!r} is not within its data"
                if not p[m] > pml[m]:
                    return f"newly wet cast {m} at {p[m]!r} is above its mixed layer {pml[m]!r}"
                L = {}
                for n in set(adj[m]):
                    if wet[n] and n != m:
                        q_ = link(n, m, s, t, p)[2]
                        if np.isfinite(q_) and q_ > pml[m]:
                            L[n] = q_
                if not L:
                    return f"newly wet cast {m} has no neutral link from a wet neighbour below its mixed layer"
                if not min(L.values()) - 2 * tol - 1e-6 <= p[m] <= max(L.values()) + 2 * tol + 1e-6:
                    return f"newly wet cast {m} at {p[m]!r}, neutral links {L}"
            if set(new) != {n for n in range(N) if np.isfinite(mp[n]) and n not in comp}:
                return f"newly wet casts {new}, model {[n for n in range(N) if np.isfinite(mp[n]) and n not in comp]} p={p.tolist()} model {mp.tolist()}"
            if c.get("tree"):
                return f"surface p={p.tolist()}, model {mp.tolist()}"
            if len(set(map(tuple, map(sorted, c['edges'])))) and nrep == 1 and all(len([n for n in adj[m] if n in set(new)]) == 0 for m in new):
                return f"surface p={p.tolist()}, model {mp.tolist()}"
        for m in new:
            r = st_ok(interp, p[m], P[m], S[m], T[m], s[m], t[m])
            if r:
                return f"newly wet cast {m}: {r}"
    for x, y, nm in zip((S, T, P, pml, indptr, indices), cp, ("S", "T", "P", "mixed layer", "indptr", "indices")):
        if not same(x, y):
            return f"{nm} was modified"


def gen_graph(rng):
    N = rng.choice([1, 2, 3, 5, 8, 12])
    r = rng.random()
    if r < 0.3:
        E = [[i, i + 1] for i in range(N - 1)]
    elif r < 0.5:
        E = [[rng.randrange(i), i] for i in range(1, N)]
    else:
        E = [[rng.randrange(N), rng.randrange(N)] for _ in range(rng.randint(0, 2 * N))]
    tree = r < 0.5
    rng.shuffle(E)
    E = [e if rng.random() < 0.5 else e[::-1] for e in E]
    return N, E, tree


def gen(rng):
    N, E, tree = gen_graph(rng)
    root = rng.randrange(N)
    if rng.random() < 0.5:
        return dict(kind="bfs", N=N, edges=E, root=root, good=[int(rng.random() < 0.75) for _ in range(N)])
    kind = rng.choice(["wet", "perim", "perim"])
    nk = rng.choice([2, 3, 5])
    b = gen_cast(rng, nk, True)
    while vr(nan(b[0]), nan(b[2]))[1] - vr(nan(b[0]), nan(b[2]))[0] < 2:
        b = gen_cast(rng, nk, True)
    S, T, P = [], [], []
    for _ in range(N):
        if rng.random() < 0.85:
            S.append([None if y is None else y + rng.gauss(0, 0.02) for y in b[0]])
            T.append([None if y is None else y + rng.gauss(0, 0.3) for y in b[1]])
            P.append(list(b[2]))
        else:
            x = gen_cast(rng, nk)
            S.append(x[0]), T.append(x[1]), P.append(x[2])
    interp = rng.choice(["linear", "pchip"])
    s, t, p, pml = [], [], [], []
    q = None
    for n in range(N):
        k, K = vr(nan(S[n]), nan(P[n]))
        if K - k > 1 and (rng.random() < 0.35 or n == root):
            Pn = nan(P[n])
            x = rng.uniform(Pn[k], Pn[K - 1]) if q is None or rng.random() < 0.2 else min(max(q, Pn[k]), Pn[K - 1])
            q = q or x
            p.append(float(x))
            s.append(float(at(interp, x, Pn, nan(S[n]))))
            t.append(float(at(interp, x, Pn, nan(T[n]))))
        else:
            p.append(None), s.append(None), t.append(None)
        pml.append(None if rng.random() < 0.6 else rng.uniform(0, 1.2) * (q or 100.0))
    return dict(kind=kind, N=N, edges=E, root=root, tree=tree, eos="nl", interp=interp, tol=rng.choice([1e-4, 1e-8]), S=S, T=T, P=P, s=s, t=t, p=p, pml=pml,
                nrep=rng.choice([0, 1, 2, 3, 10**6, 10**6]))


def edge():
    import random
    r = random.Random(3)
    return [gen(r) for _ in range(80)]
