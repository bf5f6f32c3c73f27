R = {}
def ref(name, checks, *edits): R[name] = (checks.split(), edits)
ref("brent-sign", "C01 C02 C10", ("fzero.py", "        if (0.0 < fb and 0.0 < fc) or (fb <= 0.0 and fc <= 0.0):\n            c = a\n            fc = fa\n            e = b - a\n            d = e",
 "        same_side = (0.0 < fb) == (0.0 < fc)\n        if same_side:\n            c, fc = a, fa\n            d = b - a\n            e = d"),
 ("fzero.py", "        if tol < abs(d):\n            b += d\n        elif 0.0 < m:\n            b += tol\n        else:\n            b -= tol",
 "        step = d\n        if abs(d) <= tol:\n            step = tol if m > 0.0 else -tol\n        b = b + step"))
ref("bfs-while", "C11 C12", ("bfs.py", "            for n in indices[indptr[m] : indptr[m + 1]]:\n                if good[n]:\n                    # n is good and undiscovered\n                    qt += 1  # Add n to queue\n                    qu[qt] = n\n                    good[n] = False  # mark n as discovered\n    # else, root node is invalid.  Leave qt as -1, so qu[0:qt+1] is empty\n\n    return qu[0 : qt + 1]\n\n\n@nb.njit\ndef bfs_conncomp1_wet(",
 "            for j in range(indptr[m], indptr[m + 1]):\n                n = indices[j]\n                if not good[n]:\n                    continue\n                good[n] = False  # mark n as discovered\n                qt += 1  # Add n to queue\n                qu[qt] = n\n    # else, root node is invalid.  Leave qt as -1, so qu[0:qt+1] is empty\n\n    return qu[: qt + 1]\n\n\n@nb.njit\ndef bfs_conncomp1_wet("))
ref("csr-helper", "C16", ("grid/graph.py", "    deg = np.zeros(N, dtype=np.int_)\n    for i in range(E):\n        deg[a[i]] += 1\n        deg[b[i]] += 1\n    sum_deg", "    deg = _degrees(a, b, N)\n    sum_deg"),
 ("grid/graph.py", "@nb.njit\ndef edges_to_csr(", "@nb.njit\ndef _degrees(a, b, N):\n    deg = np.zeros(N, dtype=np.int_)\n    for i in range(len(a)):\n        deg[a[i]] += 1\n        deg[b[i]] += 1\n    return deg\n\n\n@nb.njit\ndef edges_to_csr("))
ref("csr-cumsum", "C16", ("grid/graph.py", "    indptr[0] = 0\n    for i in range(N):\n        indptr[i + 1] = indptr[i] + deg[i]", "    total = 0\n    indptr[0] = total\n    for i in range(N):\n        total += deg[i]\n        indptr[i + 1] = total"))
ref("ntp-bottle-reorder", "C10", ("traj.py", "        Sc = S[c, :]\n        Tc = T[c, :]\n        Pc = P[c, :]", "        Pc = P[c]\n        Sc, Tc = S[c], T[c]"),
  ("traj.py", "    for c in range(0, nc):", "    for c in range(nc):"))
ref("ntp-eps-helper", "C14 C15", ("ntp.py", "        rs, rt = eos_s_t(\n            0.5 * (s[a_] + s[b_]),\n            0.5 * (t[a_] + t[b_]),\n            0.5 * (p[a_] + p[b_]),\n        )\n        e[i] = rs * (s[b_] - s[a_]) + rt * (t[b_] - t[a_])",
  "        sm, tm, pm = _mid(s, t, p, a_, b_)\n        rs, rt = eos_s_t(sm, tm, pm)\n        ds = s[b_] - s[a_]\n        dt = t[b_] - t[a_]\n        e[i] = rs * ds + rt * dt"),
  ("ntp.py", "@nb.njit\ndef _ntp_epsilon_error1(", "@nb.njit\ndef _mid(s, t, p, i, j):\n    return (s[i] + s[j]) / 2, (t[i] + t[j]) / 2, (p[i] + p[j]) / 2\n\n\n@nb.njit\ndef _ntp_epsilon_error1("))
ref("eps-norms", "C15", ("ntp.py", "    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)\n    e_MAV = np.nansum(distperp * abs(e)) / denom", "    ratio = distperp / dist\n    e_MAV = np.nansum(distperp * np.abs(e)) / denom\n    e_RMS = np.sqrt(np.nansum(ratio * e * e) / denom)"))
ref("vertsolve-early", "C08 C09 C13", ("surface/_vertsolve.py", "        if K - k > 1 and np.isfinite(ϕn):", "        enough = K - k >= 2\n        if enough and np.isfinite(ϕn):"))
ref("rect-helper", "C17", ("grid/rectilinear.py", "    i1 = int(not periodic[0])  # 0 when periodic, 1 when non-periodic\n    j1 = int(not periodic[1])\n    x = np.broadcast_to(data[0], dims)", "    i1, j1 = (0 if q else 1 for q in periodic)\n    x = np.broadcast_to(data[0], dims)"),
   ("grid/rectilinear.py", "        a[:Ei] = idx.reshape(-1)\n        b[:Ei] = np.roll(idx, 1, axis=0).reshape(-1)", "        a[:Ei] = idx.ravel()\n        b[:Ei] = np.roll(idx, 1, axis=0).ravel()"))
ref("veronis-loop", "C18", ("label.py", "    for i in range(n):\n        dx = p_[i] - P[k]\n        s_[i] = pval(dx, Sppc[k], 0)\n        t_[i] = pval(dx, Tppc[k], 0)\n        dsdp_[i] = pval(dx, Sppc[k], 1)\n        dtdp_[i] = pval(dx, Tppc[k], 1)",
   "    Sk, Tk = Sppc[k], Tppc[k]\n    for i in range(n):\n        dx = p_[i] - P[k]\n        dsdp_[i] = pval(dx, Sk, 1)\n        dtdp_[i] = pval(dx, Tk, 1)\n        s_[i] = pval(dx, Sk)\n        t_[i] = pval(dx, Tk)"),
   ("label.py", "    if p1 >= p0:\n        sgn = 1\n    else:\n        sgn = -1\n        p1, p0 = p0, p1", "    sgn = 1\n    if p1 < p0:\n        sgn = -1\n        p0, p1 = p1, p0"))
ref("pval-horner", "C04 C05 C19", ("ppinterp/ppinterp.py", "        for j in range(0, order):\n            y = y * x + C[j]", "        for c in C:\n            y = c + x * y"))
ref("valid-range-while", "C03 C22", ("ppinterp/lib.py", "    k = K = len(X)\n\n    # Find k = index to first valid data site\n    for i in range(K):\n        if np.isfinite(X[i]):\n            k = i\n            break\n\n    # Find K, such that K-1 = index to last valid data site\n    for i in range(k + 1, K):\n        if np.isnan(X[i]):\n            K = i\n            break\n\n    return k, K",
   "    n = len(X)\n    k = 0\n    while k < n and not np.isfinite(X[k]):\n        k += 1\n    K = k\n    while K < n and not np.isnan(X[K]):\n        K += 1\n    return k, K"))
ref("stab-check", "C22", ("stability.py", "    p_avg = (P[0:-1] + P[1:]) / 2\n    σ1 = eos(S[0:-1], T[0:-1], p_avg)\n    σ2 = eos(S[1:], T[1:], p_avg)\n    dσdp = (σ2 - σ1) / (P[1:] - P[0:-1])\n    return dσdp\n", "    mid = 0.5 * (P[1:] + P[:-1])\n    dσ = eos(S[1:], T[1:], mid) - eos(S[:-1], T[:-1], mid)\n    return dσ / (P[1:] - P[:-1])\n"))
ref("omega-helper", "C13 C14", ("surface/omega.py", "    r = np.concatenate((a, b, np.arange(N)))\n    c = np.concatenate((b, a, np.arange(N)))", "    n_ = np.arange(N)\n    c = np.concatenate((b, a, n_))\n    r = np.concatenate((a, b, n_))"),
   ("surface/omega.py", "    D = aggsum(e, a, N) - aggsum(e, b, N)", "    D = -(aggsum(e, b, N) - aggsum(e, a, N))"))
ref("eos-jmd", "C06 C07", ("eos/jmd95.py", "import numpy as np", "import numpy as np  # noqa"))
ref("iso-pin", "C09 C20", ("surface/isopycnal.py", "import numpy as np", "import numpy as np\n\n_UNUSED = None"))
