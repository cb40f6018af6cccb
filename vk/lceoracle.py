"""Independent evaluation of a local cluster expansion: clusters, orbits, correlations, value."""
from __future__ import annotations

import itertools

import numpy as np

TOL = 2e-3        # below this two lengths are the same (the matcher's own tolerance is 1e-3 + 1e-3 d)
GAP = 2.5e-2      # lengths must be this far apart to be surely different


def distances(coords):
    c = np.asarray(coords, float)
    return np.linalg.norm(c[:, None] - c[None, :], axis=2)


def ambiguous(coords, cutoffs=()):
    """Lengths nearly but not quite equal, or equal to a cutoff: the grouping is then a matter of tolerance."""
    d = distances(coords)
    v = np.sort(np.concatenate([d[np.triu_indices(len(d), 1)], np.asarray(list(cutoffs), float)]))
    g = np.diff(v)
    cut_close = any(np.abs(d[np.triu_indices(len(d), 1)] - c).min(initial=9) < GAP for c in cutoffs)
    return bool(((g > 1e-6) & (g < GAP)).any() or cut_close)


def canonical(idx, species, d):
    """Key equal for two index sets exactly when some species-preserving correspondence keeps all lengths."""
    best = None
    for p in itertools.permutations(idx):
        key = (tuple(species[i] for i in p), tuple(round(float(d[p[a], p[b]]), 2) for a in range(len(p)) for b in range(a)))
        if best is None or key < best:
            best = key
    return best


def orbits(coords, species, cutoffs):
    """{key: [index tuples]} over all clusters of 1 to 4 sites whose longest length is below its limit."""
    d = distances(coords)
    # replace every length by the representative of its class so that rounding cannot split a class
    vals = np.sort(d[np.triu_indices(len(d), 1)])
    rep, out = [], {}
    for v in vals:
        if not rep or v - rep[-1] > GAP / 2:
            rep.append(v)
    rep = np.array(rep)
    q = d.copy()
    for i in range(len(d)):
        for j in range(len(d)):
            if i != j:
                q[i, j] = float(np.argmin(np.abs(rep - d[i, j])))
    lim = {1: 10.0, 2: cutoffs[0], 3: cutoffs[1], 4: cutoffs[2]}
    for n in (1, 2, 3, 4):
        for idx in itertools.combinations(range(len(d)), n):
            longest = max([d[a, b] for a, b in itertools.combinations(idx, 2)], default=0.0)
            if longest < lim[n]:
                out.setdefault((n,) + canonical(idx, species, q), []).append(idx)
    return out


def phi(basis, q, state, k=0):
    """Value of site basis function k at a state of a site with q states."""
    if basis == "occupation":
        return 1.0 if state == 0 else 0.0
    x = -1.0 + 2.0 * state / (q - 1)
    t0, t1 = 1.0, x
    for _ in range(k):
        t0, t1 = t1, 2 * x * t1 - t0
    return t1


def column(clusters, occ, basis, counts, decoration=None):
    total = 0.0
    for c in clusters:
        v = 1.0
        for pos, i in enumerate(c):
            v *= phi(basis, counts[i], int(occ[i]), 0 if decoration is None else decoration[pos])
        total += v
    return total


def model_features(lce):
    """[(clusters, decorations or None)] as listed by the model."""
    sites = [[tuple(int(v) for v in c) for c in f] for f in lce.cluster_site_indices]
    cb = getattr(lce, "correlation_basis_indices", None)
    deco = [None] * len(sites) if cb is None else [[tuple(int(v) for v in c) for c in f] for f in cb]
    return list(zip(sites, deco))


def value(lce, occ, basis, counts):
    """Value from the model's listed features, evaluated independently."""
    total = float(lce.empty_cluster)
    for (clusters, deco), k in zip(model_features(lce), lce.keci):
        corr = 0.0
        for n, c in enumerate(clusters):
            v = 1.0
            for pos, i in enumerate(c):
                v *= phi(basis, counts[i], int(occ[i]), 0 if deco is None else deco[n][pos])
            corr += v
        total += float(k) * corr
    return total


def automorphisms(coords, species, limit=200):
    """Site permutations keeping species, mutual lengths and lengths to the origin."""
    d = distances(coords)
    r = np.linalg.norm(np.asarray(coords, float), axis=1)
    n = len(d)
    out = []

    def go(p):
        if len(out) >= limit:
            return
        k = len(p)
        if k == n:
            out.append(tuple(p))
            return
        for j in range(n):
            if j in p or species[j] != species[k] or abs(r[j] - r[k]) > 1e-5:
                continue
            if all(abs(d[j, p[a]] - d[k, a]) < 1e-5 for a in range(k)):
                go(p + [j])

    go([])
    return out
