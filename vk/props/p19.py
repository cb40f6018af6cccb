"""P19: cluster matching against brute force over all label-preserving correspondences."""
import itertools
import json

import numpy as np

TECHNIQUE = "runtime monitoring: every reported match or mismatch of real matcher runs is judged by a brute-force oracle over all label-preserving correspondences, with metamorphic partners (rigid motions, reorderings, distortions around the tolerance)"
LEVEL = ("exploration", "Random, symmetric, homometric and nearly degenerate clusters of up to 7 sites are judged by enumerating every correspondence; larger ones (up to 14) by constructed positives and by the sorted-distance bound for negatives. Decisions within 5% of the tolerance are not judged.")
CASES = {"quick": 700, "thorough": 12000}
RULE = "cluster family x labels x transformation x tolerance x distortion; distinct by (labels, distances, tolerance)"
MIN = {"judged_match": 900, "judged_mismatch": 250, "ambiguous": 200, "unique": 200, "nearest": 150, "undetermined": 1, "large": 100, "signature_refused": 200, "equality": 500}
ASSUMPTIONS = ["a pair distance agrees when |difference| <= atol + rtol*distance; a mirror image has the same pair distances and so matches"]

SHAPES = {
    "square": [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]],
    "tetra": [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]],
    "octa": [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]],
    "octa_center": [[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]],
    "line": [[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0], [4, 0, 0]],
    "hexagon": [[np.cos(k * np.pi / 3), np.sin(k * np.pi / 3), 0] for k in range(6)],
    "prism": [[np.cos(k * 2 * np.pi / 3), np.sin(k * 2 * np.pi / 3), z] for z in (0, 1.3) for k in range(3)],
    "kite": [[0, 0, 0], [1, 1, 0], [1, -1, 0], [4, 0, 0]],
    "trapezoid": [[0, 0, 0], [4, 0, 0], [1, 1, 0], [3, 1, 0]],
    "ruler_a": [[v, 0, 0] for v in (0, 1, 4, 10, 12, 17)],
    "ruler_b": [[v, 0, 0] for v in (0, 1, 8, 11, 13, 17)],
    "rect": [[0, 0, 0], [2, 0, 0], [2, 1, 0], [0, 1, 0]],
    "chiral": [[0, 0, 0], [1, 0, 0], [1, 1.4, 0], [1, 1.4, 1.9]],
}
TWINS = [("kite", "trapezoid"), ("ruler_a", "ruler_b"), ("square", "rect"), ("square", "tetra")]
LARGE = {
    "cube": [[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)],
    "icosa": [[0, a, b] for a in (-1, 1) for b in (-1.618034, 1.618034)] + [[a, b, 0] for a in (-1, 1) for b in (-1.618034, 1.618034)] + [[b, 0, a] for a in (-1, 1) for b in (-1.618034, 1.618034)],
    "fcc12": [p for p in itertools.product((-1, 0, 1), repeat=3) if sum(map(abs, p)) == 2],
    "bcc14": [p for p in itertools.product((-1, 1), repeat=3)] + [p for p in itertools.product((-2, 0, 2), repeat=3) if sum(map(abs, p)) == 2],
}


def dist(c):
    c = np.asarray(c, float).reshape(-1, 3)
    return np.linalg.norm(c[:, None] - c[None], axis=2)


def correspondences(la, lb):
    groups = {}
    for k, l in enumerate(la):
        groups.setdefault(l, []).append(k)
    other = {}
    for k, l in enumerate(lb):
        other.setdefault(l, []).append(k)
    if {k: len(v) for k, v in groups.items()} != {k: len(v) for k, v in other.items()}:
        return
    keys = sorted(groups)
    for combo in itertools.product(*[itertools.permutations(other[k]) for k in keys]):
        p = [0] * len(la)
        for k, c in zip(keys, combo):
            for a, b in zip(groups[k], c):
                p[a] = b
        yield p


def judge(la, da, lb, db, rtol, atol):
    """(exact correspondences surely within tolerance, correspondences possibly within, minimum total deviation, any)"""
    sure = maybe = 0
    best = np.inf
    some = False
    for p in correspondences(la, lb):
        some = True
        d = db[np.ix_(p, p)]
        dev = np.abs(da - d)
        best = min(best, float(dev.sum()))
        if np.all(dev <= 0.95 * (atol + rtol * np.minimum(da, d)) + 1e-12):
            sure += 1
        if np.all(dev <= 1.05 * (atol + rtol * np.maximum(da, d)) + 1e-9):
            maybe += 1
    return sure, maybe, best, some


def rigid(rng, c, mirror=True):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    if not mirror and np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return np.asarray(c, float) @ q.T + rng.uniform(-20, 20, 3)


def build(rng, labels, coords, ids):
    """A Cluster through one of its public constructors."""
    from pymatgen.core import Lattice, PeriodicSite, Site
    from kmcpy.structure.cluster import Cluster

    sp, roles = [l[0] for l in labels], [l[1] for l in labels]
    kind = int(rng.integers(4))
    kw = {} if not any(roles) else {"roles": roles}
    if kind == 0:
        return Cluster(ids, species=sp, coords=coords, **kw)
    if kind == 1:
        return Cluster.from_sites([Site(s, c) for s, c in zip(sp, coords)], site_indices=ids, **kw)
    lat = Lattice(np.diag(rng.uniform(3, 9, 3)) + rng.uniform(-1, 1, (3, 3)))
    sites = [PeriodicSite(s, c, lat, coords_are_cartesian=True, to_unit_cell=False) for s, c in zip(sp, coords)]
    if kind == 2:
        return Cluster(ids, sites, **kw)
    return Cluster.from_neighbor_info([{"site": s, "site_index": i} for s, i in zip(sites, ids)], **kw)


def verify(ctx, m, la, da, lb, db, ids_b, rtol, atol, exact, note):
    n = len(la)
    p = list(m.reference_to_candidate)
    ok = sorted(p) == list(range(n)) and all(la[k] == lb[p[k]] for k in range(n))
    if not ctx.check(ok, "not-label-preserving", lambda: f"{note}: {p} {la} {lb}"):
        return None
    ctx.check([p[m.candidate_to_reference[j]] for j in range(n)] == list(range(n)), "inverse-order", lambda: f"{note}: {p} {m.candidate_to_reference}")
    ctx.check(list(m.ordered_candidate_indices) == [ids_b[j] for j in p], "ordered-indices", lambda: f"{note}: {p} {m.ordered_candidate_indices} {ids_b}")
    d = db[np.ix_(p, p)]
    dev = np.abs(da - d)
    if exact:
        ctx.check(np.all(dev <= 1.05 * (atol + rtol * np.maximum(da, d)) + 1e-9), "false-match", lambda: f"{note}: order {p} leaves deviations up to {dev.max():.5f} (rtol {rtol}, atol {atol})")
    return float(dev.sum())


def pair(ctx, rng, la, ca, lb, cb, rtol, atol, note, brute=True, must=None):
    """Run the matcher on one pair in all modes; judge each answer."""
    from kmcpy.structure.cluster import Cluster, ClusterMatcher, match_clusters

    n, nb = len(la), len(lb)
    ids_a = [int(v) for v in rng.choice(500, n, replace=False)]
    ids_b = [int(v) for v in rng.choice(500, nb, replace=False)]
    A, B = build(rng, la, ca, ids_a), build(rng, lb, cb, ids_b)
    da, db = dist(ca), dist(cb)
    default = (rtol, atol) == (1e-3, 1e-3)
    kw = {} if default and rng.random() < 0.5 else {"rtol": rtol, "atol": atol}

    def run(**mode):
        try:
            r = rng.random()
            if r < 0.4:
                return match_clusters(A, B, **kw, **mode)
            return ClusterMatcher(A, **kw).match(B, **mode)
        except ValueError:
            return None

    if brute:
        sure, maybe, best, some = judge(la, da, lb, db, rtol, atol)
        determined = (sure > 0) or (maybe == 0)
        want = sure > 0
        counted = sure == maybe or sure >= 2
        unique = sure == 1
    else:
        ctx.count("large")
        some = sorted(la) == sorted(lb)
        determined, want, counted, unique, best = must is not None, must, False, None, None
    ctx.sig(note, sorted(map(str, la)), np.round(np.sort(da.ravel()), 2).tolist(), rtol, atol)
    if not some:
        ctx.count("signature_refused")
        for mode in ({}, {"find_nearest_if_fail": True}, {"require_unique": True}):
            ctx.check(run(**mode) is None, "different-species-matched", f"{note}: {la} {lb} {mode}")
        ctx.check(not (A == B), "different-species-equal", f"{note}: {la} {lb}")
        return
    m = run()
    if not determined:
        ctx.count("undetermined")
    else:
        ctx.count("judged_match" if want else "judged_mismatch")
        if want:
            ctx.check(m is not None, "match-missed", lambda: f"{note}: labels {la}, a correspondence within rtol {rtol} atol {atol} exists; coords {np.round(ca, 4).tolist()} / {np.round(cb, 4).tolist()}")
        else:
            ctx.check(m is None, "false-match", lambda: f"{note}: labels {la}, no correspondence within rtol {rtol} atol {atol}; coords {np.round(ca, 4).tolist()} / {np.round(cb, 4).tolist()}")
        if default:
            ctx.count("equality")
            ctx.check((A == B) == want, "equality", lambda: f"{note}: == gives {A == B}, correspondence exists: {want}")
    if m is not None:
        verify(ctx, m, la, da, lb, db, ids_b, rtol, atol, True, note)
        order = ClusterMatcher(A, rtol=rtol, atol=atol).ordered_candidate_indices(B)
        ctx.check(len(order) == n and sorted(order) == sorted(ids_b), "ordered-indices", f"{note}")
    if determined and counted:
        u = run(require_unique=True)
        ctx.count("unique" if unique else "ambiguous") if want else None
        ctx.check((u is not None) == unique, "uniqueness", lambda: f"{note}: {sure} correspondences, require_unique gives {u}")
        if m is not None:
            ctx.check(bool(m.is_unique) == unique, "uniqueness-flag", lambda: f"{note}: {sure} correspondences, is_unique={m.is_unique}")
    if brute and n <= 6:
        m = run(find_nearest_if_fail=True)
        if ctx.check(m is not None, "nearest-refused", f"{note}"):
            ctx.count("nearest")
            total = verify(ctx, m, la, da, lb, db, ids_b, rtol, atol, determined and want, note)
            if total is not None and determined and not want:
                ctx.check(total <= best + 1e-8, "not-nearest", lambda: f"{note}: total deviation {total:.6f}, best {best:.6f}")
                ctx.check(abs(m.score - total) <= 1e-6 * max(1, total), "nearest-score", lambda: f"{note}: {m.score} {total}")
    # stored clusters still match the same way
    if rng.random() < 0.3 and determined:
        B2 = Cluster.from_dict(json.loads(json.dumps(B.as_dict())))
        try:
            r = match_clusters(A, B2, rtol=rtol, atol=atol)
        except ValueError:
            r = None
        ctx.check((r is not None) == want, "stored-cluster", f"{note}")
        if r is not None:
            ctx.check(sorted(r.ordered_candidate_indices) == sorted(ids_b), "stored-indices", f"{note}")


def labels_for(rng, n):
    k = int(rng.integers(1, 4))
    els = list(rng.choice(["Na", "Si", "P", "O", "Cl", "Zr"], k, replace=False))
    roles = ["", "", ""] if rng.random() < 0.7 else [["a", "b", ""], ["shell1", "shell2", "shell"]][int(rng.integers(2))]
    return [(str(rng.choice(els)), str(rng.choice(roles))) for _ in range(n)]


def case(ctx, rng, i):
    rtol, atol = [(1e-3, 1e-3), (1e-3, 1e-3), (1e-5, 1e-4), (0.0, 0.05), (0.02, 0.0), (0.05, 0.2)][int(rng.integers(6))]
    r = rng.random()
    if r < 0.15:
        name = str(rng.choice(sorted(LARGE)))
        c = np.array(LARGE[name], float) * float(rng.uniform(1.5, 3))
        la = [("Na", "")] * len(c) if rng.random() < 0.6 else labels_for(rng, len(c))
        p = rng.permutation(len(c))
        cb = rigid(rng, c)[p] + rng.normal(size=c.shape) * atol * 0.05
        pair(ctx, rng, la, c, [la[j] for j in p], cb, rtol, atol, "large:" + name, brute=False, must=True)
        ls = rng.permutation(len(c))[:3]
        cb = cb.copy()
        cb[int(ls[0])] += rng.normal(size=3) * 1.0
        sa, sb = np.sort(dist(c).ravel()), np.sort(dist(cb).ravel())
        no = bool(np.any(np.abs(sa - sb) > 1.1 * (atol + rtol * np.maximum(sa, sb))))
        pair(ctx, rng, la, c, [la[j] for j in p], cb, rtol, atol, "large-broken:" + name, brute=False, must=False if no else None)
        return
    if r < 0.45:
        name = str(rng.choice(sorted(SHAPES)))
        c = np.array(SHAPES[name], float) * float(rng.uniform(1, 3))
    elif r < 0.6:  # lattice fragment, many equal distances
        name = "fragment"
        g = np.array(list(itertools.product(range(3), repeat=3)), float)
        c = g[rng.choice(len(g), int(rng.integers(2, 7)), replace=False)] * float(rng.uniform(1, 3))
    else:
        name = "random"
        while True:
            c = rng.uniform(0, 5, (int(rng.integers(1, 7)), 3))
            d = dist(c)
            np.fill_diagonal(d, 9)
            if d.min() > 0.8:
                break
    n = len(c)
    la = [("Na", "")] * n if rng.random() < 0.5 else labels_for(rng, n)
    p = rng.permutation(n)
    lb = [la[j] for j in p]
    moved = rigid(rng, c)[p]
    pair(ctx, rng, la, c, lb, moved, rtol, atol, "rigid:" + name)
    ctx.sample({"shape": name, "labels": la, "tolerance": [rtol, atol]})
    # distorted by a chosen multiple of the tolerance
    scale = atol + rtol * 2
    f = float(rng.choice([0.2, 0.4, 1.0, 3.0, 10.0, 100.0]))
    pair(ctx, rng, la, c, lb, moved + rng.normal(size=c.shape) * scale * f * 0.3, rtol, atol, f"distort{f}:" + name)
    # one site moved: correspondence broken locally
    k = int(rng.integers(n))
    one = moved.copy()
    one[k] += rng.normal(size=3) * float(rng.choice([scale * 5, 0.5]))
    pair(ctx, rng, la, c, lb, one, rtol, atol, "one-moved:" + name)
    # uniform strain
    pair(ctx, rng, la, c, lb, moved * (1 + float(rng.choice([-1, 1])) * rtol * float(rng.choice([0.3, 4.0])) + atol * 0), rtol, atol, "strain:" + name)
    # labels exchanged between two sites, species changed, one site more or less
    if n > 1:
        a, b = rng.choice(n, 2, replace=False)
        lc = list(lb)
        lc[a] = lc[b]  # same kinds of site in other numbers
        pair(ctx, rng, la, c, lc, moved, rtol, atol, "numbers:" + name)
        lc = list(lb)
        lc[a], lc[b] = lc[b], lc[a]
        pair(ctx, rng, la, c, lc, moved, rtol, atol, "swapped-labels:" + name)
        pair(ctx, rng, la, c, lb[:-1], moved[:-1], rtol, atol, "fewer:" + name)
    lc = list(lb)
    lc[k] = ("W", lc[k][1]) if rng.random() < 0.5 else (lc[k][0], lc[k][1] + "z")
    pair(ctx, rng, la, c, lc, moved, rtol, atol, "other-label:" + name)
    if rng.random() < 0.3:
        x, y = TWINS[int(rng.integers(len(TWINS)))]
        ca, cb = np.array(SHAPES[x], float), rigid(rng, SHAPES[y])
        q = rng.permutation(len(cb))
        pair(ctx, rng, [("Na", "")] * len(ca), ca, [("Na", "")] * len(ca), cb[q], rtol, atol, f"twins:{x}:{y}")


def crowd(ctx, rng):
    """Environments of 15 to 26 generic sites: one correspondence, found or reported missing."""
    for n in (15, 16, 18, 22, 26):
        while True:
            c = rng.uniform(-5, 5, (n, 3))
            d = dist(c)
            np.fill_diagonal(d, 9)
            if d.min() > 1.0:
                break
        for la in ([("Na", "")] * n, [(str(rng.choice(["Na", "Si", "O"])), "") for _ in range(n)]):
            p = rng.permutation(n)
            cb, lb = rigid(rng, c)[p], [la[j] for j in p]
            pair(ctx, rng, la, c, lb, cb, 1e-3, 1e-3, f"crowd{n}", brute=False, must=True)
            a = int(rng.integers(n))
            moved = cb.copy()
            moved[a] += [0.0, 0.7, -0.4]
            pair(ctx, rng, la, c, lb, moved, 1e-3, 1e-3, f"crowd-broken{n}", brute=False, must=False)
            b = next((k for k in range(n) if lb[k] != lb[a]), None)
            if b is not None:
                lc = list(lb)
                lc[a], lc[b] = lc[b], lc[a]
                pair(ctx, rng, la, c, lc, cb, 1e-3, 1e-3, f"crowd-swapped{n}", brute=False, must=False)
            ctx.count("crowds")


NAMED = {"crowd": crowd}
