"""P10: equivalent hops list their surroundings in the same geometric order."""
import itertools

import numpy as np

from .. import geom
from ..models import local_structure, start_index
from ..toys import Toy, endpoint_labels, active_order, gap_cutoff, generate_events, make_toy, safe_shape, _far_enough
from .p09 import elements, read_events

TECHNIQUE = "runtime monitoring: offline checker comparing every recorded environment, position by position, with the crystal geometry across symmetry and translation images"
LEVEL = ("exploration", "Each environment of each generated library is compared position by position with the geometry of every equivalent environment (equivalence known by construction of the crystal); crystals, orientations, site orders and supercells are sampled.")
CASES = {"quick": 260, "thorough": 5000}
RULE = "random base atoms x symmetry operation set x cell shape x input site order x mapping x supercell; distinct by (operations, environment size, degeneracies, supercell, order)"
MIN = {"equivalent_pairs": 300, "translates_compared": 1500, "model_orders_compared": 30, "swappable_environments": 4}
ASSUMPTIONS = ["starting sites count as equivalent when a symmetry operation of the crystal, used to build it, maps one onto the other",
               "two distances count as the same within twice the documented matching tolerance (0.01 + 0.01 d): both environments are matched to a common reference",
               "the order of a model is the documented NASICON order (centre excluded, species then x), the one event generation uses"]

E = np.eye(3)
INV = -E
M = {k: np.diag([-1 if i == k else 1 for i in range(3)]) for k in range(3)}
C2 = {k: np.diag([1 if i == k else -1 for i in range(3)]) for k in range(3)}
C4Z = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]], float)
C3 = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]], float)  # about the body diagonal (cubic axes)
S4Z = np.array([[0, 1, 0], [-1, 0, 0], [0, 0, -1]], float)


def op_set(rng):
    """(name, [(R, t)], cell kind); every R maps the metric of that cell kind onto itself, acting on fractional coordinates."""
    k = int(rng.integers(3))
    half = [0, 0.5]
    t = np.array([half[int(v)] for v in rng.integers(0, 2, 3)])
    kind = int(rng.integers(8))
    if kind == 0:
        return "inversion", [(E, 0), (INV, 0)], "tri"
    if kind == 1:
        tt = t.copy(); tt[k] = 0
        return "glide/mirror", [(E, 0), (M[k], tt)], "orth"
    if kind == 2:
        tt = np.zeros(3); tt[k] = half[int(rng.integers(2))]
        return "twofold/screw", [(E, 0), (C2[k], tt)], "orth"
    if kind == 3:
        return "222", [(E, 0), (C2[0], 0), (C2[1], 0), (C2[2], 0)], "orth"
    if kind == 4:
        return "fourfold", [(np.linalg.matrix_power(C4Z.astype(int), n).astype(float), 0) for n in range(4)], "tet"
    if kind == 5:
        return "S4", [(np.linalg.matrix_power(S4Z.astype(int), n).astype(float), 0) for n in range(4)], "tet"
    if kind == 6:
        return "threefold", [(np.linalg.matrix_power(C3.astype(int), n).astype(float), 0) for n in range(3)], "cub"
    return "2/m", [(E, 0), (M[0], 0), (INV, 0), (C2[0], 0)], "orth"


def sym_toy(rng):
    for _ in range(300):
        name, ops, kind = op_set(rng)
        a, b, c = (float(v) for v in rng.uniform(4.8, 7.2, 3))
        ang = (90.0, 90.0, 90.0)
        if kind == "tri":
            ang = tuple(float(v) for v in rng.uniform(75, 108, 3))
        if kind == "tet":
            b = a
        if kind == "cub":
            b = c = a
        m = geom.lattice((a, b, c), ang)
        if not np.isfinite(m).all() or abs(np.linalg.det(m)) < 60:
            continue
        origin = rng.random(3)
        base = [("Na", rng.random(3))]
        n_si = int(rng.integers(0, 3))
        base += [("Si", rng.random(3)) for _ in range(n_si)]
        if rng.random() < 0.3:
            base.append(("Na", rng.random(3)))
        base.append(("O", rng.random(3)))
        sites, orbit = [], []
        for o, (el, f) in enumerate(base):
            pts = []
            for R, t in ops:
                q = np.mod(origin + R @ (f - origin) + t, 1.0)
                if not any(np.linalg.norm((np.mod(q - p + 0.5, 1.0) - 0.5) @ m) < 0.05 for p in pts):
                    pts.append(q)
            for q in pts:
                sites.append((el, q))
                orbit.append(o)
        if len(sites) > 16 or not _far_enough([f for _, f in sites], m, 1.5):
            continue
        perm = rng.permutation(len(sites))
        sites = [sites[int(k)] for k in perm]
        orbit = [orbit[int(k)] for k in perm]
        cnt = {}
        named = []
        for el, f in sites:
            cnt[el] = cnt.get(el, 0) + 1
            named.append((f"{el}{cnt[el]}", el, tuple(float(v) for v in f)))
        mapping = {"Na": ["Na", "X"] if rng.random() < 0.6 else ["X", "K", "Na"], "O": "O"}
        if n_si:
            mapping["Si"] = ["Si", "P"] if rng.random() < 0.7 else ["P", "Si", "Al"]
        na = [f for _, el, f in named if el == "Na"]
        act = [f for _, el, f in named if el in ("Na", "Si")]
        cut = gap_cutoff(na, act, m, 2.4, 4.9, rng)
        if cut is None:
            continue
        toy = Toy(name, (a, b, c), ang, named, mapping, (1, 1, 1), float(cut))
        toy.mobile_species = ("Na",)
        fr = [np.array(f) for _, _, f in named]
        sizes = [len([1 for j, _, _ in geom.neighbours(fr, m, i, lambda j: cut) if named[j][1] in ("Na", "Si")]) for i in range(len(named)) if named[i][1] == "Na"]
        hops = [len([1 for j, _, _ in geom.neighbours(fr, m, i, lambda j: cut) if named[j][1] == "Na"]) for i in range(len(named)) if named[i][1] == "Na"]
        # inequivalent start sites fall back to a permutation search: keep those small
        if not any(hops) or max(sizes) > (6 if len(set(orbit[i] for i in range(len(named)) if named[i][1] == "Na")) > 1 else 12):
            continue
        if max(sizes) < 2:
            continue
        toy.shape = safe_shape(m, cut)
        if int(np.prod(toy.shape)) * len(act) > 220:
            continue
        # site pairs of other distances closer than tolerance to each other would make "same distance" ambiguous only, never wrong
        return toy, orbit, m
    raise RuntimeError("no symmetric toy")


def env_geometry(start, env, pos, shape, prim, m):
    """Cartesian positions of the listed environment around the starting site (nearest images)."""
    p0, c0 = pos[start]
    base = np.array(prim[p0]) + c0
    out = []
    for s in env:
        p, c = pos[s]
        d = np.array(prim[p]) + c - base
        best = None
        for im in itertools.product((-1, 0, 1), repeat=3):
            v = (d + np.multiply(im, shape)) @ m
            n = np.linalg.norm(v)
            if best is None or n < best[0]:
                best = (n, v)
        out.append(best[1])
    return np.array(out)


def matrix_of(v):
    p = np.vstack([v, np.zeros((1, 3))])  # last row: the migrating ion
    return np.linalg.norm(p[:, None] - p[None], axis=2)


def libs(ctx, toy, m):
    generate_events(toy)
    events = read_events("events.json")
    act = active_order(toy).active_structure()
    prim = [np.mod(f, 1.0) for _, _, f in toy.sites]
    els = [e for _, e, _ in toy.sites]
    pos = geom.locate(act.frac_coords, toy.shape, prim, elements(act), els)
    if not ctx.check(None not in pos, "site-without-position", "supercell sites do not correspond to input sites"):
        return None
    return events, pos, prim, els


def translates(ctx, toy, events, pos, prim, els, m, tag):
    """Position k of every image of a starting site is the exact translate; returns {prim start: (species, geometry)}."""
    shape = np.array(toy.shape)
    ref, geo, seen = {}, {}, set()
    for (a, b), env in events:
        if (a, env) in seen:
            continue
        seen.add((a, env))
        p, c = pos[a]
        rel = [(pos[s][0], tuple(int(v) for v in np.mod(np.subtract(pos[s][1], c), shape))) for s in env]
        ctx.count("translates_compared")
        if p not in ref:
            ref[p] = rel
            geo[p] = ([els[pos[s][0]] for s in env], env_geometry(a, env, pos, shape, prim, m))
        ctx.check(rel == ref[p], "not-a-translate", lambda: f"{tag}: environment of {a} is not the translate of its image's: {rel} vs {ref[p]}")
    return geo


def same_role(ctx, A, B, key, msg):
    (sa, va), (sb, vb) = A, B
    if not ctx.check(sa == sb, key + "-species", lambda: f"{msg}: species {sa} vs {sb}"):
        return False
    da, db = matrix_of(va), matrix_of(vb)
    bad = np.abs(da - db) > 0.021 + 0.021 * np.maximum(da, db)
    return ctx.check(not bad.any(), key + "-distances",
                     lambda: f"{msg}: positions {np.argwhere(bad)[:4].tolist()} differ, e.g. {da[tuple(np.argwhere(bad)[0])]:.3f} vs {db[tuple(np.argwhere(bad)[0])]:.3f} (last index: migrating ion)")


def swappable(geo):
    """Does exchanging same-species neighbours keep all mutual distances but not those to the ion?"""
    sp, v = geo
    d = matrix_of(v)
    n = len(sp)
    for i in range(n):
        for j in range(i + 1, n):
            if sp[i] == sp[j] and abs(d[i, n] - d[j, n]) > 0.1:
                q = list(range(n)); q[i], q[j] = j, i
                if np.allclose(d[:n, :n][np.ix_(q, q)], d[:n, :n], atol=0.01):
                    return True
    return False


def case(ctx, rng, i):
    if i % 5 == 4:
        return model_case(ctx, rng)
    toy, orbit, m = sym_toy(rng)
    toy.write_cif("toy.cif")
    got = libs(ctx, toy, m)
    if got is None:
        return
    events, pos, prim, els = got
    tag = f"{toy.name} {toy.shape}"
    geo = translates(ctx, toy, events, pos, prim, els, m, tag)
    by = {}
    for p in geo:
        by.setdefault(orbit[p], []).append(p)
    for o, ps in by.items():
        if swappable(geo[ps[0]]):
            ctx.count("swappable_environments")
        for a, b in itertools.combinations(sorted(ps), 2):
            ctx.count("equivalent_pairs")
            same_role(ctx, geo[a], geo[b], "equivalent", f"{tag}: input sites {toy.sites[a][0]} and {toy.sites[b][0]} are related by symmetry")
    ctx.count("symmetry_" + toy.name)
    ctx.sig(toy.name, sorted(len(g[0]) for g in geo.values()), toy.shape, [orbit.index(o) for o in sorted(set(orbit))])
    ctx.sample({"symmetry": toy.name, "starts": len(geo), "environment": max(len(g[0]) for g in geo.values()), "shape": toy.shape})


def model_case(ctx, rng):
    """The local order a model is built with is the order the events list."""
    if rng.random() < 0.5:
        toy, orbit, m = sym_toy(rng)
    else:
        toy = make_toy(rng)
        m = geom.lattice(toy.abc, toy.angles)
        orbit = list(range(len(toy.sites)))
    toy.write_cif("toy.cif")
    got = libs(ctx, toy, m)
    if got is None:
        return
    events, pos, prim, els = got
    geo = translates(ctx, toy, events, pos, prim, els, m, toy.name)
    # every reference: the first start (in active order) of each species composition defines the order of all that match it
    from kmcpy.io.cif import load_labeled_structure_from_cif

    st = load_labeled_structure_from_cif(toy.cif)
    labels = [str(s.properties["label"]) for s in st]
    sl, _ = endpoint_labels(toy)
    starts = [q for q in range(len(toy.sites)) if toy.sites[q][0] in sl]
    act = [isinstance(toy.site_mapping[e], list) for e in els]
    comp = {q: sorted(els[j] for j, _, _ in geom.neighbours(prim, m, q, lambda j: toy.cutoff) if act[j]) for q in starts}
    for o in sorted({orbit[p] for p in geo}):
        ps = [p for p in geo if orbit[p] == o]
        others = [q for q in range(len(toy.sites)) if q in starts and orbit[q] != o and comp[q] == comp[ps[0]]]
        if others:  # another class with the same composition may own the reference order
            ctx.count("shared_composition")
            continue
        first = min(ps, key=lambda p: labels.index(toy.sites[p][0]))
        lls = local_structure(toy, center=labels.index(toy.sites[first][0]))
        v = np.array([s.coords for s in lls.structure])
        sp = [s.specie.symbol for s in lls.structure]
        ctx.count("model_orders_compared")
        for p in ps:
            same_role(ctx, (sp, v), geo[p], "model-order", f"{toy.name}: model centred on {toy.sites[first][0]} against events from {toy.sites[p][0]}")
    ctx.sig("model", toy.name, toy.shape, sorted(len(g[0]) for g in geo.values()))


def two_distances(ctx, rng):
    """Two same-species neighbours at different distances from two inversion-related ions, any input order."""
    for perm in itertools.permutations(range(6)):
        sites = [("Na", (0.2, 0.5, 0.5)), ("Na", (0.8, 0.5, 0.5)), ("Si", (0.35, 0.62, 0.5)), ("Si", (0.65, 0.38, 0.5)), ("Si", (0.05, 0.44, 0.5)), ("Si", (0.95, 0.56, 0.5))]
        cnt, named = {}, []
        for k in perm:
            el, f = sites[k]
            cnt[el] = cnt.get(el, 0) + 1
            named.append((f"{el}{cnt[el]}", el, f))
        if perm[0] % 2 and rng.random() < 0.8:
            continue
        toy = Toy("two-distances", (9.0, 9.0, 9.0), (90.0,) * 3, named, {"Na": ["Na", "X"], "Si": ["Si", "P"]}, (2, 2, 2), 5.45)
        toy.mobile_species = ("Na",)
        m = geom.lattice(toy.abc, toy.angles)
        toy.shape = safe_shape(m, toy.cutoff)
        toy.write_cif("toy.cif")
        got = libs(ctx, toy, m)
        if got is None:
            return
        events, pos, prim, els = got
        geo = translates(ctx, toy, events, pos, prim, els, m, "two-distances")
        a, b = sorted(geo)
        same_role(ctx, geo[a], geo[b], "equivalent", "two-distances")


NAMED = {"two-distances": two_distances}
