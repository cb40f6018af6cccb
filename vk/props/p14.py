"""P14: the value of a cluster expansion against an independent enumeration of clusters and orbits."""
import itertools

import numpy as np

from .. import geom, lceoracle as L
from ..models import build_lce, local_structure, lce_toy, random_parameters
from ..toys import Toy, make_toy

TECHNIQUE = "runtime monitoring: observed values and correlations of the running model checked against an independent enumeration of clusters and orbits"
LEVEL = ("exploration", "Every feature of every built model is identified from its observed response to random occupations and compared with an independent enumeration of all clusters up to four sites; crystals, cutoffs, bases, orders, coefficients and occupations are sampled.")
CASES = {"quick": 200, "thorough": 3000}
RULE = "random crystal x centre (atom or point) x site order x cutoffs x basis x coefficients x occupations; distinct by (crystal, sites, orbits, basis, order, symmetry operations)"
MIN = {"values": 1500, "columns_identified": 300, "symmetric_pairs": 300, "structure_rows": 50, "refusals": 60, "multistate_values": 100}
ASSUMPTIONS = ["environments whose lengths are nearly but not quite equal (1e-6 to 0.025 A apart), where grouping is a matter of tolerance, are skipped"]


def event(env, rng, n):
    from kmcpy.event import Event

    a, b = (int(v) for v in rng.choice(n, 2, replace=False))
    return Event(mobile_ion_indices=(a, b), local_env_indices=tuple(int(v) for v in env))


def site_counts(toy, lls):
    m = toy.site_mapping
    sp = [s.species_string for s in lls.structure]
    return sp, [len(m[e]) for e in sp]


def evaluate(rng, lce, local_occ, counts):
    """Through the public route: a state of a larger system and an event listing scattered sites."""
    from kmcpy.simulator.state import State

    n = len(local_occ)
    big = n + int(rng.integers(3, 9))
    env = rng.permutation(big)[:n]
    occ = [int(rng.integers(2)) for _ in range(big)]
    for k, g in enumerate(env):
        occ[int(g)] = int(local_occ[k])
    before = list(occ)
    st = State(occupations=occ)
    v = float(lce.compute(simulation_state=st, event=event(env, rng, big)))
    return v, st.occupations == before


def case(ctx, rng, i):
    from kmcpy.io.cif import load_labeled_structure_from_cif

    basis = "occupation" if rng.random() < 0.3 else "chebyshev"
    order = "nasicon_nat_commun_2022" if rng.random() < 0.6 else "kmcpy_default"
    binary = rng.random() < 0.6
    for _ in range(60):
        toy = lce_toy(rng, max_env=7 if binary else 6, binary=binary) if rng.random() < 0.7 else make_toy(rng, binary=binary)
        toy.write_cif("toy.cif")
        kw = {}
        if rng.random() < 0.25:
            kw["center"] = tuple(float(v) for v in rng.random(3))
        elif not toy.name or rng.random() < 0.3:
            kw["cutoff"] = float(rng.uniform(2.5, 4.5))
        try:
            st = load_labeled_structure_from_cif(toy.cif)
            act = [k for k, s in enumerate(st) if isinstance(toy.site_mapping[s.species_string], list)]
            center = kw.pop("center", None) or int(act[int(rng.integers(len(act)))])
            lls = local_structure(toy, order=order, basis=basis, center=center, **kw)
        except Exception as exc:
            if "at least" in str(exc).lower() and "site" in str(exc).lower():
                continue   # nothing within the cutoff
            raise
        coords = np.array([s.coords for s in lls.structure]).reshape(-1, 3)
        n = len(coords)
        if not 1 <= n <= 8:
            continue
        cut = [float(v) for v in rng.uniform(2.0, 7.5, 3)]
        if rng.random() < 0.2:
            cut = [9.0, 9.0, 9.0]
        if L.ambiguous(coords, cut):
            ctx.count("ambiguous_skipped")
            continue
        break
    else:
        return
    sp, counts = site_counts(toy, lls)
    # the local structure itself: every active site within the cutoff of the centre
    mat = toy.lattice_matrix()
    cfrac = np.array(st[center].frac_coords) if isinstance(center, int) else np.array(center)
    cutoff = kw.get("cutoff", toy.cutoff)
    want = []
    im = geom.images(mat, cutoff + 1)
    for k in act:
        d = np.linalg.norm((np.array(st[k].frac_coords) - cfrac + im) @ mat, axis=1)
        want += [(st[k].species_string, round(float(x), 3)) for x in d if x <= cutoff and (x > 1e-2 or order == "kmcpy_default")]
    near = any(abs(np.linalg.norm((np.array(st[k].frac_coords) - cfrac + im) @ mat, axis=1) - cutoff).min() < 1e-3 for k in act)
    got = sorted((s, round(float(np.linalg.norm(c)), 3)) for s, c in zip(sp, coords))
    if not near:
        ctx.check(len(got) == len(want) and all(a[0] == b[0] and abs(a[1] - b[1]) < 3e-3 for a, b in zip(got, sorted(want))), "local-sites",
                  lambda: f"{toy.name} {order}: {got} vs {sorted(want)}")
    lce = build_lce(rng, lls, cut)
    nf = len(lce.cluster_site_indices)
    orb = L.orbits(coords, sp, cut)
    occs = [[int(rng.integers(q)) for q in counts] for _ in range(24)]
    occs += [[0] * n, [q - 1 for q in counts]]
    two = basis == "occupation" or max(counts) == 2

    def setp(keci, e0):
        lce.set_parameters({"keci": list(keci), "empty_cluster": e0, "orbit_fingerprints": lce.get_orbit_fingerprints(),
                            "local_environment_hash": lce.local_environment_hash})

    # response of every feature, observed
    feats = L.model_features(lce)
    cols = np.zeros((nf, len(occs)))
    probe = range(nf) if nf <= 60 else sorted(int(v) for v in rng.permutation(nf)[:60])
    for f in probe:
        setp([1.0 if k == f else 0.0 for k in range(nf)], 0.0)
        cols[f] = [evaluate(rng, lce, o, counts)[0] for o in occs]
    keyof = {tuple(sorted(c)): k for k, cs in orb.items() for c in cs}
    seen = {}
    for f, (clusters, deco) in enumerate(feats):
        keys = {keyof.get(tuple(sorted(c))) for c in clusters}
        whole = len(keys) == 1 and None not in keys and sorted(tuple(sorted(c)) for c in clusters) == sorted(orb[next(iter(keys))])
        ctx.check(whole, "orbit-partition", lambda: f"{toy.name}: feature {f} lists {clusters[:6]}, not one whole orbit")
        if whole:
            k = next(iter(keys))
            seen.setdefault(k, []).append(None if deco is None else deco)
            if f in probe:
                ref = [L.column(orb[k], o, basis, counts) for o in occs] if two else \
                    [sum(np.prod([L.phi(basis, counts[s], o[s], d[p]) for p, s in enumerate(c)]) for c, d in zip(clusters, deco)) for o in occs]
                ctx.check(np.allclose(cols[f], ref, rtol=1e-9, atol=1e-9), "correlation",
                          lambda: f"{toy.name} {basis}: feature {f} responds {cols[f][:4]} but its orbit sums to {ref[:4]}")
                ctx.count("columns_identified")
    ctx.check(set(seen) == set(orb), "orbits-missing", lambda: f"{toy.name} cutoffs {cut}: {len(seen)} orbits, expected {len(orb)}")
    for k, lst in seen.items():
        if two:
            ctx.check(len(lst) == 1, "orbit-repeated", f"{toy.name}: orbit {k} has {len(lst)} features")
        else:
            per = orb[k][0]
            expect = set(itertools.product(*[range(min(counts[c[p]] for c in orb[k]) - 1) for p in range(len(per))]))
            ctx.check(len(lst) == len(expect) and {d[0] for d in lst} == expect and all(len(set(d)) == 1 for d in lst),
                      "decorations", lambda: f"{toy.name}: {[d[0] for d in lst]} vs {sorted(expect)}")
    # values with random coefficients
    scale = 10 ** float(rng.uniform(-2, 3))
    keci = rng.normal(0, scale, nf)
    e0 = float(rng.normal(0, 300))
    setp([float(v) for v in keci], e0)
    autos = L.automorphisms(coords, sp) if two else []
    for o in occs:
        v, clean = evaluate(rng, lce, o, counts)
        ref = L.value(lce, o, basis, counts)
        bound = abs(e0) + float(np.abs(keci).sum()) * 60 + 1
        ctx.count("values")
        if not two:
            ctx.count("multistate_values")
        ctx.check(abs(v - ref) < 1e-11 * bound, "value", lambda: f"{toy.name} {basis} {o}: {v} vs {ref}")
        ctx.check(clean, "side-effect", "evaluation changed the occupations")
        for p in autos[1:4] + ([autos[int(rng.integers(len(autos)))]] if autos else []):
            o2 = [o[p[k]] for k in range(n)]
            v2, _ = evaluate(rng, lce, o2, counts)
            ctx.count("symmetric_pairs")
            ctx.check(abs(v2 - v) < 1e-9 * bound, "symmetry", lambda: f"{toy.name}: {o} and its image {o2} give {v} and {v2}")
    # environments of another size are refused
    for bad in (n + 1, n - 1):
        if bad >= 1:
            ctx.count("refusals")
            ctx.expect_raises(lambda: evaluate(rng, lce, [0] * bad, [2] * bad), (ValueError, IndexError), "length-accepted",
                              f"{n}-site expansion evaluated on {bad} sites")
    for k in (nf + 1, nf - 1):
        if k >= 1:
            ctx.count("refusals")
            ctx.expect_raises(lambda: setp([0.0] * k, 0.0), (ValueError,), "keci-length", f"{k} coefficients for {nf} features")
    setp([float(v) for v in keci], e0)
    # correlations read from a structure
    if all(v not in ("Va", "VA") for m in toy.site_mapping.values() if isinstance(m, list) for v in m):
        from_structure(ctx, rng, toy, st, act, lls, lce, counts, basis)
    ctx.sig(toy.name, n, len(orb), basis, order, len(autos))
    ctx.sample({"case": i, "crystal": toy.name, "sites": n, "features": nf, "basis": basis, "order": order, "automorphisms": len(autos)})


def from_structure(ctx, rng, toy, st, act, lls, lce, counts, basis):
    from pymatgen.core import Structure

    from ..toys import VACS

    for _ in range(3):
        species, coords, occ = [], [], {}
        for k, s in enumerate(st):
            m = toy.site_mapping[s.species_string]
            if k in act:
                o = int(rng.integers(len(m)))
                occ[k] = o
                if m[o] in VACS:
                    continue
                species.append(m[o])
            else:
                species.append(s.species_string)
            coords.append(s.frac_coords)
        if all(toy.site_mapping[st[k].species_string][o] in VACS for k, o in occ.items()):
            continue
        struct = Structure(st.lattice, species, coords)
        compact = [occ[k] for k in act]
        local = [compact[int(j)] for j in lls.site_indices]
        got = np.array(lce.get_corr_from_structure(struct), float)
        ref = []
        for clusters, deco in L.model_features(lce):
            ref.append(sum(np.prod([L.phi(basis, counts[s], local[s], 0 if deco is None else deco[c][p]) for p, s in enumerate(cl)])
                           for c, cl in enumerate(clusters)))
        ctx.count("structure_rows")
        ctx.check(got.shape == (len(ref),) and np.allclose(got, ref, atol=1e-9), "correlation-from-structure",
                  lambda: f"{toy.name} {basis}: {got[:5]} vs {ref[:5]}")


def three_state_pair(ctx, rng):
    """Two equivalent neighbours with three states: exchanging them must not change the value."""
    from kmcpy.event import Event
    from kmcpy.simulator.state import State

    toy = Toy("chain", (4.0, 12.0, 12.0), (90.0, 90.0, 90.0), [("Na1", "Na", (0.0, 0.0, 0.0))], {"Na": ["Na", "X", "K"]}, (4, 1, 1), 4.5)
    toy.write_cif("toy.cif")
    lce = build_lce(rng, local_structure(toy, center=0), [9.0, 9.0, 9.0])
    nf = len(lce.cluster_site_indices)
    lce.set_parameters({"keci": [10.0 * (k + 1) for k in range(nf)], "empty_cluster": 0.0})
    e = Event(mobile_ion_indices=(0, 1), local_env_indices=(1, 2))
    a = float(lce.compute(simulation_state=State([0, 0, 2]), event=e))
    b = float(lce.compute(simulation_state=State([0, 2, 0]), event=e))
    ctx.check(abs(a - b) < 1e-9, "symmetry-multistate", f"(Na, K) gives {a}, (K, Na) gives {b}")


NAMED = {"three_state_pair": three_state_pair}
