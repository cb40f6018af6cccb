"""P09: the event file against a brute-force enumeration of the crystal's hops."""
import math
from collections import Counter

import numpy as np

from .. import geom
from ..toys import VACS, Toy, active_order, gap_cutoff, generate_events, make_toy, narrow_toy, safe_shape, _far_enough

TECHNIQUE = "runtime monitoring: offline checker of the recorded event file against a brute-force image enumeration of the input crystal"
LEVEL = ("exploration", "Every event and every environment of each generated library is compared with an exhaustive enumeration of periodic images of the input coordinates; crystals, mappings, endpoint selections, cutoffs and supercells are sampled.")
CASES = {"quick": 350, "thorough": 6000}
RULE = "random crystal x site mapping x endpoint selection x cutoff form x supercell x input-cell form (as given, centred and reduced); distinct by (family, selection form, cutoff form, cell form, supercell, events)"
MIN = {"events_compared": 3000, "environments_compared": 800, "images_compared": 400, "narrow_supercells": 12, "neighbour_lists": 80}
ASSUMPTIONS = ["no distance lies within 0.001 A of the cutoff",
               "the supercell is wide enough that no two images of a site lie within the cutoff of one site"]


def read_events(path):
    from kmcpy.event import EventLib

    lib = EventLib.from_file(path)
    return [(tuple(int(v) for v in e.mobile_ion_indices), tuple(int(v) for v in e.local_env_indices)) for e in lib.events]


def check_library(ctx, events, pos, shape, prim, starts, targets, active, cutoff_of, m, tag):
    """events against enumeration. prim: list of (element, frac) of the primitive cell; active/starts/targets: primitive indices."""
    fr = [f for _, f in prim]
    expected = Counter()
    envs = {}
    index = {v: k for k, v in enumerate(pos)}
    if not ctx.check(None not in pos and len(index) == len(pos), "site-without-position",
                     lambda: f"{tag}: supercell sites do not correspond one to one to translated input sites"):
        return 0
    for i in starts:
        nb = [(j, im) for j, im, d in geom.neighbours(fr, m, i, lambda j: cutoff_of(i, j)) if j in active]
        for k, (p, cell) in enumerate(pos):
            if p != i:
                continue
            env = [index[(j, tuple(int(v) for v in np.mod(np.add(cell, im), shape)))] for j, im in nb]
            envs[k] = Counter(env)
            for (j, im), e in zip(nb, env):
                if j in targets:
                    expected[(k, e)] += 1
    got = Counter(e for e, _ in events)
    ctx.count("events_compared", sum(got.values()))
    missing, extra = expected - got, got - expected
    ctx.check(not missing, "missing-events", lambda: f"{tag}: {len(missing)} of {sum(expected.values())} hops missing, e.g. {list(missing.items())[:5]}")
    ctx.check(not extra, "extra-events", lambda: f"{tag}: {len(extra)} events are not hops (or listed twice), e.g. {list(extra.items())[:5]}")
    for (a, b), env in events:
        if a in envs:
            ctx.check(Counter(env) == envs[a], "wrong-environment",
                      lambda: f"{tag}: event {(a, b)} lists {sorted(env)}, sites within the cutoff are {sorted(envs[a].elements())}")
            ctx.count("environments_compared")
    # every image of a site has the same hops up to translation
    rel = {}
    for (a, b), _ in events:
        rel.setdefault(a, Counter())[(pos[b][0], tuple(int(v) for v in np.mod(np.subtract(pos[b][1], pos[a][1]), shape)))] += 1
    first = {}
    for k, (p, cell) in enumerate(pos):
        if p in starts:
            ctx.count("images_compared")
            first.setdefault(p, rel.get(k))
            ctx.check(rel.get(k) == first[p], "image-differs", lambda: f"{tag}: images of input site {p} have different hops")
    return sum(got.values())


def elements(sites):
    return [s.specie.symbol if hasattr(s.specie, "symbol") else str(s.specie) for s in sites]


def dress(ctx, toy, rng, anion):
    """Label schemes, mobile anions and several active frameworks: what a selection or a cutoff may stumble over."""
    m = geom.lattice(toy.abc, toy.angles)
    if not anion and rng.random() < 0.4:
        for el, allowed in [("Ge", ["Ge", "Sn"]), ("Ti", ["Zr", "Ti"]), ("Mg", ["Mg", "Ca", "X"]), ("S", ["S", "Se"])]:
            if rng.random() < 0.75:
                for _ in range(20):
                    f = tuple(float(v) for v in rng.random(3))
                    if _far_enough([q for _, _, q in toy.sites] + [f], m, 1.6):
                        toy.sites.insert(int(rng.integers(len(toy.sites) + 1)), (el + "1", el, f))
                        toy.site_mapping[el] = allowed
                        break
        if toy.mobile_species is None and toy.identifiers is None:
            toy.mobile_species = tuple(k for k in ("Na", "Li") if k in toy.site_mapping)
        ctx.count("many_species", len(toy.site_mapping) > 4)
    if rng.random() < 0.3:
        pool = [str(v) for v in rng.permutation(["Na1", "Na11", "Na", "Na1A", "Na110", "Na2", "Na21"])]
        names = {l: pool.pop() for l, e, _ in toy.sites if e == "Na"}
        re = lambda x: names.get(x, x) if isinstance(x, str) else type(x)(re(v) for v in x)
        toy.sites = [(names.get(l, l), e, f) for l, e, f in toy.sites]
        if toy.identifiers is not None:
            toy.identifiers = re(toy.identifiers)
        ctx.count("odd_labels")
    el = "Na"
    if anion:
        el = "F"
        other = {1: "K", 2: "Ca", 3: "Al"}.get(sum(e == "Na" for _, e, _ in toy.sites), "Ca")  # a neutral salt where possible
        sub = {"Na": "F", "O": other, "F": "Na"}
        re = lambda x: x if x is None else sub.get(x, x.replace("Na", "F") if x.startswith("Na") else x.replace("O", other) if x == "O1" else x) if isinstance(x, str) else type(x)(re(v) for v in x)
        toy.sites = [(re(l), re(e), f) for l, e, f in toy.sites]
        toy.site_mapping = {re(k): re(v) for k, v in toy.site_mapping.items()}
        toy.identifiers, toy.mobile_species = re(toy.identifiers), re(toy.mobile_species)
        toy.mobile = el
        ctx.count("mobile_anions")
    return el


def toy_case(ctx, rng):
    anion = rng.random() < 0.2
    toy = make_toy(rng, "tri", framework=0) if anion and rng.random() < 0.7 else make_toy(rng)
    EL = dress(ctx, toy, rng, anion)
    toy.write_cif("toy.cif")
    m = geom.lattice(toy.abc, toy.angles)
    prim = [(el, np.mod(f, 1.0)) for _, el, f in toy.sites]
    active = [k for k, (_, el, _) in enumerate(toy.sites) if isinstance(toy.site_mapping[el], list) and len(toy.site_mapping[el]) > 1]
    mob = set(toy.mobile_species or [k for k, v in toy.site_mapping.items() if isinstance(v, list) and any(x in ("X", "Vacancy") for x in v)])
    form = int(rng.integers(5))
    kw = {}
    if anion and rng.random() < 0.6:
        form, toy.identifiers = 1, None
    labels = [l for l, _, _ in toy.sites]
    els = [e for _, e, _ in toy.sites]
    mob_sites = [k for k in active if els[k] in mob]

    def ids(sel):
        toks = [sel] if isinstance(sel, str) else list(sel)
        return [k for k in active if labels[k] in toks]

    if form == 0 or toy.identifiers is not None:
        if toy.identifiers is None:
            starts = targets = mob_sites
            sel = "inferred"
        else:
            starts, targets = ids(toy.identifiers[0]), ids(toy.identifiers[1])
            sel = "toy-labels"
    elif form == 1:  # species tokens, neutral or charged
        from kmcpy.io.cif import load_labeled_structure_from_cif

        st = load_labeled_structure_from_cif(toy.cif)
        st.add_oxidation_state_by_guess()
        charged = next(s.species_string for s in st if s.specie.symbol == EL)
        toks = [charged if rng.random() < 0.5 else EL for _ in range(2)]
        ctx.count("charged_anion", charged.endswith("-") and charged in toks)
        toy.identifiers = tuple([t] if rng.random() < 0.3 else t for t in toks)
        starts = targets = [k for k in active if els[k] == EL]
        sel = "species" if toks == [EL, EL] else "charged-species"
    elif form == 2:  # a random subset of labels each way
        la = [labels[k] for k in mob_sites]
        a = [la[int(k)] for k in rng.permutation(len(la))[: int(rng.integers(1, len(la) + 1))]]
        b = [la[int(k)] for k in rng.permutation(len(la))[: int(rng.integers(1, len(la) + 1))]]
        toy.identifiers = (a if len(a) > 1 or rng.random() < 0.5 else a[0], tuple(b))
        starts, targets = ids(a), ids(b)
        sel = "label-lists"
    elif form == 3:  # framework target or all
        one = labels[mob_sites[int(rng.integers(len(mob_sites)))]]
        toy.identifiers = ([one], [labels[k] for k in active])
        starts, targets = ids(one), active
        sel = "any-target"
    else:
        starts = targets = mob_sites
        sel = "inferred"
    if sel not in ("inferred", "species", "charged-species"):
        toks = [t for v in toy.identifiers for t in ([v] if isinstance(v, str) else v)]
        if all(t in els for t in toks):
            ctx.count("skipped_label_is_species")  # a symbol alone selects the species
            return
        ctx.count("mixed_tokens", any(t in els for t in toks))
    from kmcpy.io.cif import load_labeled_structure_from_cif

    # per-pair cutoffs use the species strings of the oxidation-decorated cell
    st = load_labeled_structure_from_cif(toy.cif)
    st.add_oxidation_state_by_guess()
    sstr = {}
    for s in st:
        sstr[s.specie.symbol] = s.species_string
    pair = rng.random() < 0.45
    cut = {}
    if pair:
        aels = sorted({els[k] for k in active})
        for x in sorted({els[k] for k in starts}):
            for y in aels:
                a = [prim[k][1] for k in starts if els[k] == x]
                b = [prim[k][1] for k in active if els[k] == y]
                c = gap_cutoff(a, b, m, 2.2, toy.cutoff + 0.3, rng)
                if c is None or (cut.get((y, x)) is None and rng.random() < 0.1 and y != x):
                    continue
                cut[(x, y)] = cut.get((y, x), c)
        if rng.random() < 0.5:  # the documented key order must not matter
            cut = {((y, x) if (y, x) not in cut or x == y else (x, y)): v for (x, y), v in cut.items()}
        if not cut:
            pair = False
    if pair:
        kw["local_env_cutoff_dict"] = {(sstr[x], sstr[y]): v for (x, y), v in cut.items()}
        kw["local_env_cutoff"] = None

        def cutoff_of(i, j):
            x, y = els[i], els[j]
            return cut.get((x, y), cut.get((y, x), 0.0))
        # a symmetric pair cutoff chosen from one sublattice's shells may sit on the other's
        for i in starts:
            for j in active:
                _, d = _dist(prim[i][1], prim[j][1], m)
                if (np.abs(d - cutoff_of(i, j)) < 0.03).any():
                    ctx.count("skipped_ambiguous_cutoff")
                    return
        cmax = max(cut.values())
    else:
        def cutoff_of(i, j):
            return toy.cutoff
        cmax = toy.cutoff
        for i in starts:  # a cutoff picked for one sublattice may sit on another's shell
            for j in active:
                _, d = _dist(prim[i][1], prim[j][1], m)
                if (np.abs(d - cmax) < 0.01).any():
                    ctx.count("skipped_ambiguous_cutoff")
                    return
    if rng.random() < 0.4:  # close to a shell on either side
        for _ in range(10):
            i, j = (list(v)[int(rng.integers(len(v)))] for v in (starts, active))
            _, d = _dist(prim[i][1], prim[j][1], m)
            d = d[(d > 1.0) & (d < cmax + 0.3)]
            if len(d):
                c = float(rng.choice(d)) + float(rng.choice([-1, 1])) * float(rng.uniform(0.002, 0.02))
                if pair:
                    key = (els[i], els[j]) if (els[i], els[j]) in cut else (els[j], els[i])
                    if key not in cut:
                        continue
                    cut[key] = c
                    kw["local_env_cutoff_dict"] = {(sstr[x], sstr[y]): v for (x, y), v in cut.items()}
                    cmax = max(cut.values())
                else:
                    cmax = toy.cutoff = c
                ctx.count("narrow_cutoffs")
                break
        for i in starts:
            for j in active:
                _, d = _dist(prim[i][1], prim[j][1], m)
                if (np.abs(d - cutoff_of(i, j)) < 1e-3).any():
                    ctx.count("skipped_ambiguous_cutoff")
                    return
    toy.shape = safe_shape(m, cmax, rng, extra=int(rng.integers(0, 2)))
    if rng.random() < 0.15:
        toy.shape = tuple(int(v) for v in np.array(toy.shape) + rng.integers(0, 3, 3))
    if toy.name == "chain" and rng.random() < 0.4:
        toy.shape = (int(rng.integers(10, 15)),) + tuple(toy.shape[1:])
    if int(np.prod(toy.shape)) * len(active) > 160:
        toy.shape = safe_shape(m, cmax)
    starts, targets, active = set(starts), set(targets), set(active)
    fr = [f for _, f in prim]
    n_exp = sum(1 for i in starts for j, im, d in geom.neighbours(fr, m, i, lambda j: cutoff_of(i, j)) if j in targets)
    if len(starts) > 1 and any(_orders(Counter(els[j] for j, _, _ in geom.neighbours(fr, m, i, lambda j: cutoff_of(i, j)) if j in active)) > 6000 for i in starts):
        ctx.count("skipped_large_environment")  # inequivalent large environments: the nearest-order search is factorial
        return
    if n_exp == 0:
        ctx.count("nothing_to_generate")
        ctx.expect_raises(lambda: generate_events(toy, **kw), ValueError, "no-events-accepted", "no hop exists")
        return
    generate_events(toy, **kw)
    events = read_events("events.json")
    act = active_order(toy).active_structure()
    pos = geom.locate(act.frac_coords, toy.shape, [prim[k][1] for k in range(len(prim))], elements(act), els)
    n = check_library(ctx, events, pos, toy.shape, prim, starts, targets, active, cutoff_of, m, f"{toy.name} {sel} {'pair' if pair else 'scalar'} {toy.shape}")
    ctx.count("selection_" + sel)
    ctx.count("pair_cutoffs" if pair else "scalar_cutoff")
    ctx.sig(toy.name, sel, pair, toy.shape, n)
    ctx.sample({"crystal": toy.name, "selection": sel, "shape": toy.shape, "events": n})


def _orders(counts):
    return math.prod(math.factorial(v) for v in counts.values())


def _dist(a, b, m):
    im = geom.images(m, 7.0)
    return im, np.linalg.norm((np.asarray(b) - np.asarray(a) + im) @ m, axis=1)


def centred_case(ctx, rng):
    """A conventional centred cell reduced to its primitive cell on request: the hops must be those of the infinite crystal."""
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    cent = [[(0, 0, 0), (.5, .5, .5)], [(0, 0, 0), (.5, .5, 0)], [(0, 0, 0), (.5, .5, 0), (.5, 0, .5), (0, .5, .5)]][int(rng.integers(3))]
    for _ in range(60):
        abc = tuple(float(v) for v in rng.uniform(4.6, 6.4, 3))
        base = [("Na1", "Na", rng.random(3)), ("O1", "O", rng.random(3))]
        if rng.random() < 0.5:
            base.insert(int(rng.integers(3)), ("Na2", "Na", rng.random(3)))
        sites = [(l, e, tuple(float(v) for v in np.mod(np.add(f, c), 1.0))) for l, e, f in base for c in cent]
        toy = Toy("centred", abc, (90.0, 90.0, 90.0), sites, {"Na": ["Na", "X"], "O": "O"}, (1, 1, 1), 0.0)
        m = geom.lattice(abc, toy.angles)
        if not _far_enough([s[2] for s in sites], m, 1.6):
            continue
        na = [s[2] for s in sites if s[1] == "Na"]
        c = gap_cutoff(na, na, m, 2.4, 4.4, rng)
        if c is None:
            continue
        nb = [geom.neighbours(na, m, 0, lambda j: c)]
        if not nb[0]:
            continue
        toy.cutoff = c
        break
    else:
        ctx.count("centred_failed")
        return
    toy.write_cif("toy.cif")
    p = load_labeled_structure_from_cif(toy.cif, primitive=True)
    pm = np.array(p.lattice.matrix)
    toy.shape = safe_shape(pm, toy.cutoff)
    generate_events(toy, convert_to_primitive_cell=True)
    events = read_events("events.json")
    aso = ActiveSiteOrder.from_structure_and_mapping(p, toy.site_mapping, supercell_shape=toy.shape)
    act = aso.active_structure()
    prim = [(e, np.mod(s.frac_coords, 1.0)) for e, s in zip(elements(p), p)]
    # the reduced cell is itself checked against the input crystal: same density, same distances from every site
    ctx.check(abs(abs(np.linalg.det(pm)) * len(cent) - abs(np.linalg.det(m))) < 1e-4 * abs(np.linalg.det(m)),
              "reduced-volume", "reduced cell volume is not the conventional one over the centring")
    active = {k for k, (e, _) in enumerate(prim) if e == "Na"}
    ref = Counter(tuple(np.round(sorted(d for _, _, d in geom.neighbours(na, m, i, lambda j: toy.cutoff)), 3)) for i in range(len(na)))
    fr = [f for _, f in prim]
    got = Counter()
    for i in active:
        got[tuple(np.round(sorted(d for j, _, d in geom.neighbours(fr, pm, i, lambda j: toy.cutoff) if j in active), 3))] += len(cent)
    ctx.check({k for k in got} == {k for k in ref} or sum(got.values()) == sum(ref.values()), "reduced-shells", "reduced cell has other neighbour shells")
    pos = geom.locate(act.frac_coords, toy.shape, fr, elements(act), [e for e, _ in prim])
    n = check_library(ctx, events, pos, toy.shape, prim, active, active, active, lambda i, j: toy.cutoff, pm, f"centred x{len(cent)} {toy.shape}")
    ctx.check(n == sum(len(k) * v for k, v in ref.items()) // len(cent) * int(np.prod(toy.shape)), "reduced-count",
              lambda: f"{n} events for the reduced crystal, {sum(len(k) * v for k, v in ref.items())} per conventional cell of {len(cent)} lattice points, shape {toy.shape}")
    ctx.count("centred_cells")
    ctx.sig("centred", len(cent), toy.shape, n)


def narrow_case(ctx, rng):
    """Oblique supercells only just wide enough."""
    want = rng.random() < 0.5
    for _ in range(80):
        toy = narrow_toy(rng)
        m = geom.lattice(toy.abc, toy.angles)
        prim = [("Na", np.mod(f, 1.0)) for _, _, f in toy.sites]
        every = set(range(len(prim)))
        near = [im for i in every for _, im, _ in geom.neighbours([f for _, f in prim], m, i, lambda j: toy.cutoff)]
        far = sum(any(abs(v) >= max(2, s + 1) for v, s in zip(im, toy.shape)) for im in near)
        if far or not want:
            break
    toy.write_cif("toy.cif")
    if len(prim) > 1 and any(math.factorial(len(geom.neighbours([f for _, f in prim], m, i, lambda j: toy.cutoff))) > 6000 for i in every):
        ctx.count("skipped_large_environment")
        return
    generate_events(toy)
    act = active_order(toy).active_structure()
    pos = geom.locate(act.frac_coords, toy.shape, [f for _, f in prim], elements(act), ["Na"] * len(prim))
    n = check_library(ctx, read_events("events.json"), pos, toy.shape, prim, every, every, every, lambda i, j: toy.cutoff, m, f"narrow {toy.shape}")
    ctx.count("narrow_supercells")
    ctx.count("far_images", far)
    ctx.sig("narrow", toy.shape, n)


def case(ctx, rng, i):
    if i % 12 == 7:
        narrow_case(ctx, rng)
    elif i % 6 == 5:
        centred_case(ctx, rng)
    else:
        toy_case(ctx, rng)


def refusals(ctx, rng):
    toy = make_toy(rng, "layer")
    toy.write_cif("toy.cif")
    toy.identifiers = ("Na1", "Na2")
    toy.mobile_species = None
    m = toy.site_mapping
    if not any(v in ("X", "Vacancy") for v in m["Na"]):
        m["Na"] = ["Na", "X"]
    for kw, why in [({"site_mapping": None}, "no mapping"), ({"mobile_ion_identifiers": ("Na1",)}, "one identifier"),
                    ({"mobile_ion_identifiers": ("Na1", "Na9")}, "unknown target label"),
                    ({"mobile_ion_identifiers": ("Q1", "Na2")}, "unknown start label"),
                    ({"local_env_cutoff": 0.5}, "nothing within cutoff"),
                    ({"site_mapping": {**m, "Na": ["Na", "K"]}, "mobile_species": None}, "no vacancy anywhere"),
                    ({"mobile_species": ["Xe"], "mobile_ion_identifiers": None}, "absent mobile species"),
                    ({"supercell_shape": [0, 1, 1]}, "zero supercell")]:
        ctx.expect_raises(lambda: generate_events(toy, path="bad.json", **kw), Exception, "accepted:" + why, why)
        ctx.count("refusals")


def large(shape):
    """Many cells: two-digit cell indices, more sites than a byte can number."""
    def run(ctx, rng):
        from ..toys import Toy

        two = shape[0] * shape[1] * shape[2] < 150
        sites = [("Na1", "Na", (0.21, 0.32, 0.13))] + ([("Na2", "Na", (0.64, 0.79, 0.52))] if two else [])
        toy = Toy("large", (4.0, 4.3, 4.1), (90, 90, 90), sites, {"Na": ["Na", "X"]}, shape, 4.2 if not two else 3.6)
        toy.write_cif("toy.cif")
        m = geom.lattice(toy.abc, toy.angles)
        prim = [("Na", np.mod(f, 1.0)) for _, _, f in sites]
        every = set(range(len(prim)))
        generate_events(toy)
        act = active_order(toy).active_structure()
        pos = geom.locate(act.frac_coords, shape, [f for _, f in prim], elements(act), ["Na"] * len(prim))
        n = check_library(ctx, read_events("events.json"), pos, shape, prim, every, every, every, lambda i, j: toy.cutoff, m, f"large {shape}")
        ctx.count("large_supercells")
        ctx.sig("large", shape, n)
    return run


def neighbour_lists(ctx, rng):
    """The neighbour lists themselves, per pair of species, below a cutoff or within a range."""
    from kmcpy.structure.neighbors import (get_cutoff_neighbor_info, get_range_cutoff_neighbor_info,
                                           prepare_cutoff_neighbor_lookup, prepare_range_cutoff_neighbor_lookup)
    from pymatgen.core import Lattice, Structure

    for _ in range(40):
        kinds = ["Na", "K", "Si", "O"][: int(rng.integers(1, 5))]
        m = Lattice.from_parameters(*[float(v) for v in rng.uniform(2.5, 6, 3)], *[float(v) for v in rng.uniform(65, 115, 3)]).matrix
        frac, kind = [], []
        for _ in range(int(rng.integers(1, 7))):
            f = rng.random(3)
            frac.append(f)
            kind.append(kinds[int(rng.integers(len(kinds)))])
        st = Structure(Lattice(m), kind, frac)
        for k in range(len(kind)):
            st[k].properties.update({"label": f"{kind[k]}{k}", "local_index": k, "wyckoff_sequence": k})
        pairs, seen = {}, {}
        for a in range(len(kinds)):
            for b in range(a, len(kinds)):
                if rng.random() < 0.8:
                    x, y = (kinds[a], kinds[b]) if rng.random() < 0.5 else (kinds[b], kinds[a])
                    lo = float(rng.uniform(0, 4))
                    pairs[(x, y)] = (lo, lo + float(rng.uniform(0.2, 3)))
                    seen[frozenset((x, y))] = pairs[(x, y)]
        if not pairs:
            continue
        grid = np.array(np.meshgrid(*[np.arange(-5, 6)] * 3, indexing="ij")).reshape(3, -1).T
        ranged = rng.random() < 0.5
        look = prepare_range_cutoff_neighbor_lookup(pairs) if ranged else prepare_cutoff_neighbor_lookup({k: v[1] for k, v in pairs.items()})
        for n in range(len(kind)):
            exp, edge = {}, False
            for j in range(len(kind)):
                lim = seen.get(frozenset((kind[n], kind[j])))
                if lim is None:
                    continue
                lo, hi = lim if ranged else (0.0, lim[1])
                d = np.linalg.norm((np.array(frac[j]) - frac[n] + grid) @ m, axis=1)
                edge = edge or bool((np.abs(d - hi) < 1e-4).any() or (lo > 0 and (np.abs(d - lo) < 1e-4).any()) or ((d > 1e-9) & (d < 1e-3)).any())
                for k in np.nonzero((d > max(lo, 1e-6)) & (d < hi))[0]:
                    exp[(j, *(int(v) for v in grid[k]))] = float(d[k])
            if edge:
                ctx.count("skipped_edge")
                continue
            info = (get_range_cutoff_neighbor_info if ranged else get_cutoff_neighbor_info)(st, n, look)
            got = {(int(r["site_index"]), *(int(v) for v in r["image"])): float(r["weight"]) for r in info}
            ctx.count("neighbour_lists")
            ctx.count("neighbours_compared", len(exp))
            tag = f"site {n} ({kind[n]}) of {kind}, {'ranges' if ranged else 'cutoffs'} {pairs}"
            ctx.check(len(info) == len(got) and set(got) == set(exp), "neighbour-list", lambda: f"{tag}: listed {sorted(set(got) - set(exp))[:3]} beyond the cutoff, missing {sorted(set(exp) - set(got))[:3]}")
            ctx.check(all(abs(got[k] - exp[k]) < 1e-6 for k in got if k in exp), "neighbour-distance", tag)
            ctx.check(all(r["local_index"] == r["site_index"] and r["label"] == f"{kind[r['site_index']]}{r['site_index']}" for r in info), "neighbour-label", tag)
    ctx.sig("neighbour lists")


NAMED = {"refusals": refusals, "neighbours-a": neighbour_lists, "neighbours-b": neighbour_lists, "large-a": large((12, 11, 3)), "large-b": large((11, 2, 13)), "large-c": large((2, 3, 21)), "large-d": large((101, 2, 2))}
