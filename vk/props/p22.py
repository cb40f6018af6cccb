"""P22: enumerated local environments and NEB endpoints against brute-force enumeration."""
import itertools

import numpy as np

from ..geom import images
from .p18 import POOL, code, find, same_atoms, symbol, template

TECHNIQUE = "runtime monitoring: every enumeration result and endpoint pair of real calls is compared with an independent brute-force enumeration over positions, species lists and composition limits; metamorphic comparison with the models' own site order"
LEVEL = ("exploration", "Random templates (including cells so small that the environment wraps around), site lists, centres, cutoffs, species filters, composition limits, base structures and result limits; the full result set is compared with brute force, and each structure atom by atom with its occupation.")
CASES = {"quick": 500, "thorough": 9000}
RULE = "template x centre x cutoff x filters x counts x hop; distinct by (lists, local sites, filters, counts)"
MIN = {"enumerations": 500, "environments": 1000, "wrapped": 60, "counted": 150, "truncated": 60, "based": 150, "pairs": 900, "hop_refusals": 200, "multi_state_hops": 60, "eight_sites": 8}
ASSUMPTIONS = ["some site of the crystal cannot be vacant (a structure without any atom cannot be built)", "species named by element", "mobile sites list the mobile ion first, as the code requires"]


def local_multiset(frac, m, center, cutoff, exclude):
    """Site indices (with repeats for periodic images) within cutoff of a fractional centre; None if a boundary tie."""
    im = images(m, cutoff + 0.5)
    out = []
    for j, f in enumerate(np.asarray(frac, float)):
        d = np.linalg.norm((f - center + im) @ m, axis=1)
        if np.any(np.abs(d - cutoff) < 1e-4):
            return None
        for v in d[d < cutoff]:
            if exclude and v < 1e-3:
                continue
            out.append(j)
    return sorted(out)


def mobile_template(rng):
    """At least two hop sites with the mobile ion listed first."""
    from pymatgen.core import Structure

    for _ in range(200):
        t, mapping, lists = template(rng)
        els = [symbol(x.specie) for x in t]
        many = [e for e in set(els) if els.count(e) > 1]
        if not many or rng.random() < 0.25:
            return t, mapping, lists
        e = str(rng.choice(sorted(many)))
        r = rng.random()
        others = [x for x in POOL if x not in els]
        v = str(rng.choice(["X", "Va", "Vacancy"]))
        mapping[e] = [e, v] if r < 0.5 else ([e, others[0], v] if r < 0.75 else [e, v, others[0]])
        lists = [[symbol(x) for x in (mapping[k] if isinstance(mapping[k], list) else [mapping[k]])] for k in els]
        return t, mapping, lists
    raise RuntimeError


def want_atoms(t, lists, act, occ_states):
    """(symbol, position) the crystal must contain, fixed sites with their own species."""
    out = []
    st = dict(zip(act, occ_states))
    for k, x in enumerate(t):
        s = lists[k][st[k]] if k in st else symbol(x.specie)
        if s != "X":
            out.append((s, np.mod(x.frac_coords + 1e-9, 1.0)))
    return out


def case(ctx, rng, i):
    from pymatgen.core import Structure
    from kmcpy.structure import LatticeStructure, LocalLatticeStructure
    from kmcpy.structure.local_environment_enumerator import enumerate_local_environments

    while True:
        t, mapping, lists = mobile_template(rng)
        act = [k for k, a in enumerate(lists) if len(a) > 1]
        fixed_ok = all(len(a) > 1 or a == [symbol(t[k].specie)] for k, a in enumerate(lists))
        if act and fixed_ok:
            break
    big = rng.random() < 0.05
    if big:
        # many variable sites: a block of eight behind a fixed atom
        grid = [[x, y, z] for x in (0.0, 0.5) for y in (0.0, 0.5) for z in (0.0, 0.5)]
        t = Structure(np.diag([6.0, 6.4, 6.9]), ["Cl"] + ["Na"] * 8, [[0.25, 0.25, 0.25]] + grid)
        mapping = {"Cl": ["Cl"], "Na": ["Na", str(rng.choice(["X", "Va"]))]}
        lists = [["Cl"]] + [["Na", "X"]] * 8
        act = list(range(1, 9))
        ctx.count("eight_sites")
    elif rng.random() < 0.3:
        # small cells: the environment reaches periodic images
        t = Structure(t.lattice.matrix * 0.55, [x.specie for x in t], t.frac_coords)
    basis = "occupation" if max(map(len, lists)) == 2 and rng.random() < 0.3 else "chebyshev"
    ls = LatticeStructure(t.copy(), mapping, basis)
    m = np.array(t.lattice.matrix)
    apos = t.frac_coords[act]
    # active index order, from positions
    alist = [lists[k] for k in act]
    ids = [find(x.coords, m, t.frac_coords) for x in ls.get_active_lattice_structure().template_structure]
    if not ctx.check(ids == act, "active-order", f"{ids} {act}"):
        return
    if rng.random() < 0.75:
        center = int(rng.integers(len(act)))
        cfrac = apos[center]
    else:
        center = [float(v) for v in (rng.random(3) if rng.random() < 0.5 else apos[int(rng.integers(len(act)))])]
        cfrac = np.array(center)
    for _ in range(60):
        cutoff = float(rng.uniform(1.5, 5.5)) if not big else float(rng.uniform(3.5, 5.6))
        excl = [None, True, False][int(rng.integers(3))]
        order = [None, "kmcpy_default", "nasicon_nat_commun_2022"][int(rng.integers(3))] if excl is not None else "kmcpy_default"
        lm = local_multiset(apos, m, cfrac, cutoff, bool(excl))
        if lm is not None and len(lm) <= (27 if big else 14):
            break
    else:
        return
    kw = dict(center=center, cutoff=cutoff)
    if order:
        kw["local_site_order"] = order
    if excl is not None:
        kw["exclude_center_site"] = excl
    uniq = sorted(set(lm))
    if len(lm) > len(uniq):
        ctx.count("wrapped")
    opts = {}
    if rng.random() < 0.5:
        pool = sorted({s for a in alist for s in a})
        opts["variable_species"] = [str(x) for x in rng.choice(pool, int(rng.integers(1, len(pool) + 1)), replace=False)]
    vs = opts.get("variable_species")
    choice = lambda k: [s for s in alist[k] if vs is None or s in vs]
    if rng.random() < 0.35 and uniq:
        pick = sorted(int(v) for v in rng.choice(uniq, int(rng.integers(1, len(uniq) + 1)), replace=False))
        pick = [k for k in pick if choice(k)]
        if pick:
            opts["variable_site_indices"] = [int(v) for v in rng.permutation(pick)]
            var = sorted(pick)
        else:
            var = [k for k in uniq if len(choice(k)) > 1]
    else:
        var = [k for k in uniq if len(choice(k)) > 1]
    total = int(np.prod([len(choice(k)) for k in var])) if var else 1
    if total > 700:
        return
    base = None
    if rng.random() < 0.5:
        base = [int(rng.integers(len(a))) for a in alist]
        atoms = want_atoms(t, lists, act, base)
        if not atoms:
            base = None
        else:
            p = rng.permutation(len(atoms))
            opts["base_structure"] = Structure(t.lattice, [atoms[j][0] for j in p], [atoms[j][1] for j in p])
            ctx.count("based")
            if rng.random() < 0.5:  # relaxed a little, within the documented tolerance of 0.1
                b = opts["base_structure"]
                v = rng.normal(size=(len(b), 3))
                v *= rng.uniform(0.01, 0.07) / np.linalg.norm(v, axis=1)[:, None]
                opts["base_structure"] = Structure(b.lattice, b.species, b.cart_coords + v, coords_are_cartesian=True)
                ctx.count("relaxed_bases")
    combos = list(itertools.product(*[choice(k) for k in var]))
    if rng.random() < 0.45 and var:
        pick = combos[int(rng.integers(len(combos)))]
        counts = {s: pick.count(s) for s in set(pick)}
        if rng.random() < 0.4:  # a species allowed but absent
            for s in {s for k in var for s in choice(k)}:
                counts.setdefault(s, 0)
        opts["species_counts"] = counts
        combos = [c for c in combos if all(c.count(s) == v for s, v in counts.items())]
        ctx.count("counted")
        bad = dict(counts)
        bad[next(iter(bad))] += 1
        ctx.expect_raises(lambda: enumerate_local_environments(ls, **kw, **{**opts, "species_counts": bad}), ValueError, "impossible-counts", f"{bad} on {len(var)} sites")
    note = f"lists {alist} local {lm} var {var} options { {k: v for k, v in opts.items() if k != 'base_structure'} } base {base}"
    try:
        res = enumerate_local_environments(ls, **kw, **opts)
    except Exception as e:
        ctx.fail("refused", f"{type(e).__name__} {e}: {note}")
        return
    ctx.count("enumerations")
    ctx.count("environments", len(res))
    ctx.sig(sorted(map(tuple, alist)), lm, sorted(map(str, opts.get("variable_species", []))), sorted(opts.get("species_counts", {}).items()), var)
    ctx.sample({"lists": alist, "local": lm, "variable": var, "results": len(res)})
    decode = lambda occ: [next(s for s in range(len(alist[k])) if code(basis, s) == int(v)) for k, v in enumerate(occ)]
    got = []
    rest = None
    for r in res:
        try:
            st = decode(r.full_occupation.values)
        except StopIteration:
            ctx.fail("undefined-state", note)
            return
        got.append(tuple(alist[k][st[k]] for k in var))
        other = [s for k, s in enumerate(st) if k not in var]
        if base is not None:
            ctx.check(other == [s for k, s in enumerate(base) if k not in var], "background-changed", lambda: f"{note}: {st}")
        elif rest is not None:
            ctx.check(other == rest, "background-changed", lambda: f"{note}: {st}")
        rest = other
        ctx.check(sorted(r.local_site_indices) == lm, "local-sites", lambda: f"{note}: {r.local_site_indices}")
        ctx.check([int(v) for v in r.local_occupation.values] == [int(r.full_occupation.values[k]) for k in r.local_site_indices], "local-occupation", note)
        ctx.check(sorted(set(r.variable_site_indices)) == sorted(var), "variable-sites", lambda: f"{note}: {r.variable_site_indices}")
        ctx.check({int(k): symbol(v) for k, v in r.species_by_site.items()} == {k: alist[k][st[k]] for k in var}, "species-by-site", lambda: f"{note}: {r.species_by_site}")
        if not len(r.structure):
            ctx.count("emptied")
        ctx.check(same_atoms(r.structure, want_atoms(t, lists, act, st)), "structure-content", lambda: f"{note}: {r.structure}")
    ctx.check(len(set(got)) == len(got), "decoration-repeated", lambda: f"{note}: {len(got)} results, {len(set(got))} distinct")
    ctx.check(set(got) == set(combos), "decorations", lambda: f"{note}: {len(set(got))} of {len(set(combos))}; missing {sorted(set(combos) - set(got))[:3]} extra {sorted(set(got) - set(combos))[:3]}")
    labels = [r.label for r in res]
    ctx.check(len(set(labels)) == len(labels), "labels-repeated", note)
    # same order as the models' local environment
    try:
        loc = LocalLatticeStructure(t.copy(), center=[float(v) for v in cfrac], cutoff=cutoff, site_mapping=mapping, basis_type=basis, **{k: v for k, v in kw.items() if k in ("local_site_order", "exclude_center_site")})
    except Exception:
        loc = None
    if loc is not None and res:
        ctx.check(tuple(int(v) for v in loc.site_indices) == tuple(res[0].local_site_indices), "model-order", lambda: f"{note}: {tuple(loc.site_indices)} {res[0].local_site_indices}")
    if len(combos) > 1:
        k = int(rng.integers(1, len(combos)))
        cut = enumerate_local_environments(ls, **kw, **opts, max_results=k)
        ctx.count("truncated")
        names = [r.label for r in cut]
        ctx.check(len(names) == k and len(set(names)) == k and set(names) <= set(labels), "truncation", lambda: f"{note}: limit {k}: {names}")
    again = enumerate_local_environments(ls, **kw, **opts)
    ctx.check([r.label for r in again] == labels, "order-not-deterministic", note)
    if uniq != list(range(len(act))):
        out = next(k for k in range(len(act)) if k not in uniq)
        ctx.expect_raises(lambda: enumerate_local_environments(ls, **kw, variable_site_indices=[out]), ValueError, "outside-environment", note)
    if var and total <= 12 and base is None and len(t) <= 4 and "X" not in [s for k in var for s in choice(k)]:
        transformed(ctx, ls, kw, opts, alist, var, combos, decode, note, rng)
    hops(ctx, rng, ls, t, lists, act, alist, basis, res, decode, note, kw, opts)


def transformed(ctx, ls, kw, opts, alist, var, combos, decode, note, rng):
    from pymatgen.transformations.standard_transformations import OrderDisorderedStructureTransformation
    from kmcpy.structure.local_environment_enumerator import enumerate_local_environments

    try:
        res = enumerate_local_environments(ls, **kw, **opts, transformation=OrderDisorderedStructureTransformation(no_oxi_states=True), max_results=10)
    except Exception:
        return  # pymatgen may not be able to order this composition
    got = [tuple(alist[k][decode(r.full_occupation.values)[k]] for k in var) for r in res]
    ctx.count("transformed")
    ctx.check(set(got) <= set(combos), "transformed-decorations", lambda: f"{note}: {sorted(set(got) - set(combos))[:3]}")
    for r, g in zip(res, got):
        ctx.check({int(k): symbol(v) for k, v in r.species_by_site.items()} == dict(zip(var, g)), "transformed-species", note)


def hops(ctx, rng, ls, t, lists, act, alist, basis, res, decode, note, kw, opts):
    from kmcpy.structure.basis import Occupation
    from kmcpy.structure.local_environment_enumerator import enumerate_neb_endpoint_pairs, generate_neb_endpoint_pair

    n = len(act)
    if not res or n < 2:
        return
    good = [(a, b) for a in range(n) for b in range(n) if a != b and alist[a][0] != "X" and alist[a][0] == alist[b][0] and "X" in alist[a] and "X" in alist[b]]
    bad = [(a, b) for a in range(n) for b in range(n) if a != b and (a, b) not in good]
    env = res[int(rng.integers(len(res)))]
    for a, b in ([bad[int(rng.integers(len(bad)))]] if bad else []) + [(0, 0), (0, n), (-1, 0), (n + 3, 1)]:
        ctx.count("hop_refusals")
        ctx.expect_raises(lambda: generate_neb_endpoint_pair(ls, env, (a, b)), (ValueError, IndexError), "impossible-hop", f"{note}: hop {a}->{b} lists {alist}")
    if len(t) != n + 1:
        ctx.expect_raises(lambda: generate_neb_endpoint_pair(ls, [0] * (n + 1), (0, 1)), (ValueError, IndexError), "wrong-length", note)
    if not good:
        return
    a, b = good[int(rng.integers(len(good)))]
    items = [(env, decode(env.full_occupation.values), "enumeration")]
    st = [int(rng.integers(len(x))) for x in alist]
    items.append(([code(basis, s) for s in st], st, "list"))
    items.append((Occupation([code(basis, s) for s in st], basis=ls.basis, validate=False), st, "occupation"))
    full = [0] * len(t)
    for k, s in zip(act, st):
        full[k] = code(basis, s)
    if len(t) != n:
        items.append((full, st, "full list"))
        items.append((Occupation(list(full), basis=ls.basis, validate=False), st, "full occupation"))
    pairs = []
    for x, s, what in items:
        try:
            kept = lambda: [int(v) for v in (x.full_occupation.values if what == "enumeration" else x if isinstance(x, list) else x.values)]
            was = kept()
            pairs.append((generate_neb_endpoint_pair(ls, x, (a, b)), s, what))
            ctx.check(kept() == was, "input-changed", lambda: f"{what}: the hop {a}->{b} changed the environment given from {was} to {kept()}")
        except Exception as e:
            ctx.fail("hop-refused", f"{type(e).__name__} {e}: {what} {s} hop {a}->{b} lists {alist}")
    if rng.random() < 0.5:
        class Hop:
            mobile_ion_indices = (a, b)
        try:
            o2 = dict(kw, **opts)
            o2.pop("center")
            c = kw["center"]
            all_pairs = enumerate_neb_endpoint_pairs(ls, Hop, center=c, **o2)
            if ctx.check(len(all_pairs) == len(res), "pair-count", lambda: f"{note}: {len(all_pairs)} pairs for {len(res)} environments"):
                for p, r in zip(all_pairs, res):
                    ctx.check(p.metadata["local_environment_label"] == r.label, "pair-label", note)
                    pairs.append((p, decode(r.full_occupation.values), "enumerated pair"))
        except Exception as e:
            ctx.fail("pairs-refused", f"{type(e).__name__} {e}: {note} hop {a}->{b}")
        try:  # without a center the environment is the one around the hop's origin
            o3 = {k: v for k, v in dict(kw, **opts).items() if k not in ("center", "variable_site_indices")}
            by = [enumerate_neb_endpoint_pairs(ls, Hop, **q, **o3) for q in ({}, {"center": a})]
            ctx.check([p.metadata["local_site_indices"] for p in by[0]] == [p.metadata["local_site_indices"] for p in by[1]], "default-center", lambda: f"{note} hop {a}->{b}")
            ctx.count("default_centers")
        except ValueError:
            pass
    if len(alist[a]) > 2 or len(alist[b]) > 2:
        ctx.count("multi_state_hops")
    pa, pb = t.frac_coords[act[a]], t.frac_coords[act[b]]
    for p, s, what in pairs:
        ctx.count("pairs")
        w = f"{what} {s} hop {a}->{b} lists {alist} basis {basis}"
        ini, fin = list(s), list(s)
        ini[a], ini[b] = 0, alist[b].index("X")
        fin[a], fin[b] = alist[a].index("X"), 0
        ctx.check([int(v) for v in p.initial_occupation.values] == [code(basis, v) for v in ini], "initial-occupation", lambda: f"{w}: {p.initial_occupation.values}")
        ctx.check([int(v) for v in p.final_occupation.values] == [code(basis, v) for v in fin], "final-occupation", lambda: f"{w}: {p.final_occupation.values}")
        ctx.check(same_atoms(p.initial, want_atoms(t, lists, act, ini)), "initial-structure", lambda: f"{w}: {p.initial}")
        ctx.check(same_atoms(p.final, want_atoms(t, lists, act, fin)), "final-structure", lambda: f"{w}: {p.final}")
        ctx.check(tuple(p.mobile_ion_indices) == (a, b), "pair-indices", w)
        if len(p.initial) == len(p.final):
            moved = []
            for k, (x, y) in enumerate(zip(p.initial, p.final)):
                d = x.frac_coords - y.frac_coords
                if symbol(x.specie) != symbol(y.specie):
                    ctx.fail("atom-order", f"{w}: atom {k} is {x.specie} then {y.specie}")
                if np.abs(d - np.round(d)).max() > 1e-6:
                    moved.append(k)
            if ctx.check(len(moved) == 1, "atoms-moved", lambda: f"{w}: {len(moved)} atoms move"):
                d0 = p.initial[moved[0]].frac_coords - pa
                d1 = p.final[moved[0]].frac_coords - pb
                ctx.check(max(np.abs(d0 - np.round(d0)).max(), np.abs(d1 - np.round(d1)).max()) < 1e-6, "hop-path", w)
