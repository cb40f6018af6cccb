"""P12: one site numbering everywhere."""
import json

import numpy as np

from .. import geom
from ..mon import Recorder
from ..toys import VACS, active_order, allowed_lists, build_run, generate_events, make_config, make_toy, movable_occupations, random_barrier_payload, spy_file
from .p09 import elements, read_events

TECHNIQUE = "runtime monitoring: every index produced by each component of one workflow is resolved to a crystal position independently and compared; state selection and refusals observed on live simulations"
LEVEL = ("exploration", "For each generated workflow every site index of structure, site order, events, lookup tables, occupation vector and live simulation is resolved to a position and species list computed from the input crystal, and all must agree; inputs of other sizes are provoked.")
CASES = {"quick": 140, "thorough": 2500}
RULE = "random crystal (fixed and active sublattices interleaved in the file) x mapping x supercell x occupation form (active, full, state file, checkpoint); distinct by (crystal, mapping, supercell, forms)"
MIN = {"indices_resolved": 1500, "occupation_forms": 250, "refusals": 600, "hops_located": 300, "foreign_states": 200}
ASSUMPTIONS = ["a structure that differs from the library's only in positions or lattice is not distinguishable from the stored metadata and is outside this property"]


def interleave(rng, toy):
    """Shuffle the file's site order so fixed and active sites are mixed; add fixed sites sometimes."""
    sites = list(toy.sites)
    m = geom.lattice(toy.abc, toy.angles)
    if rng.random() < 0.6:
        for el in ("Zr", "S")[: int(rng.integers(1, 3))]:
            for _ in range(20):
                f = rng.random(3)
                if all(np.linalg.norm((np.mod(f - np.array(s[2]) + .5, 1) - .5) @ m) > 1.2 for s in sites):
                    sites.append((f"{el}1", el, tuple(float(v) for v in f)))
                    toy.site_mapping[el] = el if rng.random() < 0.5 else [el]
                    break
    toy.sites = [sites[int(k)] for k in rng.permutation(len(sites))]
    return toy


def norm(a):
    return ["X" if v in VACS else v for v in a]


def expected_lists(toy):
    out = {}
    for k, (l, el, f) in enumerate(toy.sites):
        v = toy.site_mapping[el]
        out[k] = norm(v if isinstance(v, (list, tuple)) else [v])
    return out


def foreign_orders(rng, toy, st):
    """Site spaces that must not be taken for the toy's: another supercell, mapping or site layout."""
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    def make(structure=st, mapping=toy.site_mapping, shape=toy.shape):
        return lambda: ActiveSiteOrder.from_structure_and_mapping(structure, mapping, supercell_shape=shape)

    s = tuple(int(v) for v in toy.shape)
    out = [("larger supercell", make(shape=(s[0] + 1, s[1], s[2])))]
    for p in ((1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0)):
        if tuple(s[k] for k in p) != s:
            out.append(("supercell turned", make(shape=tuple(s[k] for k in p))))
            break
    if s[0] % 2 == 0 and s[1] * 2 != s[0]:
        out.append(("supercell of the same size", make(shape=(s[0] // 2, s[1] * 2, s[2]))))
    act = [k for k, v in toy.site_mapping.items() if isinstance(v, (list, tuple)) and len(v) > 1]
    k = act[int(rng.integers(len(act)))]
    v = list(toy.site_mapping[k])
    out.append(("species list reversed", make(mapping={**toy.site_mapping, k: v[::-1]})))
    out.append(("longer species list", make(mapping={**toy.site_mapping, k: v + ["Rb"]})))
    out.append(("other species", make(mapping={**toy.site_mapping, k: ["Rb" if x not in VACS and x == [y for y in v if y not in VACS][-1] else x for x in v]})))
    fixed = [k for k, v in toy.site_mapping.items() if not (isinstance(v, (list, tuple)) and len(v) > 1)]
    if fixed:
        f = fixed[int(rng.integers(len(fixed)))]
        out.append(("fixed sites made active", make(mapping={**toy.site_mapping, f: [f, "Rb"]})))
        out.append(("other fixed species", make(mapping={**toy.site_mapping, f: "Rb"})))
    if len(st) > 1 and len({x.specie for x in st}) > 1:
        rows = list(st)
        i = next(i for i in range(len(rows) - 1) if rows[i].specie != rows[i + 1].specie)
        rows[i], rows[i + 1] = rows[i + 1], rows[i]
        out.append(("rows exchanged", make(structure=type(st).from_sites(rows))))
    return out


def case(ctx, rng, i):
    from kmcpy.event import EventLib
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.simulator.kmc import KMC
    from kmcpy.simulator.state import State
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    from kmcpy.structure.lattice_structure import LatticeStructure

    toy = interleave(rng, make_toy(rng))
    toy.write_cif("toy.cif")
    generate_events(toy)
    aso = active_order(toy)
    lists = expected_lists(toy)
    els = [e for _, e, _ in toy.sites]
    prim = [np.mod(f, 1.0) for _, _, f in toy.sites]
    m = geom.lattice(toy.abc, toy.angles)
    N = int(np.prod(toy.shape))
    active = [k for k in lists if len(lists[k]) > 1]
    n = len(active) * N
    tag = f"{toy.name} {toy.shape}"

    ctx.check(aso.active_site_count == n, "active-count", lambda: f"{tag}: {aso.active_site_count} active sites, expected {n}")
    ctx.check(aso.original_site_count == N * len(els), "full-count", tag)
    act = aso.active_structure()
    pos = geom.locate(act.frac_coords, toy.shape, prim, elements(act), els)
    if not ctx.check(None not in pos and len(set(pos)) == n and {p for p, _ in pos} == set(active), "active-positions",
                     f"{tag}: active sites are not each active input site once per cell"):
        return
    ctx.count("indices_resolved", n)
    # allowed species per index
    for k, a in enumerate(allowed_lists(aso)):
        ctx.check(norm(a) == lists[pos[k][0]], "allowed-list", lambda: f"{tag}: index {k} is input site {toy.sites[pos[k][0]]} but lists {a}")
    # full structure <-> active numbering
    full = aso.full_structure_with_properties()
    fpos = geom.locate(full.frac_coords, toy.shape, prim, elements(full), els)
    ctx.check(None not in fpos and len(set(fpos)) == len(full), "full-positions", tag)
    ctx.check([fpos[o] for o in aso.active_to_original] == pos, "active-to-original", f"{tag}: active_to_original points to other positions")
    o2a = aso.original_to_active
    ctx.check(all(o2a.get(int(o)) == k for k, o in enumerate(aso.active_to_original)) and len(o2a) == n, "original-to-active", tag)
    ctx.check(sorted(list(aso.active_to_original) + list(aso.fixed_original_indices)) == list(range(len(full))), "partition", f"{tag}: active and fixed indices do not partition the supercell")
    st = load_labeled_structure_from_cif(toy.cif)
    spos = geom.locate(st.frac_coords, (1, 1, 1), prim, elements(st), els)
    ctx.check([spos[p][0] if spos[p] else None for p in aso.active_to_primitive] == [p for p, _ in pos], "active-to-primitive", f"{tag}: active_to_primitive names other sites")
    # the same order whatever way it is obtained
    dec = st.copy()
    dec.add_oxidation_state_by_guess()
    for other, why in [(ActiveSiteOrder.from_structure_and_mapping(dec, toy.site_mapping, supercell_shape=toy.shape), "oxidation-decorated structure"),
                       (ActiveSiteOrder.from_dict(json.loads(json.dumps(aso.as_dict()))), "saved metadata"),
                       (LatticeStructure(st, toy.site_mapping).get_active_site_order(toy.shape), "lattice structure"),
                       (ActiveSiteOrder.from_structure_and_mapping(st, dict(reversed(list(toy.site_mapping.items()))), supercell_shape=list(toy.shape)), "mapping listed in another order")]:
        same = (tuple(other.active_to_original) == tuple(aso.active_to_original) and tuple(other.active_to_primitive) == tuple(aso.active_to_primitive)
                and [norm(x) for x in allowed_lists(other)] == [norm(x) for x in allowed_lists(aso)])
        ctx.check(same, "order-differs:" + why, f"{tag}: {why}")
        try:
            aso.assert_same_order(other)
        except ValueError as e:
            ctx.fail("same-order-refused:" + why, f"{tag}: {why}: {e}")
    # events: every hop is short, every environment site is within the cutoff of the start
    shape = np.array(toy.shape)
    im = geom.images(m * shape[:, None], 1.0)
    for (a, b), env in read_events("events.json"):
        base = prim[pos[a][0]] + pos[a][1]
        for s in set(env) | {b}:
            d = prim[pos[s][0]] + pos[s][1] - base
            ctx.check(np.linalg.norm((d + im * shape) @ m, axis=1).min() < toy.cutoff, "event-index-geometry", lambda: f"{tag}: event {(a, b)} refers to site {s} beyond the cutoff")
    # occupation forms
    allowed = allowed_lists(aso)
    occ = movable_occupations(rng, allowed)
    fullocc = [0] * len(full)
    for o in aso.fixed_original_indices:
        fullocc[int(o)] = 0 if rng.random() < 0.5 else int(rng.integers(5))
    for k, o in enumerate(aso.active_to_original):
        fullocc[int(o)] = occ[k]
    payload = random_barrier_payload(rng, allowed)
    mfile = spy_file(payload)
    seed = int(rng.integers(1, 2**31))

    def start(values=None, file=None):
        kw = dict(random_seed=seed, kmc_passes=1)
        if file is not None:
            kw.update(initial_state_file=file, initial_occupations=None)
        return KMC.from_config(make_config(toy, values if values is not None else occ, mfile, **kw))

    json.dump({"occupation": fullocc}, open("init_full.json", "w"))
    json.dump({"occupation": occ}, open("init_active.json", "w"))
    State(occupations=list(occ), time=0.0, step=0).save_checkpoint("cp.json")
    # the same file read by naming the primitive sites to keep (active sites in file order, all cells of each)
    major = [o for p in active for o in range(p * N, (p + 1) * N)]
    if [int(o) for o in aso.active_to_original] == major:
        s = State.from_file("init_full.json", supercell_shape=toy.shape, select_sites=active)
        ctx.check([int(v) for v in s.occupations] == occ, "select-sites", lambda: f"{tag}: reading the full occupation with select_sites={active} gives another state")
        ctx.count("select_sites")
        if N > 1:
            json.dump({"occupation": fullocc[:-1]}, open("short.json", "w"))
            ctx.expect_raises(lambda: State.from_file("short.json", supercell_shape=toy.shape, select_sites=active), ValueError, "select-length-accepted", tag)
    sims = {"active": start(occ), "full": start(fullocc), "file-full": start(file="init_full.json"), "file-active": start(file="init_active.json"), "checkpoint": start(file="cp.json")}
    if rng.random() < 0.3:
        sims["numpy"] = start(np.array(fullocc))
    ref = None
    for name, k in sims.items():
        ctx.count("occupation_forms")
        got = [int(v) for v in k.simulation_state.occupations]
        ctx.check(got == occ, "state-differs:" + name, lambda: f"{tag}: given as {name}, site {next(j for j in range(len(occ)) if j >= len(got) or got[j] != occ[j])} differs")
        r = np.array(k.prob_list, float)
        ref = r if ref is None else ref
        ctx.check(r.shape == ref.shape and np.array_equal(r, ref), "rates-differ:" + name, f"{tag}: given as {name}")
        kp = geom.locate(k.structure.frac_coords, toy.shape, prim, elements(k.structure), els)
        ctx.check(kp == pos, "simulation-structure", f"{tag}: simulation's sites are numbered differently")
    # a live hop moves the ion between the positions its indices mean
    sim = sims["active"]
    if float(np.sum(sim.prob_list)) > 0:
        rec = Recorder(sim, store=False)
        try:
            tr = sim.run()
        except Exception as e:
            if "event" not in str(e).lower() and "rate" not in str(e).lower() and "prob" not in str(e).lower():
                raise
            ctx.count("locked")
        else:
            prev = occ
            total = np.zeros(3)
            for row in rec.rows:
                now = row[2]
                left = [j for j in range(n) if norm([allowed[j][prev[j]]])[0] == "Na" and norm([allowed[j][now[j]]])[0] != "Na"]
                came = [j for j in range(n) if norm([allowed[j][now[j]]])[0] == "Na" and norm([allowed[j][prev[j]]])[0] != "Na"]
                if len(left) == len(came) == 1:
                    d = (prim[pos[came[0]][0]] + pos[came[0]][1] - prim[pos[left[0]][0]] - pos[left[0]][1] + im * shape) @ m
                    total += d[np.linalg.norm(d, axis=1).argmin()]
                    ctx.count("hops_located")
                prev = now
            got = np.array(tr.displacement, float).sum(axis=0)
            # compare rotation-free: lengths and components along the input lattice vectors
            lat = np.array(sim.structure.lattice.matrix) / shape[:, None]
            ctx.check(np.allclose(np.linalg.solve(lat.T, got), np.linalg.solve(m.T, total), atol=1e-4), "hop-geometry",
                      lambda: f"{tag}: summed displacement {got} does not match the positions the indices mean {total}")
    # other lengths are refused
    for v, why in [(occ[:-1], "one short"), (occ + [0], "one long"), (fullocc + [0], "full plus one"), ([], "empty"),
                   (occ[: len(active)] if N > 1 else occ * 2, "primitive or double length"), (fullocc * 2, "twice the full length")]:
        if len(v) in (n, len(full)):
            continue
        ctx.expect_raises(lambda: start(v), Exception, "length-accepted:" + why, f"{tag}: {len(v)} values for {n} active / {len(full)} sites")
        json.dump({"occupation": v}, open("bad.json", "w"))
        ctx.expect_raises(lambda: start(file="bad.json"), Exception, "length-accepted:file " + why, f"{tag}: {len(v)} values in a state file")
        json.dump({"occupations": v, "time": 0.0, "step": 0}, open("bad.json", "w"))
        ctx.expect_raises(lambda: start(file="bad.json"), Exception, "length-accepted:checkpoint " + why, f"{tag}: {len(v)} values in a checkpoint")
        ctx.expect_raises(lambda: aso.select_active_values(v), ValueError, "length-accepted:select " + why, tag)
        ctx.count("refusals", 4)
    # values that are no state of their site are refused, in every form
    k = int(rng.integers(n))
    for bad, why in [(-1, "negative"), (len(allowed[k]), "one beyond"), (99, "far beyond"), (occ[k] + 0.5, "fraction")]:
        v = list(occ)
        v[k] = bad
        fv = list(fullocc)
        fv[int(aso.active_to_original[k])] = bad
        ctx.expect_raises(lambda: start(v), Exception, "state-accepted:" + why, f"{tag}: state {bad} on a site allowing {allowed[k]}")
        ctx.expect_raises(lambda: start(fv), Exception, "state-accepted:full " + why, f"{tag}: state {bad} on a site allowing {allowed[k]}")
        json.dump({"occupation": v}, open("bad.json", "w"))
        ctx.expect_raises(lambda: start(file="bad.json"), Exception, "state-accepted:file " + why, f"{tag}: state {bad} on a site allowing {allowed[k]}")
        json.dump({"occupations": v, "time": 0.0, "step": 0}, open("bad.json", "w"))
        ctx.expect_raises(lambda: start(file="bad.json"), Exception, "state-accepted:checkpoint " + why, f"{tag}: state {bad} on a site allowing {allowed[k]}")
        ctx.count("foreign_states", 4)
    for bad in (-1, n, n + 5):
        ctx.expect_raises(lambda: aso.validate_active_indices([0, bad]), (IndexError, ValueError), "index-accepted", f"{tag}: {bad}")
        ctx.count("refusals")
    # filtering structures down to active sites, whatever the number of atoms given
    fil = aso.filter_active_structure(full)
    ctx.check(geom.locate(fil.frac_coords, toy.shape, prim, elements(fil), els) == pos, "filter-full", tag)
    keep = sorted(int(v) for v in rng.permutation(len(full))[: max(1, len(full) - int(rng.integers(1, 4)))])
    if len(keep) not in (n, len(full)):
        order = [keep[int(k)] for k in rng.permutation(len(keep))]
        part = type(full).from_sites([full[o] for o in order])
        if any(o in o2a for o in order):
            fil = aso.filter_active_structure(part)
            idx = [int(v) for v in fil.site_properties["_kmcpy_active_site_index"]]
            want = sorted(o2a[o] for o in order if o in o2a)
            ctx.check(idx == want and geom.locate(fil.frac_coords, toy.shape, prim, elements(fil), els) == [pos[k] for k in want], "filter-partial", f"{tag}: filtered structure carries other indices")
            ctx.count("filtered")
    # structures that do not belong to the template
    if len(full) > 3:
        k = int(rng.integers(len(full)))
        drop = [o for o in range(len(full)) if o != (k + 1) % len(full)]
        if len(drop) not in (n, len(full)):
            v = rng.normal(size=3)
            v *= float(rng.uniform(0.05, 0.35)) / np.linalg.norm(v)
            moved = type(full).from_sites([full[o] for o in drop])
            moved.translate_sites([drop.index(k)], v, frac_coords=False)
            ctx.expect_raises(lambda: aso.filter_active_structure(moved), ValueError, "displaced-accepted", f"{tag}: an atom {np.linalg.norm(v):.2f} A off any site")
            ctx.count("refusals")
        twice = [full[o] for o in drop[:-1]] + [full[int(aso.active_to_original[0])]] * 2
        if len(twice) not in (n, len(full)):
            ctx.expect_raises(lambda: aso.filter_active_structure(type(full).from_sites(twice)), ValueError, "doubled-accepted", f"{tag}: two atoms on one site")
            ctx.count("refusals")
    # orders of another site space
    others = foreign_orders(rng, toy, st)
    for why, other in others:
        other = other()
        for form, o in (("object", other), ("metadata", json.loads(json.dumps(other.as_dict())))):
            ctx.expect_raises(lambda: aso.assert_same_order(o), ValueError, "foreign-order:" + why, f"{tag}: {why} as {form}")
            ctx.count("foreign_orders")
    a, b, c = (int(v) for v in toy.shape)
    for bad in ((0, b, c), (a, -b, c), (a, b), (a, b, c, 1), (), (a, b, -1)):
        ctx.expect_raises(lambda: ActiveSiteOrder.from_structure_and_mapping(st, toy.site_mapping, supercell_shape=bad), Exception, "shape-accepted", f"{tag}: {bad}")
        ctx.count("refusals")
    ctx.sig(toy.name, toy.shape, [len(lists[k]) for k in range(len(els))])
    ctx.sample({"crystal": tag, "active": n, "full": len(full)})


NAMED = {}
