"""P11: event libraries - dependencies, site lookup, save/load, refusals."""
import copy
import json

import numpy as np

from ..toys import active_order, allowed_lists, generate_events, make_config, make_toy, movable_occupations, random_barrier_payload

TECHNIQUE = "runtime monitoring: model-based checking of library histories (add, generate, clear, save, load) against a set-based reference recomputed after every operation"
LEVEL = ("exploration", "After every operation of random library histories the dependency lists, the site lookup, the events and the metadata are compared with a set-based reference; refusals are provoked with systematically corrupted libraries.")
CASES = {"quick": 260, "thorough": 5000}
RULE = "random event sets (sparse, dense, repeated sites, unsorted, large indices) and generated libraries x histories of additions, generation, clearing, saving and loading; distinct by (source, operations, events, sites)"
MIN = {"dependency_lists": 8000, "site_lookups": 4000, "saves": 110, "refusals": 400}
ASSUMPTIONS = ["files of HDF5 kind are out of scope (h5py is not installed)"]


class Ref:
    def __init__(self, events=()):
        self.events = [(tuple(int(v) for v in a), tuple(int(v) for v in b)) for a, b in events]

    def add(self, ev):
        self.events.append((tuple(int(v) for v in ev[0]), tuple(int(v) for v in ev[1])))

    def sites(self, k):
        return set(self.events[k][0]) | set(self.events[k][1])


def compare(ctx, lib, ref, n_sites, where, deps=True):
    ev = [(tuple(int(v) for v in e.mobile_ion_indices), tuple(int(v) for v in e.local_env_indices)) for e in lib.events]
    ctx.check(ev == ref.events, "events-changed", lambda: f"{where}: events differ from those added")
    ctx.check(len(lib) == len(ref.events), "length", where)
    if len(ev) != len(ref.events):
        return
    sites = [ref.sites(k) for k in range(len(ref.events))]
    if deps:
        touching = {}
        for k, s in enumerate(sites):
            for v in s:
                touching.setdefault(v, set()).add(k)
        for k in range(len(sites)):
            got = set(int(v) for v in lib.get_dependent_events(k))
            need = set().union(*[touching.get(v, set()) for v in ref.events[k][0]]) if ref.events[k][0] else set()
            may = set().union(*[touching[v] for v in sites[k]]) if sites[k] else set()
            ctx.check(need <= got, "missing-dependent", lambda: f"{where}: executing event {k} changes sites {ref.events[k][0]} but {sorted(need - got)[:8]} are not updated")
            ctx.check(got <= may, "foreign-dependent", lambda: f"{where}: event {k} lists {sorted(got - may)[:8]} with which it shares no site")
        ctx.count("dependency_lists", len(sites))
    for v in list(range(n_sites)):
        got = set(int(x) for x in lib.get_events_involving_site(v))
        want = {k for k, s in enumerate(sites) if v in s}
        ctx.check(got == want, "site-lookup", lambda: f"{where}: site {v} -> {sorted(got)}, events touching it: {sorted(want)}")
    ctx.count("site_lookups", n_sites)


def make_event(rng, n, hub):
    from kmcpy.event import Event

    k = int(rng.integers(0, min(n, 9)))
    pool = hub if rng.random() < 0.5 and len(hub) > 2 else list(range(n))
    a, b = (int(v) for v in rng.choice(pool if len(pool) > 1 else n, 2, replace=False))
    env = [int(v) for v in rng.permutation(n)[:k]]
    if rng.random() < 0.2 and env:
        env.append(env[0])
    if rng.random() < 0.4:
        env.append(b)
    return Event(mobile_ion_indices=(a, b), local_env_indices=tuple(env))


def history(ctx, rng):
    """A library grown, generated, cleared, saved and loaded in random order."""
    from kmcpy.event import EventLib

    toy = make_toy(rng)
    toy.write_cif("toy.cif")
    if rng.random() < 0.5:
        toy.shape = tuple(int(v) for v in np.maximum(toy.shape, rng.integers(1, 4, 3)))
    aso = active_order(toy)
    n = aso.active_site_count
    if n < 3:
        return
    hub = [int(v) for v in rng.permutation(n)[: max(2, n // 6)]]
    lib, ref = EventLib(), Ref()
    ops = []
    meta = False
    for step in range(int(rng.integers(4, 12))):
        op = ["add", "add", "add", "generate", "clear", "save", "dict", "query"][int(rng.integers(8))]
        if op == "add" or not ref.events:
            for _ in range(int(rng.integers(1, 14))):
                e = make_event(rng, n, hub)
                lib.add_event(e)
                ref.add((e.mobile_ion_indices, e.local_env_indices))
            op = "add"
        elif op == "generate":
            lib.generate_event_dependencies()
        elif op == "clear":
            lib.clear_event_dependencies()
        elif op == "query":
            lib.get_dependent_events(int(rng.integers(len(ref.events))))
        else:
            lib.set_index_metadata(aso)
            meta = True
            if op == "save":
                name = ["l.json", "sub.lib.json", "l.json.gz"][int(rng.integers(3))]
                lib.to(name)
                lib = EventLib.from_file(name)
                ctx.count("saves")
            else:
                lib = EventLib.from_dict(json.loads(json.dumps(lib.as_dict())))
            ctx.check(json.loads(json.dumps(lib.index_metadata)) == json.loads(json.dumps(aso.as_dict())), "metadata-changed", "site-order metadata differ after save and load")
            lib.validate_index_metadata(aso)
        ops.append(op)
        compare(ctx, lib, ref, n, f"after {'/'.join(ops)}", deps=rng.random() < 0.7)
    compare(ctx, lib, ref, n, f"after {'/'.join(ops)}")
    ctx.sig("history", ops, len(ref.events), n)
    ctx.sample({"operations": ops, "events": len(ref.events), "sites": n})


def refusal_case(ctx, rng):
    """Generated library: round trips hold; corruptions and foreign libraries are refused."""
    from kmcpy.event import Event, EventLib
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.simulator.kmc import KMC

    toy = make_toy(rng, max_sites=40)
    toy.write_cif("toy.cif")
    generate_events(toy)
    aso = active_order(toy)
    n = aso.active_site_count
    lib = EventLib.from_file("events.json")
    ref = Ref([(e.mobile_ion_indices, e.local_env_indices) for e in lib.events])
    compare(ctx, lib, ref, n, f"generated {toy.name}")
    lib.to("again.json")
    compare(ctx, EventLib.from_file("again.json"), ref, n, "saved again")
    ctx.check(json.load(open("again.json")) == json.load(open("events.json")), "resave-differs", "saving a loaded library changes the file")
    ctx.count("saves")
    raw = json.load(open("events.json"))

    def load(d, name="bad.json"):
        json.dump(d, open(name, "w"))
        return EventLib.from_file(name)

    bad = copy.deepcopy(raw); bad["index_metadata"] = None
    ctx.expect_raises(lambda: load(bad), ValueError, "no-metadata-accepted", "library without site-order metadata")
    bad = copy.deepcopy(raw); bad.pop("index_metadata")
    ctx.expect_raises(lambda: load(bad), ValueError, "no-metadata-accepted", "library without site-order metadata")
    ctx.expect_raises(lambda: load(raw["events"]), ValueError, "legacy-accepted", "bare list of events")
    for where in ("mobile_ion_indices", "local_env_indices"):
        for v in (n, n + int(rng.integers(1, 50)), -1, -int(rng.integers(2, n + 2))):
            bad = copy.deepcopy(raw)
            ks = [k for k, e in enumerate(bad["events"]) if e[where]]
            k = ks[int(rng.integers(len(ks)))]
            j = int(rng.integers(len(bad["events"][k][where])))
            bad["events"][k][where][j] = v
            ctx.expect_raises(lambda: load(bad), (IndexError, ValueError), "out-of-range-accepted", f"{where} index {v} of {n} sites in event {k}")
            l2 = EventLib()
            e = bad["events"][k]
            l2.add_event(Event(tuple(e["mobile_ion_indices"]), tuple(e["local_env_indices"])))
            ctx.expect_raises(lambda: l2.set_index_metadata(aso), (IndexError, ValueError), "out-of-range-accepted", f"set_index_metadata with {where} index {v}")
            ctx.count("refusals", 2)
    fresh = EventLib()
    fresh.add_event(lib.events[0])
    ctx.expect_raises(lambda: fresh.to("nometa.json"), ValueError, "saved-without-metadata", "saving without metadata")
    ctx.expect_raises(lambda: fresh.validate_index_metadata(aso), ValueError, "no-metadata-accepted", "validate without metadata")
    # an event appended to the file by hand: dependency lists no longer cover it
    bad = copy.deepcopy(raw)
    bad["events"].append(copy.deepcopy(bad["events"][0]))
    try:
        l3 = load(bad)
    except Exception:
        ctx.count("edited_refused")
    else:
        r3 = Ref([(e["mobile_ion_indices"], e["local_env_indices"]) for e in bad["events"]])
        for k in (0, len(r3.events) - 1):
            got = set(int(v) for v in l3.get_dependent_events(k))
            ctx.check({0, len(r3.events) - 1} <= got, "edited-library-stale", lambda: f"event {k} of a library extended in its file does not update its twin: {sorted(got)}")
    # foreign mapping, supercell or layout
    others = []
    st = load_labeled_structure_from_cif(toy.cif)
    m2 = copy.deepcopy(toy.site_mapping)
    m2["Na"] = list(reversed(m2["Na"]))
    others.append(("reversed species list", st, m2, toy.shape))
    m3 = copy.deepcopy(toy.site_mapping)
    m3["Na"] = m3["Na"] + ["Rb"]
    others.append(("longer species list", st, m3, toy.shape))
    if isinstance(toy.site_mapping.get("O"), str):
        m4 = copy.deepcopy(toy.site_mapping); m4["O"] = ["O", "S"]
        others.append(("another sublattice active", st, m4, toy.shape))
    if "Si" in toy.site_mapping:
        m5 = copy.deepcopy(toy.site_mapping); m5["Si"] = "Si"
        others.append(("a sublattice fixed", st, m5, toy.shape))
    s = list(toy.shape)
    others.append(("bigger supercell", st, toy.site_mapping, (s[0] + 1, s[1], s[2])))
    if s != s[::-1]:
        others.append(("permuted supercell", st, toy.site_mapping, tuple(s[::-1])))
    st2 = st.copy()
    st2.append("Na" if rng.random() < 0.5 else next(iter(toy.site_mapping)), rng.random(3), validate_proximity=False)
    others.append(("extra site", st2, toy.site_mapping, toy.shape))
    if len(set(x.specie.symbol for x in st)) > 1:
        st3 = st.copy()
        st3 = type(st).from_sites(list(reversed(list(st3))))
        if [x.specie.symbol for x in st3] != [x.specie.symbol for x in st]:
            others.append(("reordered sites", st3, toy.site_mapping, toy.shape))
    for why, struct, mp, shape in others:
        other = ActiveSiteOrder.from_structure_and_mapping(struct, mp, supercell_shape=shape)
        ctx.expect_raises(lambda: lib.validate_index_metadata(other), ValueError, "foreign-accepted:" + why, why)
        ctx.expect_raises(lambda: other.assert_same_order(aso), ValueError, "foreign-accepted:" + why, why)
        ctx.count("refusals", 2)
    lib.validate_index_metadata(aso)
    # the simulation itself refuses
    allowed = allowed_lists(aso)
    occ = movable_occupations(rng, allowed)
    json.dump(random_barrier_payload(rng, allowed), open("model.json", "w"))
    KMC.from_config(make_config(toy, occ, "model.json"))
    why, struct, mp, shape = [o for o in others if o[1] is st][int(rng.integers(len([o for o in others if o[1] is st])))]
    other = ActiveSiteOrder.from_structure_and_mapping(st, mp, supercell_shape=shape)
    al2 = allowed_lists(other)
    keep = toy.site_mapping, toy.shape
    toy.site_mapping, toy.shape = mp, shape
    occ2 = [0] * len(al2)
    ctx.expect_raises(lambda: KMC.from_config(make_config(toy, occ2, "model.json")), Exception, "simulation-accepts-foreign:" + why, f"simulation with {why}")
    toy.site_mapping, toy.shape = keep
    ctx.count("refusals")
    ctx.sig("refusals", toy.name, toy.shape, n, [o[0] for o in others])


def case(ctx, rng, i):
    if i % 3 == 2:
        refusal_case(ctx, rng)
    else:
        history(ctx, rng)


def numpy_indices(ctx, rng):
    """Indices may be numpy integers; lists and tuples alike."""
    from kmcpy.event import Event, EventLib

    toy = make_toy(rng, "cubic")
    toy.write_cif("toy.cif")
    aso = active_order(toy)
    lib, ref = EventLib(), Ref()
    for k in range(20):
        e = [np.array(rng.permutation(aso.active_site_count)[:2]), np.array(rng.permutation(aso.active_site_count)[:5])]
        lib.add_event(Event(tuple(e[0]), tuple(e[1])))
        ref.add(e)
    compare(ctx, lib, ref, aso.active_site_count, "numpy indices")
    lib.set_index_metadata(aso)
    lib.to("np.json")
    compare(ctx, EventLib.from_file("np.json"), ref, aso.active_site_count, "numpy indices saved")
    # metadata set anew replace those loaded
    toy.site_mapping = {k: list(reversed(v)) if isinstance(v, (list, tuple)) else v for k, v in toy.site_mapping.items()}
    other = active_order(toy)
    lib = EventLib.from_file("np.json")
    lib.set_index_metadata(other)
    plain = lambda d: json.loads(json.dumps(d))
    ctx.check(plain(lib.index_metadata) == plain(other.as_dict()) != plain(aso.as_dict()), "metadata-not-replaced", "set_index_metadata on a loaded library keeps the old site order")
    lib.validate_index_metadata(other)
    ctx.expect_raises(lambda: lib.validate_index_metadata(aso), Exception, "old-metadata-accepted", "the replaced site order still validates")


def large(ctx, rng):
    """More events, sites and dependents than a byte can number; grown, saved, loaded, grown again."""
    from kmcpy.event import Event, EventLib
    from ..toys import Toy

    toy = Toy("large", (4.0, 9.0, 9.0), (90, 90, 90), [("Na1", "Na", (0.21, 0.32, 0.13))], {"Na": ["Na", "X"]}, (420, 1, 1), 4.2)
    toy.write_cif("toy.cif")
    aso = active_order(toy)
    n = aso.active_site_count
    lib, ref = EventLib(), Ref()

    def grow(count, hub):
        for _ in range(count):
            a, b = (int(v) for v in rng.choice(n, 2, replace=False))
            env = [int(v) for v in rng.permutation(n)[: int(rng.integers(0, 4))]] + ([hub] if rng.random() < 0.75 else [])
            lib.add_event(Event(mobile_ion_indices=(a, b), local_env_indices=tuple(env)))
            ref.add(((a, b), env))

    grow(450, 311)
    lib.set_index_metadata(aso)
    compare(ctx, lib, ref, n, "large")
    lib.to("large.json")
    lib = EventLib.from_file("large.json")
    compare(ctx, lib, ref, n, "large, loaded")
    grow(120, 17)
    compare(ctx, lib, ref, n, "large, loaded and extended")
    ctx.count("large_libraries")
    ctx.sig("large", len(ref.events))


NAMED = {"numpy-indices": numpy_indices, "large": large}
