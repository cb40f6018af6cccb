"""P17: external site energies against the full lattice energy of the simulated configuration."""
import copy
import itertools
import json
import math

from .. import engines
from .. import lceoracle as L
from ..models import composite_payload, lce_toy
from ..toys import KB, Toy, VACS, build_run
from .p13 import direction

TECHNIQUE = "runtime monitoring: recording engines behind the documented external-energy interface; every call and every live rate of real runs checked against the full energy of the simulated configuration"
LEVEL = ("exploration", "Engines of the documented styles (mirrored occupation, live engine with commits, all keywords) log each call; the log is checked against the event trace (mirror content, changed sites, old and new values, exactly one commit per accepted event) and each rate of the live vector against E(after) - E(before) of the whole lattice. Couplings are limited to sites within an event's own neighbourhood except in the named long-range finding.")
CASES = {"quick": 130, "thorough": 1500}
RULE = "crystal x engine style x site/state mapping kind x trajectory; distinct by (crystal, style, mapping kind, value kind)"
MIN = {"rates": 8000, "available": 1500, "compute_calls": 3000, "apply_calls": 300, "accepted": 500, "refusals": 150, "coupled": 10}
ASSUMPTIONS = ["the energy's couplings reach no further than the sites listed in an event's environment (see the known finding for longer ones)",
               "an engine with its own configuration starts from the configuration the simulation starts from"]


def plan(rng, allowed, occ=None):
    """External numbering, values and spectators; everything JSON-safe."""
    n = len(allowed)
    size = n + int(rng.integers(0, 5))
    perm = [int(v) for v in rng.permutation(size)[:n]]
    kind = ["identity", "permuted", "permuted"][int(rng.integers(3))]
    if kind == "identity":
        perm, size = list(range(n)), n
    smax = max(len(a) for a in allowed)
    vals = ["codes", "numbers", "names", "by_site", "mixed"][int(rng.integers(5))]
    if vals == "codes":
        value = lambda i, s: s
        kw = {}
    elif vals == "numbers":
        off = [int(v) for v in rng.permutation(7)[:smax]]
        if rng.random() < 0.4:
            off = [v + 0.5 * int(rng.integers(2)) for v in off]
        value = lambda i, s: off[s]
        kw = {"state_mapping": off if rng.random() < 0.5 else {str(s): v for s, v in enumerate(off)}}
    elif vals == "names":
        names = [["Li", "X", "Mg", "Ca"][int(k)] for k in rng.permutation(4)][:smax]
        value = lambda i, s: names[s]
        kw = {"state_mapping": {str(s): v for s, v in enumerate(names)}}
    elif vals == "by_site":
        table = [[int(v) for v in rng.permutation(9)[: len(a)]] for a in allowed]
        m = int(rng.integers(3 if occ is None else 4))
        if m == 3:   # what the run starts with is whole (or short), what it reaches later is not
            add = (lambda v: v + 0.5) if rng.random() < 0.5 else (lambda v: f"longer{v}")
            table = [[(v if not isinstance(add(0), str) else f"s{v}") if s == o else add(v) for s, v in enumerate(t)] for t, o in zip(table, occ)]
        elif m == 1:   # whole numbers on some sites, halves on others
            table = [[v + 0.5 * int(rng.random() < 0.3) for v in t] for t in table]
        elif m == 2:   # names of all lengths
            table = [["Na+Mg2+ Ca"[: 1 + v] + str(v) for v in t] for t in table]
        value = lambda i, s: table[i][s]
        kw = {"state_mapping_by_site": {str(i): {str(s): v for s, v in enumerate(t)} for i, t in enumerate(table)}}
    else:
        base = [int(v) for v in rng.permutation(6)[:smax]]
        table = {i: [int(v) for v in rng.permutation(9)[: len(a)]] for i, a in enumerate(allowed) if rng.random() < 0.5}
        value = lambda i, s: table[i][s] if i in table else base[s]
        kw = {"state_mapping": base, "state_mapping_by_site": {str(i): {str(s): v for s, v in enumerate(t)} for i, t in table.items()}}
    spect = None
    if kind != "identity":
        kw["site_mapping"] = perm if rng.random() < 0.4 else {str(i): v for i, v in enumerate(perm)}
        pad = "Zz" if isinstance(value(0, 0), str) else 8
        m = int(rng.integers(3))
        if m == 0:
            kw["external_size"] = size
            kw["external_fill_value"] = pad
        elif m == 1:
            spect = [pad] * size
            kw["initial_occupation"] = list(spect)
        else:
            size = max(perm) + 1
            kw["external_fill_value"] = pad
        spect = [pad] * size
    else:
        spect = [None] * n
    return perm, size, value, spect, kw, kind, vals


def couplings(rng, events, n):
    """Site pairs whose interaction only events that list both sites can feel."""
    at = {}
    for mob, env in events:
        for s in mob:
            at.setdefault(s, []).append(set(mob) | set(env))
    ok = []
    for a, b in itertools.combinations(range(n), 2):
        if all(b in x for x in at.get(a, [])) and all(a in x for x in at.get(b, [])) and (a in at or b in at):
            ok.append((a, b))
    return [ok[int(k)] for k in rng.permutation(len(ok))[:40]]


def site_payload(rng, allowed, occ, events, key, style, far=None):
    from kmcpy.models import SiteEnergyModel

    perm, size, value, spect, kw, kind, vals = plan(rng, allowed, occ)
    unit = ["eV", "meV", "ev", "mev"][int(rng.integers(4))]
    f = 1.0 if unit.lower() == "mev" else 1e-3
    h = {perm[i]: {engines.name(value(i, s)): float(rng.normal(0, 60)) * f for s in range(len(a))} for i, a in enumerate(allowed)}
    J = []
    for a, b in (couplings(rng, events, len(allowed)) if far is None else far):
        m = {f"{engines.name(value(a, s))}|{engines.name(value(b, t))}": float(rng.normal(0, 30)) * f for s in range(len(allowed[a])) for t in range(len(allowed[b]))}
        J.append((perm[a], perm[b], m))
    ext = list(spect)
    for i, s in enumerate(occ):
        ext[perm[i]] = value(i, s)
    c, a = engines.STYLES[style]
    args = dict(compute_ref=c, apply_ref=a, runtime_ref="vk.engines:make", runtime_kwargs={"key": key, "h": h, "J": J, "occ": ext},
                units=unit, **kw)
    if style == "live" and rng.random() < 0.4:
        args["compute_kwargs"] = {"scale": 1.0}
    if style == "live_all" and rng.random() < 0.4:
        args["apply_kwargs"] = {"tag": "q"}
    return SiteEnergyModel(**args), perm, value, spect, f, h, J, kind, vals


def energy(occ, perm, value, h, J, f):
    e = sum(h[perm[i]][engines.name(value(i, s))] for i, s in enumerate(occ))
    back = {p: i for i, p in enumerate(perm)}
    for a, b, m in J:
        e += m[f"{engines.name(value(back[a], occ[back[a]]))}|{engines.name(value(back[b], occ[back[b]]))}"]
    return e / f


def after(allowed, occ, ev, mobile):
    """Occupations after the hop, through species names."""
    i, j = (int(v) for v in ev.mobile_ion_indices)
    out = list(occ)
    a, b = allowed[i][occ[i]], allowed[j][occ[j]]
    vac = lambda lst: next(k for k, v in enumerate(lst) if v in VACS)
    out[i] = vac(allowed[i]) if b in VACS else allowed[i].index(b)
    out[j] = vac(allowed[j]) if a in VACS else allowed[j].index(a)
    return out


def drive(ctx, rng, toy, style, key, far=None, occ=None, tag="", passes=1):
    box = {}

    def payload(rng, toy, aso, allowed):
        from kmcpy.models import CompositeLCEModel

        p = composite_payload(rng, toy, aso, allowed, site=False)
        m = CompositeLCEModel.from_dict(json.loads(json.dumps(p, default=lambda o: o.tolist())))
        lib = json.load(open("events.json"))["events"]
        events = [(tuple(e["mobile_ion_indices"]), tuple(e["local_env_indices"])) for e in lib]
        site, *rest = site_payload(rng, allowed, box["occ"], events, key, style, far=far(events, len(allowed)) if far else None)
        box["rest"] = rest
        return CompositeLCEModel(site_model=site, kra_model=m.kra_model).as_dict()

    # the engine needs the starting configuration: fix it first
    from ..toys import active_order, allowed_lists, generate_events, movable_occupations

    toy.write_cif("toy.cif")
    generate_events(toy)
    allowed = allowed_lists(active_order(toy))
    box["occ"] = occ or movable_occupations(rng, allowed, toy.mobile)
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, model_payload=payload, occ=box["occ"], spy=True, kmc_passes=passes,
                                                    equilibration_passes=int(rng.integers(0, 2)))
    perm, value, spect, f, h, J, kind, vals = box["rest"]
    T, nu = config.runtime_config.temperature, config.runtime_config.attempt_frequency
    comp, spy = kmc.model.inner, kmc.model
    eng = engines.BOX[key]
    events = kmc.event_lib.events

    def mirror(occ):
        ext = list(spect)
        for i, s in enumerate(occ):
            ext[perm[i]] = value(i, s)
        return ext

    def look(occ, rates, where):
        e0 = energy(occ, perm, value, h, J, f)
        for k, ev in enumerate(events):
            d = direction(allowed, occ, ev, toy.mobile)
            ctx.count("rates")
            if not d:
                ctx.check(rates[k] == 0, "blocked", lambda: f"{where}: blocked event {k} has rate {rates[k]}")
                continue
            ctx.count("available")
            env = [int(v) for v in ev.local_env_indices]
            kra = L.value(comp.kra_model, [occ[s] for s in env], "chebyshev", [len(allowed[s]) for s in env])
            dE = energy(after(allowed, occ, ev, toy.mobile), perm, value, h, J, f) - e0
            law = nu * math.exp(-(kra + dE / 2) / (KB * T))
            ctx.check(abs(rates[k] - law) <= 1e-7 * law, "rate",
                      lambda: f"{tag}{toy.name} {style} {kind} {vals} {where}: event {ev.mobile_ion_indices} rate {rates[k]}, the energy difference {dE} meV gives {law}")

    look(occ, list(kmc.prob_list), "start")
    rows = []
    kmc.attach(lambda s, step, t: rows.append((step, [int(v) for v in s.occupations], [float(v) for v in kmc.prob_list])) if len(rows) < 10 else None, interval=1, name="vk", store=False)
    n0 = len(eng.computes)
    ctx.count("compute_calls", n0)
    for ext, changes, *_ in eng.computes:
        ctx.check(ext is None or ext == mirror(occ), "mirror-start", lambda: f"{tag}engine was given {ext} for {occ}")
    marks = []
    spy.on_apply = lambda ev, st: marks.append((len(eng.computes), len(eng.applies)))
    kmc.run()
    for step, o, p in rows:
        look(o, p, f"step {step}")
    # the log against the event trace
    prev = list(occ)
    c0, a0 = n0, 0
    for (ev, step, t, o), (c1, a1) in zip(spy.log, marks):
        ctx.count("accepted")
        for ext, changes, *_ in eng.computes[c0:c1]:
            ctx.check(ext is None or ext == mirror(prev), "mirror", lambda: f"{tag}{style} {kind} {vals}: engine was given {ext} while the configuration is {mirror(prev)}")
        for ext, changes, _, pre in eng.computes[c0:c1]:
            for s, x, os_, ns, ov, nv in changes:
                ctx.check(x == perm[s] and os_ == prev[s] and ov == value(s, prev[s]) and nv == value(s, ns), "proposed-change", lambda: f"{tag}{style}: change {(s, x, os_, ns, ov, nv)} for {prev}")
        i, j = (int(v) for v in ev.mobile_ion_indices)
        want = [(s, perm[s], prev[s], o[s], value(s, prev[s]), value(s, o[s])) for s in (i, j) if value(s, prev[s]) != value(s, o[s])]
        if engines.STYLES[style][1]:
            ctx.count("apply_calls", a1 - a0)
            ctx.check(a1 - a0 == (1 if want else 0), "commit-count", lambda: f"{tag}{style}: {a1 - a0} commits for one accepted event")
            for ext, changes, *_ in eng.applies[a0:a1]:
                ctx.check(sorted(changes) == sorted(want), "commit-change", lambda: f"{tag}{style} {kind} {vals}: committed {changes}, the event changed {want}")
                ctx.check(ext == mirror(prev), "commit-mirror", lambda: f"{tag}{style}: commit saw {ext}, before the event it was {mirror(prev)}")
        ctx.count("compute_calls", c1 - c0)
        prev, c0, a0 = list(o), c1, a1
    for ext, changes, *_ in eng.computes[c0:]:
        ctx.check(ext is None or ext == mirror(prev), "mirror-last", f"{tag}{style}: engine out of step after the last event")
    if style.startswith("live"):
        ctx.check(eng.occ == mirror(prev), "engine-state", lambda: f"{tag}engine ends at {eng.occ}, simulation at {mirror(prev)}")
    if J:
        ctx.count("coupled")
    # evaluation leaves no trace
    st = kmc.simulation_state
    before = (list(st.occupations), st.time, st.step, list(eng.occ), len(eng.applies))
    probe = [float(comp.compute_probability(event=ev, runtime_config=config.runtime_config, simulation_state=st)) for ev in events]
    again = [float(comp.compute_probability(event=ev, runtime_config=config.runtime_config, simulation_state=st)) for ev in events]
    ctx.check(probe == again and before == (list(st.occupations), st.time, st.step, list(eng.occ), len(eng.applies)), "trace-left", f"{tag}{style}: evaluating rates changed something")
    if not style.startswith("live") and far is None:  # resumed: the mirror starts from the checkpoint, not from the first configuration
        from kmcpy.simulator.kmc import KMC

        st.save_checkpoint("mid.json")
        k2 = KMC.from_config(config.with_system_changes(initial_occupations=None, initial_state_file="mid.json"))
        e2 = engines.BOX.get(key)
        look([int(v) for v in st.occupations], [float(v) for v in k2.prob_list], "resumed")
        if e2 is not eng and e2 is not None:
            for ext, *_ in e2.computes:
                ctx.check(ext is None or ext == mirror(st.occupations), "mirror-resumed", lambda: f"{tag}{style}: a resumed run gives the engine {ext} for {mirror(st.occupations)}")
        engines.BOX[key] = eng
        ctx.count("resumed_engines")
    ctx.sig(toy.name, style, kind, vals, bool(J))
    ctx.sample({"crystal": toy.name, "style": style, "mapping": kind, "values": vals, "accepted": len(spy.log), "calls": len(eng.computes), "commits": len(eng.applies), "couplings": len(J)})
    return kmc, eng, spy


def faults(ctx, rng, i):
    """Bad mappings, bad engines and a dying engine are reported, not papered over."""
    from kmcpy.event import Event, EventLib
    from kmcpy.models import SiteEnergyModel
    from kmcpy.simulator.state import State

    n = int(rng.integers(3, 8))
    occ = [int(rng.integers(2)) for _ in range(n)]
    occ[0], occ[1] = 0, 1
    st = State(list(occ))
    ev = Event((0, 1), tuple(range(2, n)))
    lib = EventLib()
    lib.add_event(ev)
    c = "vk.engines:everything"
    ok = lambda **kw: SiteEnergyModel(**{"compute_ref": c, "runtime_ref": "vk.engines:make", "runtime_kwargs": {"key": f"f{i}", "h": {}, "J": [], "occ": occ}, **kw})
    start = lambda m: m.initialize_state(simulation_state=st, event_lib=lib)
    start(ok())
    k = int(rng.integers(n))
    perm = [int(v) for v in rng.permutation(n)]
    short = {str(s): v for s, v in enumerate(perm) if s != k}
    dup = list(perm)
    dup[k] = perm[(k + 1) % n]
    neg = list(perm)
    neg[k] = -1
    bad = [
        ("short-map", lambda: start(ok(site_mapping=short))),
        ("duplicate-map", lambda: start(ok(site_mapping=dup))),
        ("negative-map", lambda: start(ok(site_mapping=neg))),
        ("outside-size", lambda: start(ok(site_mapping=[v + 1 for v in perm], external_size=n))),
        ("outside-initial", lambda: start(ok(site_mapping=[v + 1 for v in perm], initial_occupation=[0] * n))),
        ("missing-state", lambda: start(ok(state_mapping={0: 5}))),
        ("missing-middle-state", lambda: start(ok(state_mapping={0: 5, 2: 7}))),
        ("missing-site-state", lambda: start(ok(state_mapping_by_site={0: {0: 3}, 1: {1: 4}}))),
        ("units", lambda: ok(units="kJ/mol")),
        ("no-function", lambda: SiteEnergyModel().compute(event=ev, simulation_state=st)),
        ("bad-ref", lambda: SiteEnergyModel(compute_ref="vk.engines:missing").compute(event=ev, simulation_state=st)),
        ("text", lambda: ok(compute_ref="vk.engines:text_result").compute(event=ev, simulation_state=st)),
        ("flag", lambda: ok(compute_ref="vk.engines:flag_result").compute(event=ev, simulation_state=st)),
        ("unknown-kwarg", lambda: ok(compute_ref="vk.engines:occupation_style", compute_kwargs={"nonsense": 1}).compute(event=ev, simulation_state=st)),
    ]
    for name, fn in bad:
        ctx.count("refusals")
        ctx.expect_raises(fn, Exception, f"accepted-{name}", f"{name} was accepted")
    # a model bound to one site order refuses another
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    from pymatgen.core import Lattice, Structure

    def order(m):
        return ActiveSiteOrder.from_structure_and_mapping(Structure(Lattice.cubic(4), ["Na"], [[0, 0, 0]]), {"Na": ["Na", "X"]}, supercell_shape=(m, 1, 1))

    mdl = ok(active_site_order=order(n))
    mdl.initialize_state(simulation_state=st, active_site_order=order(n))
    other = ok(active_site_order=order(n))
    ctx.count("refusals", 2)
    ctx.expect_raises(lambda: other.initialize_state(simulation_state=State([0] * (n + 1)), active_site_order=order(n + 1)), Exception, "other-order", "a model bound to one site order accepted another")
    ctx.expect_raises(lambda: ok(active_site_order=order(n)).initialize_state(simulation_state=State([0] * (n + 1))), Exception, "other-count", "a model bound to a site order accepted a longer state")
    # bound through the fingerprint alone
    named = ok(active_site_order_hash=order(n).fingerprint)
    named.initialize_state(simulation_state=st, active_site_order=order(n))
    ctx.count("refusals", 3)
    ctx.expect_raises(lambda: ok(active_site_order_hash=order(n).fingerprint).initialize_state(simulation_state=State([0] * (n + 1)), active_site_order=order(n + 1)), Exception,
                      "other-order-named", "a model that names one site order by its fingerprint accepted another")
    ctx.expect_raises(lambda: ok(active_site_order=order(n), active_site_order_hash=order(n + 1).fingerprint), Exception, "two-orders", "a model naming two site orders was accepted")
    # a stored site mapping that no longer matches its recorded hash
    kept = json.loads(json.dumps(ok(site_mapping=perm, external_size=n + 2).as_dict()))
    back = SiteEnergyModel.from_dict(copy.deepcopy(kept))
    ctx.check(back.external_site_order_hash == ok(site_mapping=perm, external_size=n + 2).external_site_order_hash, "order-hash", "the mapping's hash changed over a reload")
    swapped = list(perm)
    swapped[k], swapped[(k + 1) % n] = perm[(k + 1) % n], perm[k]
    bent = dict(copy.deepcopy(kept), site_mapping=swapped)
    ctx.expect_raises(lambda: SiteEnergyModel.from_dict(bent), Exception, "bent-mapping", "a stored site mapping edited behind its hash was accepted")
    ctx.sig("faults", n)


def dying(ctx, rng, i):
    toy = lce_toy(rng, max_env=6)
    style = "occupation"
    from ..toys import active_order, allowed_lists, generate_events, movable_occupations
    box = {}

    def payload(rng, toy, aso, allowed):
        from kmcpy.models import CompositeLCEModel

        p = composite_payload(rng, toy, aso, allowed, site=False)
        m = CompositeLCEModel.from_dict(json.loads(json.dumps(p, default=lambda o: o.tolist())))
        lib = json.load(open("events.json"))["events"]
        events = [(tuple(e["mobile_ion_indices"]), tuple(e["local_env_indices"])) for e in lib]
        site, *_ = site_payload(rng, allowed, box["occ"], events, f"d{i}", style)
        return CompositeLCEModel(site_model=site, kra_model=m.kra_model).as_dict()

    toy.write_cif("toy.cif")
    generate_events(toy)
    box["occ"] = movable_occupations(rng, allowed_lists(active_order(toy)), toy.mobile)
    *_, kmc = build_run(rng, toy=toy, model_payload=payload, occ=box["occ"], kmc_passes=3)
    eng = engines.BOX[f"d{i}"]
    eng.fail_at = len(eng.computes) + int(rng.integers(1, 30))
    ctx.count("refusals")
    try:
        kmc.run()
    except RuntimeError as e:
        ctx.check("engine lost" in str(e), "engine-error", f"engine failure surfaced as {e}")
    else:
        ctx.check(len(eng.computes) < eng.fail_at, "engine-error-lost", "the engine failed but the run went on")
    ctx.sig("dying", toy.name)


def case(ctx, rng, i):
    if i % 8 == 7:
        return faults(ctx, rng, i)
    if i % 16 == 6:
        return dying(ctx, rng, i)
    if i % 3 == 0:  # start and target sublattices that list their states differently
        toy = lce_toy(rng, max_env=8, families=("twosub",))
        toy.identifiers = ("Na1", "Li1")
        ctx.count("differing_lists", [v if v not in VACS else "X" for v in toy.site_mapping["Na"]] != [v if v not in VACS else "X" for v in toy.site_mapping["Li"]])
    else:
        toy = lce_toy(rng, max_env=8)
    style = list(engines.STYLES)[int(rng.integers(len(engines.STYLES)))]
    drive(ctx, rng, toy, style, f"k{i}")


def long_range(ctx, rng):
    """Ring of 8 sites, hops to nearest neighbours: an interaction across the ring is felt by every hop."""
    toy = Toy("chain", (4.0, 12.0, 12.0), (90.0, 90.0, 90.0), [("Na1", "Na", (0.0, 0.0, 0.0))], {"Na": ["Na", "X"]}, (8, 1, 1), 4.5)
    sub = Probe(ctx)
    drive(sub, rng, toy, "occupation", "far", far=lambda ev, n: [(k, (k + 4) % 8) for k in range(4)], occ=[0, 1, 1, 0, 1, 0, 1, 1], tag="long-range ", passes=2)
    ctx.check("rate" not in sub.bad, "stale-long-range", sub.bad.get("rate", ""))
    for k, m in sub.bad.items():
        if k != "rate":
            ctx.check(False, k, m)


class Probe:
    """Counts like the context but collects failures by key."""

    def __init__(self, ctx):
        self.ctx, self.bad = ctx, {}

    def check(self, cond, key, msg=""):
        if not cond:
            self.bad.setdefault(key, msg() if callable(msg) else msg)
        return cond

    def count(self, *a):
        pass

    sig = sample = count


NAMED = {"long_range_engine": long_range}
