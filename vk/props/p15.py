"""P15: models and parameter sets through arbitrary save/load histories."""
import copy
import json

import numpy as np

from .. import engines
from ..models import build_lce, composite_payload, lce_toy, local_structure, random_parameters
from ..toys import VACS, active_order, allowed_lists, generate_events, make_config, make_toy, movable_occupations, random_occupations
from .p13 import FixedDelta
from .p16 import make_rules, raw
from .p17 import site_payload

TECHNIQUE = "runtime monitoring: rates of the same events and states recorded before and after every save/load/configuration round of a model's history and compared value by value; fault injection on stored payloads"
LEVEL = ("exploration", "Random models of every kind go through random histories (files, dictionaries, configuration dispatch, repeated rounds, re-parametrisation in between); rates over all events and several states must stay identical; parameter records also go through YAML (to the last digits written). Damaged payloads must be refused. HDF5 is not covered: h5py is not installed here.")
CASES = {"quick": 180, "thorough": 2500}
RULE = "model kind x basis x crystal x history of rounds; distinct by (kind, crystal, history)"
MIN = {"rounds": 300, "rates_compared": 20000, "nonzero_rates": 3000, "config_loads": 60, "refusals": 250, "parameter_records": 60, "foreign_site_orders": 4}
ASSUMPTIONS = ["model files in JSON, parameter records in JSON or YAML"]


def rates(model, lib, states, rc):
    from kmcpy.simulator.state import State

    out, looked = [], []
    for occ in states:
        st = State(list(occ))
        if hasattr(model, "initialize_state"):
            model.initialize_state(simulation_state=st, event_lib=lib)
        out.extend(float(model.compute_probability(event=ev, runtime_config=rc, simulation_state=st)) for ev in lib.events)
        looked.extend(float(model.compute(event=ev, simulation_state=st)) for ev in lib.events if hasattr(model, "rules"))
    return np.array(out + looked)   # barrier tables are also read directly


def make_model(rng, kind, toy, allowed, occ, key):
    from kmcpy.models import CompositeLCEModel, LocalBarrierModel

    if kind == "barrier":
        names = {k: {s: ("Vacancy" if v in VACS else v) for s, v in enumerate(a)} for k, a in enumerate(allowed)}
        lib = json.load(open("events.json"))["events"]
        events = [(tuple(e["mobile_ion_indices"]), tuple(e["local_env_indices"])) for e in lib]
        occs = [[int(rng.integers(len(a))) for a in allowed] for _ in range(3)]
        rules = make_rules(rng, [len(a) for a in allowed], events, occs, names)
        prop = {"barrier": float(rng.uniform(80, 250)), "attempt": 3.5}
        extra = {}
        if rng.random() < 0.3:
            extra = {"probability_property": "saddle", "default_property": ["saddle", "barrier"][int(rng.integers(2))]}
            prop["saddle"] = float(rng.uniform(80, 250))
            rr = []
            for r in rules:
                q = raw(r)
                b = q.pop("barrier", None) if "barrier" in q else q["properties"]["barrier"]
                q["properties"] = {"barrier": 1.0, "saddle": float(b)}
                rr.append(q)
        else:
            rr = [raw(r) for r in rules]
        return LocalBarrierModel(rules=rr, default_properties=prop, site_species=names, name="rules", **extra)
    p = composite_payload(rng, toy, None, allowed, site=kind == "lce")
    m = CompositeLCEModel.from_dict(json.loads(json.dumps(p, default=lambda o: o.tolist())))
    if kind == "own":
        return CompositeLCEModel(site_model=FixedDelta([float(v) for v in rng.normal(0, 80, len(allowed))]), kra_model=m.kra_model)
    if kind == "external":
        lib = json.load(open("events.json"))["events"]
        events = [(tuple(e["mobile_ion_indices"]), tuple(e["local_env_indices"])) for e in lib]
        style = ["occupation", "everything"][int(rng.integers(2))]
        site, *_ = site_payload(rng, allowed, occ, events, key, style)
        return CompositeLCEModel(site_model=site, kra_model=m.kra_model)
    return m


def reload(ctx, rng, model, how, path, config):
    """One save/load round in a given way."""
    from kmcpy.models.base import BaseModel

    cls = type(model)
    if how == "dict":
        d = model.as_dict()
        return cls.from_dict(json.loads(json.dumps(d, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o))))
    model.to(path)
    if how == "json":
        return cls.from_file(path)
    ctx.count("config_loads")
    return BaseModel.from_config(config)


def history(ctx, rng, i):
    from kmcpy.simulator.kmc import KMC

    kind = ["lce", "none", "barrier", "external", "own", "barrier", "lce"][i % 7]
    toy = make_toy(rng, max_sites=40) if kind == "barrier" else lce_toy(rng, max_env=7)
    toy.write_cif("toy.cif")
    generate_events(toy)
    allowed = allowed_lists(active_order(toy))
    occ = movable_occupations(rng, allowed, toy.mobile)
    model = make_model(rng, kind, toy, allowed, occ, f"r{i}")
    model.to("model.json")
    config = make_config(toy, occ, "model.json", random_seed=3, temperature=float(rng.uniform(250, 900)))
    kmc = KMC.from_config(config)
    lib, rc = kmc.event_lib, config.runtime_config
    states = [occ] + [random_occupations(rng, allowed, toy.mobile) for _ in range(3)]
    ref = rates(model, lib, states, rc)
    ctx.count("nonzero_rates", int((ref > 0).sum()))
    ctx.check(np.array_equal(np.array(kmc.prob_list, float), ref[: len(lib.events)]), "simulation-load",
              lambda: f"{kind}: the simulation's rates differ from the model's own")
    tol = 0.0
    steps = []
    cur = model
    for r in range(int(rng.integers(1, 5))):
        how = ["json", "dict", "config"][int(rng.integers(3))]
        steps.append(how)
        before = json.dumps(cur.as_dict(), sort_keys=True, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o))
        new = reload(ctx, rng, cur, how, "model.json", config)
        after = json.dumps(cur.as_dict(), sort_keys=True, default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o))
        ctx.check(before == after, "saving-changed-model", f"{kind} {how}: saving or loading changed the model in memory")
        ctx.count("rounds")
        got = rates(new, lib, states, rc)
        ctx.count("rates_compared", len(got))
        bad = np.abs(got - ref) > tol * np.abs(ref)
        ctx.check(not bad.any(), "rate", lambda: f"{kind} {toy.name} {steps}: {int(bad.sum())} of {len(ref)} rates changed, e.g. {ref[bad][:2]} -> {got[bad][:2]}")
        if kind in ("lce", "none", "own", "external") and rng.random() < 0.4:
            # new parameters between rounds must be what the next file holds
            random_parameters(rng, new.kra_model)
            if kind == "lce":
                random_parameters(rng, new.site_model)
            ref = rates(new, lib, states, rc)
            tol = 0.0
            steps.append("refit")
            still = rates(cur, lib, states, rc)
            ctx.check(not np.array_equal(still, ref) or not ref.any(), "shared-parameters", f"{kind}: changing the loaded model changed the one it was saved from")
        cur = new
    ctx.sig(kind, toy.name, tuple(steps))
    ctx.sample({"case": i, "kind": kind, "crystal": toy.name, "history": steps, "rates": len(ref)})


def lce_records(ctx, rng, i):
    """Parameter records and bare cluster expansions; occupation and Chebyshev bases."""
    from kmcpy.event import Event
    from kmcpy.models import LocalClusterExpansion
    from kmcpy.models.parameters import LCEModelParamHistory, LCEModelParameters
    from kmcpy.simulator.state import State

    toy = lce_toy(rng, max_env=7, **({"binary": True} if rng.random() < 0.6 else {}))
    toy.write_cif("toy.cif")
    basis = "occupation" if all(len(v) == 2 for v in toy.site_mapping.values() if isinstance(v, list)) and rng.random() < 0.5 else "chebyshev"
    lls = local_structure(toy, basis=basis, order=["nasicon_nat_commun_2022", "kmcpy_default"][int(rng.integers(2))])
    cutoffs = [float(v) for v in sorted(rng.uniform(2.5, 7.0, 3), reverse=True)]
    lce = build_lce(rng, lls, cutoffs)
    n = len(lce.cluster_site_indices)
    recs = []
    for r in range(int(rng.integers(1, 13))):
        recs.append(LCEModelParameters(
            keci=[float(v) for v in rng.normal(0, 1, n) * 10 ** rng.uniform(-6, 3)], empty_cluster=float(rng.normal(0, 300)),
            cluster_site_indices=[[[int(s) for s in c] for c in o] for o in lce.cluster_site_indices], weight=[float(v) for v in rng.random(4)],
            alpha=float(10 ** rng.uniform(-8, 1)), time_stamp=float(1.7e9 + rng.random() * 1e6), time=f"t{r}", rmse=float(rng.random()), loocv=float(rng.random()),
            normalize=bool(rng.integers(2)), orbit_fingerprints=lce.get_orbit_fingerprints() if rng.random() < 0.8 else None,
            local_environment_hash=lce.local_environment_hash if rng.random() < 0.8 else None))
    fields = ["keci", "empty_cluster", "cluster_site_indices", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize", "orbit_fingerprints", "local_environment_hash"]
    ext = ["json", "yaml"][int(rng.random() < 0.3)]

    def same(a, b):
        if ext == "json":
            return a == b
        x, y = json.dumps(a), json.dumps(b)
        if x == y:
            return True
        try:
            return np.allclose(np.array(a, float), np.array(b, float), rtol=1e-12, atol=0)
        except Exception:
            return False

    h = LCEModelParamHistory()
    for r in recs:
        h.append(r)
    h.to(f"hist.{ext}")
    back = LCEModelParamHistory.from_file(f"hist.{ext}")
    for _ in range(int(rng.integers(0, 3))):
        back.to(f"hist.{ext}")
        back = LCEModelParamHistory.from_file(f"hist.{ext}")
    ctx.check(len(back.history) == len(recs), "history-length", f"{len(recs)} records saved, {len(back.history)} loaded")
    for k, (a, b) in enumerate(zip(recs, back.history)):
        ctx.count("parameter_records")
        for f in fields:
            ctx.check(same(getattr(a, f), getattr(b, f)), f"record-{f}", lambda: f"record {k} of {len(recs)}: {f} {getattr(a, f)} -> {getattr(b, f)}")
    m = len(lce.local_env_structure)
    counts = lce.basis_site_state_counts
    states = [[int(rng.integers(c)) for c in counts] for _ in range(4)]
    ev = Event((m, m + 1), tuple(range(m)))
    pick = recs[int(rng.integers(len(recs)))]
    pick.to(f"par.{ext}")
    lce.set_parameters(pick)
    ref = [lce.compute(State(s + [0, 1]), ev) for s in states]
    lce.to("lce.json")
    other = LocalClusterExpansion.from_file("lce.json")
    for _ in range(int(rng.integers(0, 3))):
        other.to("lce.json")
        other = LocalClusterExpansion.from_file("lce.json")
    other.load_parameters_from_file(f"par.{ext}")
    got = [other.compute(State(s + [0, 1]), ev) for s in states]
    ctx.count("rounds")
    ctx.count("rates_compared", len(ref))
    ctx.check(np.allclose(ref, got, rtol=0 if ext == "json" else 1e-10, atol=0 if ext == "json" else 1e-10), "value", lambda: f"{basis} {toy.name}: values {ref} -> {got}")
    # an environment of another size is refused before and after alike
    for size in (m + 1, m - 1):
        if size >= 1:
            odd = Event((size, size + 1), tuple(range(size)))
            for who, mdl in (("built", lce), ("reloaded", other)):
                ctx.count("refusals")
                ctx.expect_raises(lambda: mdl.compute(State([0] * size + [0, 1]), odd), (ValueError, IndexError), f"environment-{who}", f"{basis}: the {who} {m}-site expansion was evaluated on {size} sites")
    # does not fit: refused, and the model keeps what it had
    full = dict(keci=list(pick.keci), empty_cluster=1.0, orbit_fingerprints=lce.get_orbit_fingerprints(), local_environment_hash=lce.local_environment_hash)
    bad = [("longer", dict(full, keci=full["keci"] + [1.0])), ("hash", dict(full, local_environment_hash="0" * 64)),
           ("short-fingerprints", dict(full, orbit_fingerprints=full["orbit_fingerprints"][:-1]))]
    if n > 1:
        bad.append(("shorter", dict(full, keci=full["keci"][:-1])))
        perm = full["orbit_fingerprints"][1:] + full["orbit_fingerprints"][:1]
        if perm != full["orbit_fingerprints"]:
            bad.append(("fingerprint-order", dict(full, orbit_fingerprints=perm)))
    fpt = list(full["orbit_fingerprints"])
    fpt[int(rng.integers(n))] = "f" * 16
    bad.append(("foreign-fingerprint", dict(full, orbit_fingerprints=fpt)))
    for name, p in bad:
        ctx.count("refusals")
        ctx.expect_raises(lambda: other.set_parameters(copy.deepcopy(p)), Exception, f"accepted-{name}", f"{basis}: parameter set with {name} accepted")
        now = [other.compute(State(s + [0, 1]), ev) for s in states]
        ctx.check(now == got, f"damaged-{name}", "a refused parameter set changed the model")
    # parameters fitted on the same sites listed in another order
    sort_keys = [str(k) for k in rng.permutation(["species_string", "cartesian_x", "cartesian_y", "cartesian_z"])]
    listed = lambda x: [(str(s.species_string), tuple(float(c) for c in s.coords)) for s in x.structure]
    differ = lambda a, b: len(a) == len(b) and any(x[0] != y[0] or max(abs(u - v) for u, v in zip(x[1], y[1])) > 1e-2 for x, y in zip(a, b))
    lls2 = local_structure(toy, basis=basis, order=dict(name="permuted", sort_keys=sort_keys, exclude_center_site=bool(lls.local_site_order.exclude_center_site), center_match_tolerance=1e-3))
    if differ(listed(lls), listed(lls2)):
        from kmcpy.models import LocalClusterExpansion as LCE2

        lce2 = LCE2()
        lce2.build(lls2, cutoff_cluster=list(cutoffs))
        if len(lce2.cluster_site_indices) == n:
            foreign = dict(keci=list(pick.keci), empty_cluster=1.0, orbit_fingerprints=lce2.get_orbit_fingerprints(), local_environment_hash=lce2.local_environment_hash)
            lce2.set_parameters(copy.deepcopy(foreign))
            lce2.to("order2.json")
            ctx.count("foreign_site_orders")
            ctx.expect_raises(lambda: other.set_parameters(copy.deepcopy(foreign)), Exception, "accepted-site-order", f"{basis} {toy.name}: parameters of the environment sorted by {sort_keys} accepted by one sorted otherwise")
            ctx.check([other.compute(State(s + [0, 1]), ev) for s in states] == got, "damaged-site-order", "a refused parameter set changed the model")
            ctx.check(LocalClusterExpansion.from_file("order2.json").local_environment_hash == lce2.local_environment_hash, "site-order-reload", "the reloaded model names another site order")
    d = lce.as_dict()
    if n > 1 and perm != full["orbit_fingerprints"]:
        ctx.count("refusals")
        ctx.expect_raises(lambda: LocalClusterExpansion.from_dict(dict(json.loads(json.dumps(d)), orbit_fingerprints=perm)), Exception, "tampered-orbits", "a model file whose orbits do not match its fingerprints was accepted")
    ctx.sig("lce", basis, toy.name, n, ext)


def broken_files(ctx, rng, i):
    from kmcpy.models import CompositeLCEModel, LocalBarrierModel
    from kmcpy.models.base import BaseModel

    toy = lce_toy(rng, max_env=6)
    toy.write_cif("toy.cif")
    generate_events(toy)
    allowed = allowed_lists(active_order(toy))
    occ = movable_occupations(rng, allowed, toy.mobile)
    model = make_model(rng, "lce", toy, allowed, occ, "x")
    good = json.loads(json.dumps(model.as_dict(), default=lambda o: o.tolist()))
    config = make_config(toy, occ, "model.json")

    def tries(name, payload):
        ctx.count("refusals")
        json.dump(payload, open("model.json", "w"))
        ctx.expect_raises(lambda: BaseModel.from_config(config), Exception, f"accepted-{name}", f"model file with {name} accepted")

    def edit(fn):
        d = copy.deepcopy(good)
        fn(d)
        return d

    json.dump(good, open("model.json", "w"))
    BaseModel.from_config(config)
    tries("no kra", edit(lambda d: d.pop("kra")))
    tries("kra without parameters", edit(lambda d: d["kra"].pop("parameters")))
    tries("kra without coefficients", edit(lambda d: d["kra"]["parameters"].pop("keci")))
    tries("kra without constant", edit(lambda d: d["kra"]["parameters"].pop("empty_cluster")))
    tries("a coefficient missing", edit(lambda d: d["kra"]["parameters"]["keci"].pop()))
    tries("an extra site coefficient", edit(lambda d: d["site"]["parameters"]["keci"].append(1.0)))
    tries("site without its expansion", edit(lambda d: d["site"].pop("lce")))
    tries("another environment's parameters", edit(lambda d: d["site"]["parameters"].update(local_environment_hash="1" * 64)))
    tries("wrong filetype", {k: v for k, v in edit(lambda d: d.update(filetype="something.else")).items()})
    tries("wrong model type", edit(lambda d: d.update(model_type="local_barrier")))
    tries("unknown class", {"@module": "kmcpy.models", "@class": "NoSuchModel"})
    tries("unknown module", {"@module": "no.such.module", "@class": "NoSuchModel"})
    ctx.sig("broken", toy.name)


def case(ctx, rng, i):
    if i % 4 == 3:
        return (broken_files if i % 16 == 15 else lce_records)(ctx, rng, i)
    history(ctx, rng, i)


NAMED = {}
