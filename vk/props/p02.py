"""P02: no stale rate, ever - the rate vector against fresh evaluations of the current state."""
import json

import numpy as np

from ..models import composite_payload, lce_toy
from ..mon import Recorder
from ..spymodel import SpyModel
from ..toys import build_run, make_config, make_toy, random_barrier_payload, spy_file

TECHNIQUE = "runtime monitoring: online comparison of the live rate vector with independent fresh evaluations before every event choice"
LEVEL = ("exploration", "Every event choice of every run is preceded by a full comparison of all rates with a fresh evaluation; at sampled points the reference is a brand-new simulation started from the current occupations. Rates are limited to those depending on an event's endpoints and listed environment.")
CASES = {"quick": 90, "thorough": 900}
RULE = "random crystal x local-rule or cluster-expansion model x occupation x history (run, repeated run, random forced events, extended/reloaded library); distinct by (crystal, model kind, library history, numbers of events and of rate changes)"
MIN = {"rate_vectors_compared": 2000, "rates_changed": 2000, "fresh_simulations": 100, "blocking_rules": 8}
ASSUMPTIONS = ["rates depend only on the event's endpoints and listed environment sites (models reading sites outside that list are outside this property)"]


def relib(rng, ctx):
    """Rewrite events.json through another history of the library."""
    from kmcpy.event import EventLib
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    mode = ["asis", "nodeps", "extended", "roundtrip", "clear"][int(rng.integers(5))]
    ctx.count("library_" + mode)
    if mode == "asis":
        return mode
    lib = EventLib.from_file("events.json")
    if mode == "nodeps":
        lib.clear_event_dependencies()
        lib.to("events.json")
    elif mode == "clear":
        lib.clear_event_dependencies()
        lib.generate_event_dependencies()
        lib.to("events.json")
    elif mode == "roundtrip":
        lib.to("e2.json")
        EventLib.from_file("e2.json").to("events.json")
    else:
        meta = ActiveSiteOrder.from_dict(lib.index_metadata)
        new = EventLib()
        cut = int(rng.integers(1, max(2, len(lib))))
        for k, e in enumerate(lib.events):
            if k == cut:
                new.generate_event_dependencies()
                if rng.random() < 0.5:
                    new.get_dependent_events(0)
            new.add_event(e)
        new.set_index_metadata(meta)
        new.to("events.json")
    return mode


class Watch:
    def __init__(self, ctx, kmc, payload, config, toy, rng, deep=3):
        from kmcpy.simulator.state import State

        self.State = State
        self.ctx, self.kmc, self.rng = ctx, kmc, rng
        self.payload, self.config, self.toy = payload, config, toy
        self.prev = None
        self.deep = deep
        self.n = 0
        self.model()

    def model(self):
        self.oracle = SpyModel.from_dict({"inner": self.payload}).inner

    def fresh(self, occ):
        st = self.State(occupations=list(occ))
        rc = self.kmc.config.runtime_config
        return np.array([float(self.oracle.compute_probability(event=e, runtime_config=rc, simulation_state=st))
                         for e in self.kmc.event_lib.events])

    def fresh_sim(self, occ):
        from kmcpy.simulator.kmc import KMC

        cfg = self.config
        args = dict(temperature=cfg.temperature, attempt_frequency=cfg.attempt_frequency)
        k2 = KMC.from_config(make_config(self.toy, occ, cfg.model_file, **args))
        self.ctx.count("fresh_simulations")
        return np.array(k2.prob_list, float)

    def look(self, where, deep=False):
        ctx, kmc = self.ctx, self.kmc
        self.n += 1
        occ = [int(v) for v in kmc.simulation_state.occupations]
        live = np.array(kmc.prob_list, float)
        if self.n % 10 == 0:
            self.model()
        ref = self.fresh(occ)
        ctx.count("rate_vectors_compared")
        if self.prev is not None:
            ctx.count("rates_changed", int((live != self.prev).sum()))
        self.prev = live
        ctx.check(live.shape == ref.shape and np.all(np.isfinite(live)) and np.all(live >= 0), "bad-rates", where)
        bad = ~np.isclose(live, ref, rtol=1e-9, atol=0) if live.shape == ref.shape else np.ones(1, bool)
        ctx.check(not bad.any(), "stale-rate",
                  lambda: f"{where}: events {np.flatnonzero(bad)[:6].tolist()} hold {live[bad][:4]} but the current state gives {ref[bad][:4]}")
        cum = np.array(kmc.prob_cum_list, float)
        ctx.check(cum.shape == ref.shape and np.allclose(cum, np.cumsum(ref), rtol=1e-9, atol=1e-12 * max(1.0, ref.sum())), "stale-total",
                  lambda: f"{where}: cumulative rates differ from sums of current rates, total {cum[-1]} vs {ref.sum()}")
        if deep:
            f = self.fresh_sim(occ)
            b2 = ~np.isclose(live, f, rtol=1e-9, atol=0)
            ctx.check(not b2.any(), "differs-from-fresh-simulation",
                      lambda: f"{where}: events {np.flatnonzero(b2)[:6].tolist()} {live[b2][:4]} vs {f[b2][:4]}")


def case(ctx, rng, i):
    kind = "lce" if rng.random() < 0.4 else "barrier"
    eq = int(rng.integers(0, 3))
    holder = {}

    def payload(rng, toy, aso, allowed):
        holder["lib"] = relib(rng, ctx)
        p = composite_payload(rng, toy, aso, allowed, site=rng.random() < 0.6) if kind == "lce" else random_barrier_payload(rng, allowed)
        holder["p"] = json.loads(json.dumps(p, default=lambda o: o.tolist()))
        if kind == "barrier" and rng.random() < 0.35:  # surroundings that block a hop altogether, until they change
            sp = toy.mobile if rng.random() < 0.6 else "Vacancy"
            k = int(rng.integers(1, 4))
            rule = {"type": "species_count", "sites": "local_env", "species": sp, "name": "block", "properties": {"barrier": 1e6}}
            rule.update({"min_count": k} if rng.random() < 0.7 else {"max_count": k - 1})
            holder["p"]["rules"] = [rule] + list(holder["p"].get("rules") or [])
            holder["blocking"] = True
            ctx.count("blocking_rules")
        return holder["p"]

    toy = lce_toy(rng, max_env=8) if kind == "lce" else make_toy(rng)
    if toy.name == "chain" and rng.random() < 0.7:   # long: most events are independent
        toy.shape = (int(rng.integers(12, 26)),) + toy.shape[1:]
    elif toy.name == "square" and rng.random() < 0.7:
        toy.shape = (6, 6) + toy.shape[2:]
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, model_payload=payload, equilibration_passes=eq,
                                                    kmc_passes=int(rng.integers(1, 4)))
    w = Watch(ctx, kmc, holder["p"], config, toy, rng)
    w.look("start", deep=True)
    inner_propose = kmc.propose

    def propose(events):
        w.look("before choice")
        return inner_propose(events)

    kmc.propose = propose
    kmc.attach(lambda s, step, t: w.look(f"after step {step}"), interval=1, name="vk_rates", store=False)
    if "blocking" not in holder:  # a dead end would rightly stop the run
        kmc.run()
        w.look("end of run", deep=True)
    if rng.random() < 0.3 and "blocking" not in holder:
        kmc.run(label="again")
        w.look("end of second run", deep=True)
        ctx.count("second_runs")
    # forced histories: any available event, however improbable
    steps = int(rng.integers(10, 40))
    for k in range(steps):
        avail = np.flatnonzero(np.array(kmc.prob_list) > 0)
        if not len(avail):
            break
        kmc.update(kmc.event_lib.events[int(avail[int(rng.integers(len(avail)))])], float(rng.random()))
        ctx.count("forced_events")
        w.look(f"forced event {k}", deep=(k % 12 == 11))
    ctx.sig(toy.name, kind, holder["lib"], eq, w.n)
    ctx.sample({"case": i, "crystal": toy.name, "model": kind, "library": holder["lib"], "events": len(kmc.event_lib.events),
                "vectors_compared": w.n})


def large(ctx, rng):
    """More sites and events than a byte can number; most events are far from any change."""
    from ..toys import Toy

    toy = Toy("large", (4.0, 9.0, 9.0), (90, 90, 90), [("Na1", "Na", (0.21, 0.32, 0.13))], {"Na": ["Na", "X"]}, (310, 1, 1), 4.2)
    holder = {}

    def payload(rng, toy, aso, allowed):
        holder["p"] = json.loads(json.dumps(random_barrier_payload(rng, allowed), default=lambda o: o.tolist()))
        rule = {"type": "species_count", "sites": "local_env", "species": "Na", "min_count": 2, "name": "crowd", "properties": {"barrier": 777.0}}
        holder["p"]["rules"] = [rule] + list(holder["p"].get("rules") or [])
        return holder["p"]

    occ = [int(v) for v in rng.integers(0, 2, 310)]
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, model_payload=payload, occ=occ, temperature=1500.0)
    w = Watch(ctx, kmc, holder["p"], config, toy, rng)
    w.look("start", deep=True)
    for k in range(40):
        avail = [e for e in np.flatnonzero(np.array(kmc.prob_list) > 0)
                 if k % 2 or max(kmc.event_lib.events[int(e)].mobile_ion_indices) > 254]
        kmc.update(kmc.event_lib.events[int(avail[int(rng.integers(len(avail)))])], 0.5)
        ctx.count("large_forced_events")
        w.look(f"large: forced event {k}", deep=k == 39)
    ctx.sig("large", len(kmc.event_lib.events))


NAMED = {"large": large}
