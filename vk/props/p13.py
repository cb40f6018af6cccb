"""P13: composite-model hop rates against the Arrhenius law evaluated independently."""
import json
import math

import numpy as np

from .. import lceoracle as L
from ..models import composite_payload, lce_toy
from ..mon import species
from ..toys import KB, VACS, Toy, build_run, spy_file, make_config

TECHNIQUE = "runtime monitoring: every rate the running simulation uses compared with an independent evaluation of the rate law, plus metamorphic checks on reversed hops, temperatures and attempt frequencies"
LEVEL = ("exploration", "Each rate of each live rate vector along real runs is recomputed from the stored cluster features by an independent evaluator; forward/backward ratios, attempt-frequency and temperature scaling are checked on the same events. Crystals, coefficients, occupations and conditions are sampled.")
CASES = {"quick": 110, "thorough": 1500}
RULE = "random crystal x cluster-expansion coefficients x site-model kind x temperature x attempt frequency x trajectory; distinct by (crystal, site model, states, available hops seen)"
MIN = {"rates": 5000, "available_hops": 2000, "blocked_hops": 2000, "reversed_pairs": 400, "negative_direction": 500}
ASSUMPTIONS = ["k = 8.617333262145e-2 meV/K; energies in meV, temperatures in K, frequencies in Hz",
               "the meaning of the site-energy cluster expansion is the energy change along the event's listed direction (first to second mobile-ion site)"]


class FixedDelta:
    """A user's own site model: after-minus-before energy of the hop, from the states themselves."""

    MODEL_TYPE = "vk_fixed_delta"

    def __init__(self, h):
        self.h = h

    def compute(self, *, event, simulation_state):
        from kmcpy.event import event_direction

        i, j = event.mobile_ion_indices
        d = event_direction(simulation_state.occupations, event)
        return d * (self.h[int(j)] - self.h[int(i)])

    def as_dict(self):
        return {"@module": "vk.props.p13", "@class": "FixedDelta", "h": list(self.h)}

    @classmethod
    def from_dict(cls, d):
        return cls(d["h"])


def direction(allowed, occ, ev, mobile):
    i, j = (int(v) for v in ev.mobile_ion_indices)
    a, b = allowed[i][occ[i]], allowed[j][occ[j]]
    if a == mobile and b in VACS:
        return 1
    if b == mobile and a in VACS:
        return -1
    return 0


def law(kra, site, d, nu, T):
    return nu * math.exp(-(kra + 0.5 * site) / (KB * T))


class Oracle:
    def __init__(self, composite, allowed, mobile, h=None):
        self.m, self.allowed, self.mobile, self.h = composite, allowed, mobile, h

    def parts(self, ev, occ):
        env = [int(v) for v in ev.local_env_indices]
        local = [occ[k] for k in env]
        counts = [len(self.allowed[k]) for k in env]
        kra = L.value(self.m.kra_model, local, "chebyshev", counts)
        d = direction(self.allowed, occ, ev, self.mobile)
        if self.h is not None:
            i, j = (int(v) for v in ev.mobile_ion_indices)
            return d, kra, d * (self.h[j] - self.h[i])
        if self.m.site_model is None:
            return d, kra, 0.0
        return d, kra, d * L.value(self.m.site_model, local, "chebyshev", counts)

    def rate(self, ev, occ, nu, T):
        d, kra, site = self.parts(ev, occ)
        return (0.0 if d == 0 else law(kra, site, d, nu, T)), d


def same(a, b):
    return (a == 0 and b == 0) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def case(ctx, rng, i):
    from kmcpy.models import CompositeLCEModel
    from kmcpy.simulator.state import State

    toy = lce_toy(rng, max_env=8)
    kind = ["lce", "none", "own"][int(rng.choice([0, 0, 0, 1, 2]))]
    box = {}

    def payload(rng, toy, aso, allowed):
        p = composite_payload(rng, toy, aso, allowed, site=kind == "lce")
        if kind == "own":
            box["h"] = [float(v) for v in rng.normal(0, 80, len(allowed))]
            m = CompositeLCEModel.from_dict(json.loads(json.dumps(p, default=lambda o: o.tolist())))
            p = CompositeLCEModel(site_model=FixedDelta(box["h"]), kra_model=m.kra_model).as_dict()
        return p

    T = float(10 ** rng.uniform(1.9, 3.5))
    nu = float(10 ** rng.uniform(9, 15))
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, model_payload=payload, temperature=T, attempt_frequency=nu, kmc_passes=2)
    comp = kmc.model.inner
    orc = Oracle(comp, allowed, toy.mobile, box.get("h"))
    events = kmc.event_lib.events
    n_av = [0]

    def look(occ, rates, where):
        for k, ev in enumerate(events):
            ref, d = orc.rate(ev, occ, nu, T)
            ctx.count("rates")
            if d == 0:
                ctx.count("blocked_hops")
                ctx.check(rates[k] == 0, "blocked-rate", lambda: f"{where}: event {k} is not a hop into a vacancy but has rate {rates[k]}")
            else:
                n_av[0] += 1
                ctx.count("available_hops")
                if d < 0:
                    ctx.count("negative_direction")
                ctx.check(same(rates[k], ref), "rate", lambda: f"{toy.name} {kind} {where}: event {k} {ev.mobile_ion_indices} rate {rates[k]} vs {ref}")

    look(occ, list(kmc.prob_list), "start")
    rows = []
    kmc.attach(lambda s, step, t: rows.append((list(s.occupations), [float(v) for v in kmc.prob_list])), interval=1, name="vk", store=False)
    kmc.run()
    pick = sorted(int(v) for v in rng.permutation(len(rows))[:6])
    for r in pick:
        look([int(v) for v in rows[r][0]], rows[r][1], f"step {r + 1}")
    # metamorphic: reversed hop, attempt frequency, temperature
    occ = [int(v) for v in kmc.simulation_state.occupations]
    rc = config.runtime_config
    avail = [k for k, ev in enumerate(events) if direction(allowed, occ, ev, toy.mobile)]
    for k in [avail[int(v)] for v in rng.permutation(len(avail))[:8]]:
        ev = events[k]
        st = State(occ)
        f = float(comp.compute_probability(event=ev, runtime_config=rc, simulation_state=st))
        ctx.check(list(st.occupations) == occ, "side-effect", "evaluating a rate changed the state")
        st2 = State(occ)
        st2.apply_event(ev, 0.0)
        b = float(comp.compute_probability(event=ev, runtime_config=rc, simulation_state=st2))
        d, kra, site = orc.parts(ev, occ)
        d2, kra2, site2 = orc.parts(ev, [int(v) for v in st2.occupations])
        ctx.check(d2 == -d, "reverse-blocked", f"after the hop its reverse is not available ({d} -> {d2})")
        env = {int(v) for v in ev.local_env_indices}
        if not env & {int(v) for v in ev.mobile_ion_indices}:   # same surroundings both ways
            ctx.count("reversed_pairs")
            ctx.check(abs(math.log(f / b) + site / (KB * T)) < 1e-7 * max(1, abs(site) / (KB * T)) if f > 0 and b > 0 else f == b == 0 or max(f, b) < 1e-250, "detailed-balance",
                      lambda: f"{toy.name} {kind}: forward {f}, backward {b}, site energy difference {site} meV at {T} K")
        else:
            ctx.count("reversed_pairs")
            ctx.check(same(b, law(kra2, site2, d2, nu, T)), "reverse-rate", lambda: f"{toy.name} {kind}: backward {b}")
        s = float(rng.uniform(0.1, 30))
        f2 = float(comp.compute_probability(event=ev, runtime_config=config.with_runtime_changes(attempt_frequency=nu * s).runtime_config, simulation_state=State(occ)))
        ctx.check(same(f2, f * s), "frequency-scaling", lambda: f"rate {f} at {nu}, {f2} at {nu * s}")
        T2 = float(rng.uniform(150, 2000))
        f3 = float(comp.compute_probability(event=ev, runtime_config=config.with_runtime_changes(temperature=T2).runtime_config, simulation_state=State(occ)))
        ctx.check(same(f3, law(kra, site, d, nu, T2)), "temperature", lambda: f"rate {f} at {T} K, {f3} at {T2} K")
    ctx.sig(toy.name, kind, sorted({len(a) for a in allowed}), n_av[0])
    ctx.sample({"case": i, "crystal": toy.name, "site_model": kind, "events": len(events), "T": T, "hops_seen": n_av[0]})


def double_counted(ctx, rng):
    """Sites of one species as start and target: the ion-to-vacancy hop 0 -> 1 of a ring has one physical path."""
    toy = Toy("chain", (4.0, 12.0, 12.0), (90.0, 90.0, 90.0), [("Na1", "Na", (0.0, 0.0, 0.0))], {"Na": ["Na", "X"]}, (6, 1, 1), 4.5)
    from ..toys import random_barrier_payload

    _, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, occ=[0, 1, 1, 1, 1, 0], temperature=300.0, attempt_frequency=1e12,
                                                  model_payload=lambda r, t, a, al: random_barrier_payload(r, al, n_rules=0))
    p = kmc.model.inner
    one = max(float(v) for v in kmc.prob_list)
    total = sum(float(v) for v, e in zip(kmc.prob_list, kmc.event_lib.events) if set(int(x) for x in e.mobile_ion_indices) == {0, 1})
    ctx.check(same(total, one), "hop-counted-twice", f"hop 0 -> 1 has total rate {total}, the rate law gives {one}")


NAMED = {"ring_of_one_species": double_counted}
