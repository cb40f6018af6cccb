"""P01: conservation of species and validity of every state along real runs."""
import numpy as np

from ..mon import Recorder, census, species
from ..toys import VACS, Toy, build_run, make_toy

TECHNIQUE = "runtime monitoring: per-event state monitor (conservation, single-hop delta) on real runs of random crystals"
LEVEL = ("exploration", "Every accepted event of every run is compared with the species on the sites before it; random crystals, mappings, models and seeds. Trusts the site mapping read from kMCpy's own active-site order (P12 checks that).")
CASES = {"quick": 160, "thorough": 1600}
RULE = "random crystal x mapping x rule model x occupation x seed, run through CIF -> events -> Configuration -> KMC.run; a case is non-trivial and distinct by (crystal family, allowed lists, equilibration, set of (direction, species) transitions seen, number of events)"
MIN = {"events": 2000, "forward": 200, "backward": 200}
ASSUMPTIONS = ["supercells large enough that the two endpoints of a hop are different sites"]


def watch(ctx, allowed, occ0, mobile, kmc, eq, passes, pairs, n_mobile_sites):
    spy = kmc.model
    ref = census(allowed, occ0)
    prev = {"sp": species(allowed, occ0), "n": 0}
    ctx.check(tuple(int(v) for v in kmc.simulation_state.occupations) == tuple(occ0), "initial-state",
              "state at start differs from the requested occupations")
    seen = set()

    def on_apply(event, state):
        now = species(allowed, state.occupations)
        was = prev["sp"]
        prev["n"] += 1
        ctx.count("events")
        if not ctx.check(len(now) == len(was) and not any(s.startswith("?") for s in now), "invalid-state",
                         lambda: f"state codes {list(state.occupations)} not in allowed lists"):
            prev["sp"] = now
            return
        i, j = (int(v) for v in event.mobile_ion_indices)
        changed = [k for k in range(len(now)) if now[k] != was[k]]
        ctx.check(sorted(changed) == sorted((i, j)), "sites-changed",
                  lambda: f"event {(i, j)} changed sites {changed}")
        fwd = was[i] == mobile and was[j] == "X" and now[i] == "X" and now[j] == mobile
        bwd = was[j] == mobile and was[i] == "X" and now[j] == "X" and now[i] == mobile
        ctx.check(fwd or bwd, "not-a-hop",
                  lambda: f"event {(i, j)}: {was[i]},{was[j]} -> {now[i]},{now[j]}")
        ctx.count("forward" if fwd else "backward")
        ctx.check((i, j) in pairs, "event-not-in-library", f"{(i, j)}")
        from collections import Counter
        ctx.check(Counter(now) == ref, "census", lambda: f"species census {Counter(now)} != {ref}")
        seen.add((fwd, allowed[i] == allowed[j]))
        prev["sp"] = now

    spy.on_apply = on_apply
    rec = Recorder(kmc)
    kmc.run()
    total = (eq + passes) * n_mobile_sites
    ctx.check(prev["n"] == len(spy.log), "event-log", "")
    ctx.check(prev["n"] > 0 or n_mobile_sites == 0, "no-events", "run accepted no event")
    ctx.check([r[2] for r in rec.rows] == [l[3] for l in spy.log[len(spy.log) - len(rec.rows):]],
              "callback-state", "state seen by callbacks differs from the state after the event")
    ctx.check(species(allowed, kmc.simulation_state.occupations) == prev["sp"], "final-state", "state changed outside an event")
    return seen, total


def case(ctx, rng, i):
    eq = int(rng.integers(0, 3))
    passes = int(rng.integers(1, 5))
    toy, aso, allowed, occ, config, kmc = build_run(rng, equilibration_passes=eq, kmc_passes=passes)
    pairs = {tuple(int(v) for v in e.mobile_ion_indices) for e in kmc.event_lib.events}
    n_mob = sum(1 for a in allowed if toy.mobile in a)
    seen, _ = watch(ctx, allowed, occ, toy.mobile, kmc, eq, passes, pairs, n_mob)
    ctx.sig(toy.name, sorted(map(tuple, {tuple(a) for a in allowed})), eq, sorted(seen), len(kmc.model.log))
    ctx.sample({"case": i, "crystal": toy.name, "sites": len(allowed), "mapping": toy.site_mapping,
                "events_accepted": len(kmc.model.log), "first_hops": [l[0].mobile_ion_indices for l in kmc.model.log[:5]]})


def transmute(ctx, rng):
    """Hops toward a sublattice that cannot hold the mobile ion must never fire."""
    toy = Toy("A", (4.0, 4.1, 4.2), (90, 90, 90), [("Na1", "Na", (0, 0, 0)), ("Na2", "Na", (0.5, 0, 0)), ("Li1", "Li", (0.5, 0.5, 0.5))],
              {"Na": ["Na", "X"], "Li": ["Li", "X"]}, (2, 2, 2), 3.9)
    for k in range(3):
        _, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, equilibration_passes=0, kmc_passes=3)
        pairs = {tuple(int(v) for v in e.mobile_ion_indices) for e in kmc.event_lib.events}
        watch(ctx, allowed, occ, "Na", kmc, 0, 3, pairs, 16)
        ctx.sig("transmute", k)


def similar_names(ctx, rng):
    """Inert species whose names begin like the mobile ion's, listed before and after it, and every spelling of a vacancy."""
    lists = [("N", {"N": ["Na", "N", "X"]}), ("N", {"N": ["N", "Na", "X"]}), ("Na", {"Na": ["N", "Na", "X"]}), ("S", {"S": ["Si", "X", "S"]}),
             ("K", {"K": ["X", "K", "Kr"]}), ("Na", {"Na": ["Na", "VA"]}), ("Na", {"Na": ["Va", "K", "Na"]}), ("Na", {"Na": ["Na", "vacancy"]}),
             ("Na", {"Na": ["K", "Vacancy", "Na"]}), ("C", {"C": ["Cl", "Ca", "C", "X"]}), ("F", {"F": ["Fe", "X", "F"]})]
    for mob, m in lists:
        el = next(iter(m))
        toy = Toy(f"names_{'_'.join(m[el])}", (3.4, 12.0, 12.0), (90, 90, 90), [(f"{el}1", el, (0, 0, 0))], m, (8, 1, 1), 3.9, mobile=mob, identifiers=(f"{el}1", f"{el}1"))
        toy.mobile_species = [el]
        _, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, equilibration_passes=1, kmc_passes=4)
        pairs = {tuple(int(v) for v in e.mobile_ion_indices) for e in kmc.event_lib.events}
        watch(ctx, allowed, occ, mob, kmc, 1, 4, pairs, 8)
        ctx.sig("names", toy.name)


NAMED = {"foreign-sublattice": transmute, "similar-names": similar_names}
