"""P28: number of events, equilibration isolation, clock."""
import numpy as np

from ..toys import VACS, Toy, build_run, make_toy
from ..trace import traced_run

TECHNIQUE = "runtime monitoring: counting monitors on every accepted event, clock and sample of real runs"
LEVEL = ("exploration", "Every accepted event is counted through the model hook and compared with passes x sites that can hold the mobile ion; clock increments are re-summed.")
CASES = {"quick": 130, "thorough": 1300}
RULE = "random crystal x mapping x pass counts x seed (also resumed states and repeated runs); distinct by (crystal, lists, equilibration, production, events)"
MIN = {"events": 4000, "equilibration_events": 800}
ASSUMPTIONS = []


def judge(ctx, t, eq, passes, n, label):
    prod = passes * n
    ctx.count("events", len(t.log))
    ctx.count("equilibration_events", t.n_eq)
    ctx.check(len(t.log) == eq * n + prod, "event-count",
              lambda: f"{label}: {len(t.log)} events for {eq}+{passes} passes over {n} sites that can hold {t.toy.mobile}")
    ctx.check(len(t.rows) == prod, "production-count", lambda: f"{label}: {len(t.rows)} production steps, expected {prod}")
    ctx.check([r[0] for r in t.rows] == list(range(1, len(t.rows) + 1)), "step-number", label)
    # equilibration leaves the clock alone
    ctx.check(all(l[2] == t.t0 for l in t.log[: eq * n]), "equilibration-clock", lambda: f"{label}: {[l[2] for l in t.log[:4]]}")
    times = [r[1] for r in t.rows]
    ctx.check(all(b >= a for a, b in zip([t.t0] + times, times)) or not times, "clock-not-increasing", label)
    ctx.check(all(r[1] == r[4] for r in t.rows), "clock-seen", label)
    st = t.kmc.simulation_state
    ctx.check(st.time == (times[-1] if times else t.t0), "final-clock", label)
    ctx.check(st.step == t.step0 + eq * n + prod, "final-step", lambda: f"{label}: step {st.step}")
    # equilibration leaves no trace in the trajectory
    ctx.check(int(np.sum(t.tracker.hop_counter)) == prod, "hops-counted", lambda: f"{label}: {np.sum(t.tracker.hop_counter)} hops, {prod} production events")
    ctx.check(all(x >= t.t0 for x in t.tracker.results["time"]), "sample-clock", label)
    ctx.check(len(t.tracker.results["time"]) == passes if n else True, "default-samples",
              lambda: f"{label}: {len(t.tracker.results['time'])} rows by default for {passes} passes")


def sum_of_waits(ctx, t, waits, label):
    if waits is None or len(waits) != len(t.log):
        return
    tot = t.t0
    for w in waits[t.n_eq:]:
        tot += w
    ctx.check(np.isclose(tot, t.kmc.simulation_state.time, rtol=1e-9), "clock-sum", lambda: f"{label}: {tot} vs {t.kmc.simulation_state.time}")
    ctx.count("waits_summed", len(waits))


def case(ctx, rng, i):
    import vk.trace as tr
    eq, passes = int(rng.integers(0, 4)), int(rng.integers(1, 6))
    waits = []
    orig = tr.Recorder

    def hooked(kmc, **kw):
        inner = kmc.propose

        def propose(events):
            out = inner(events)
            waits.append(float(out[1]))
            return out

        kmc.propose = propose
        return orig(kmc, **kw)

    kw = {}
    toy = make_toy(rng)
    if rng.random() < 0.3:
        from ..toys import active_order, allowed_lists, generate_events, movable_occupations
        from kmcpy.simulator.state import State
        toy.write_cif("toy.cif")
        generate_events(toy)
        allowed = allowed_lists(active_order(toy))
        occ = movable_occupations(rng, allowed, toy.mobile)
        State(occupations=occ, time=float(rng.uniform(1e-12, 1e-6)), step=int(rng.integers(0, 1000))).save_checkpoint("ck.json")
        kw = dict(initial_occupations=None, initial_state_file="ck.json", occ=occ)
        ctx.count("resumed")
    tr.Recorder = hooked
    try:
        t = traced_run(rng, toy=toy, equilibration_passes=eq, kmc_passes=passes, **kw)
    finally:
        tr.Recorder = orig
    n = sum(1 for a in t.allowed if t.toy.mobile in a)
    judge(ctx, t, eq, passes, n, toy.name)
    sum_of_waits(ctx, t, waits, toy.name)
    ctx.sig(toy.name, sorted({tuple(a) for a in t.allowed}), eq, passes, len(t.log))
    ctx.sample({"case": i, "crystal": toy.name, "eq": eq, "passes": passes, "sites": n, "events": len(t.log)})


def named_species(ctx, rng):
    """Species whose names contain each other (N / Na, S / Si) and mobile sites under another primary element."""
    toys = [
        Toy("N_in_Na", (3.1, 12.0, 12.0), (90, 90, 90), [("N1", "N", (0, 0, 0)), ("Na1", "Na", (0, 0.5, 0.5))],
            {"N": ["N", "X"], "Na": ["Na", "K"]}, (4, 1, 1), 3.9, mobile="N", identifiers=("N1", "N1")),
        Toy("S_in_Si", (3.1, 12.0, 12.0), (90, 90, 90), [("S1", "S", (0, 0, 0)), ("Si1", "Si", (0, 0.5, 0.5))],
            {"S": ["S", "X"], "Si": ["Si", "P"]}, (5, 1, 1), 3.9, mobile="S", identifiers=("S1", "S1")),
        Toy("under_Li", (3.1, 12.0, 12.0), (90, 90, 90), [("Li1", "Li", (0, 0, 0)), ("Si1", "Si", (0, 0.5, 0.5))],
            {"Li": ["X", "Na"], "Si": ["Si", "P"]}, (5, 1, 1), 3.9, mobile="Na", identifiers=("Li1", "Li1")),
        # sites that can hold the ion but never a vacancy count in a pass as well
        Toy("dopant_sites", (3.1, 12.0, 12.0), (90, 90, 90), [("Na1", "Na", (0, 0, 0)), ("Si1", "Si", (0, 0.5, 0.5))],
            {"Na": ["Na", "X"], "Si": ["Si", "Na"]}, (4, 1, 1), 3.9, mobile="Na", identifiers=("Na1", "Na1")),
    ]
    for toy in toys:
        for eq, passes in ((0, 1), (2, 3)):
            t = traced_run(rng, toy=toy, equilibration_passes=eq, kmc_passes=passes)
            n = sum(1 for a in t.allowed if toy.mobile in a)
            judge(ctx, t, eq, passes, n, toy.name)
            ctx.sig(toy.name, eq, passes)


NAMED = {"named-species": named_species}
