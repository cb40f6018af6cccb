"""P21: checkpoints taken at arbitrary steps of real runs, restored and continued."""
import copy
import json
import math

import numpy as np

from ..models import composite_payload, lce_toy
from ..toys import build_run

TECHNIQUE = "runtime monitoring: checkpoints taken at injected interruption points of real runs; the resumed simulation is driven in lockstep with the uninterrupted one and compared event by event"
LEVEL = ("exploration", "Interruption at random production steps; state, rates, event choices and clock of the resumed simulation compared exactly with the uninterrupted one driven by the same random stream.")
CASES = {"quick": 100, "thorough": 1000}
RULE = "random run x interruption step x continuation, plus random states with hostile clock values; distinct by (crystal, model, interruption step, continuation length)"
MIN = {"checkpoints": 150, "lockstep_events": 400, "states": 300}
ASSUMPTIONS = ["JSON checkpoints only; h5py is not installed"]


class Snap:
    """Callback that checkpoints through the documented API at chosen steps."""

    def __init__(self, at):
        self.at, self.saved = set(at), []

    def __call__(self, state, step, sim_time):
        if step in self.at:
            path = f"ck_{step}.json"
            state.save_checkpoint(path)
            self.saved.append((step, path, tuple(int(v) for v in state.occupations), float(state.time), int(state.step), state.copy()))
        return None


def load_checks(ctx, saved):
    from kmcpy.simulator.state import State

    for step, path, occ, tm, st, cp in saved:
        ctx.count("checkpoints")
        for how, s in (("load_checkpoint", State.load_checkpoint(path)), ("from_file", State.from_file(path)), ("copy", cp),
                       ("dict", State.from_dict(State.load_checkpoint(path).as_dict()))):
            got = (tuple(s.occupations), s.time, s.step)
            ctx.check(got == (occ, tm, st), f"state-{how}", lambda: f"step {step}: {how} gives {got}, saved {(occ, tm, st)}")


def case(ctx, rng, i):
    from kmcpy.simulator.kmc import KMC

    kind = "composite" if rng.random() < 0.35 else "barrier"
    kw = {}
    if kind == "composite":
        kw = dict(toy=lce_toy(rng), model_payload=lambda r, t, a, al: composite_payload(r, t, a, al))
    passes = int(rng.integers(2, 5))
    toy, aso, allowed, occ, config, kmc = build_run(rng, equilibration_passes=int(rng.integers(0, 2)), kmc_passes=passes, **kw)
    n = sum(1 for a in allowed if toy.mobile in a) * passes
    at = sorted({int(v) for v in rng.integers(1, n + 1, 3)} | {n})
    snap = Snap(at)
    kmc.attach(snap, interval=1, name="snap", store=False)
    kmc.run(label="first")
    ctx.check([s[0] for s in snap.saved] == at, "snapshots", f"{[s[0] for s in snap.saved]} vs {at}")
    load_checks(ctx, snap.saved)   # copies taken earlier must not have moved with the run
    # the log of the model is the ground truth for occupations at each event
    n_eq = len(kmc.model.log) - n
    for step, path, o, tm, st, cp in snap.saved:
        log = kmc.model.log[n_eq + step - 1]
        ctx.check(o == log[3] and tm == log[2], "snapshot-state", lambda: f"step {step}")
    # resume from a random one, in lockstep with an uninterrupted simulation
    step, path, o, tm, st, cp = snap.saved[int(rng.integers(len(snap.saved)))]
    cfg = config.with_system_changes(initial_occupations=None, initial_state_file=path)
    cfg = cfg.with_runtime_changes(equilibration_passes=0, random_seed=int(rng.integers(2**31)))
    res = KMC.from_config(cfg)
    s = res.simulation_state
    ctx.check((tuple(s.occupations), s.time, s.step) == (o, tm, st), "resumed-state",
              lambda: f"resumed at time {s.time} step {s.step}, checkpoint {tm} {st}; occupations equal: {tuple(s.occupations) == o}")
    # uninterrupted twin: replay the same events, then continue both with one random stream
    twin = KMC.from_config(config)
    for ev, _, _, _ in kmc.model.log[: n_eq + step]:
        e = next(x for x in twin.event_lib.events if tuple(x.mobile_ion_indices) == tuple(ev.mobile_ion_indices))
        twin.update(e, 0.0)
    ctx.check(tuple(twin.simulation_state.occupations) == o, "twin-replay", "replaying the logged events does not reach the checkpoint")
    pa, pb = np.asarray(twin.prob_list, float), np.asarray(res.prob_list, float)
    ctx.check(pa.shape == pb.shape and np.allclose(pa, pb, rtol=1e-9, atol=0), "resumed-rates",
              lambda: f"rates differ at events {np.where(~np.isclose(pa, pb, rtol=1e-9, atol=0))[0][:5]}")
    seed = int(rng.integers(2**31))
    res.rng, twin.rng = np.random.default_rng(seed), np.random.default_rng(seed)
    t = tm
    k = int(rng.integers(5, 25))
    for _ in range(k):
        (ea, da), (eb, db) = twin.propose(twin.event_lib.events), res.propose(res.event_lib.events)
        ctx.count("lockstep_events")
        same = tuple(ea.mobile_ion_indices) == tuple(eb.mobile_ion_indices) and math.isclose(da, db, rel_tol=1e-9)
        if not ctx.check(same, "lockstep", lambda: f"{ea.mobile_ion_indices} {da} vs {eb.mobile_ion_indices} {db}"):
            break
        twin.update(ea, da)
        res.update(eb, db)
        t += db
        ctx.check(tuple(twin.simulation_state.occupations) == tuple(res.simulation_state.occupations), "lockstep-state", "")
        ctx.check(math.isclose(res.simulation_state.time, t, rel_tol=1e-12), "resumed-clock", lambda: f"{res.simulation_state.time} vs {t}")
    # a whole resumed run: transport is for its own time
    res2 = KMC.from_config(cfg)
    tr = res2.run(label="second")
    own = res2.simulation_state.time - tm
    ctx.check(own > 0 and math.isclose(own, sum(l[2] - p for l, p in zip(res2.model.log, [tm] + [x[2] for x in res2.model.log])), rel_tol=1e-6), "own-time", "")
    d = np.asarray(tr.displacement)
    if len(d):
        msd = float((d**2).sum(axis=1).mean())
        for row in range(len(tr.results["time"])):
            ctx.check(tr.results["time"][row] >= 0, "row-time", "")
        want = msd / (2 * cfg.dimension * own) * 1e-16
        got = float(tr.results["tracer_diffusivity"][-1])
        ctx.check(math.isclose(got, want, rel_tol=1e-6, abs_tol=1e-40), "own-transport",
                  lambda: f"tracer diffusivity {got}, own time {own} gives {want}; checkpoint clock {tm}")
    ctx.check(res2.simulation_state.step == st + len(res2.model.log), "resumed-steps", lambda: f"{res2.simulation_state.step} vs {st}+{len(res2.model.log)}")
    # the checkpoint on disk is still what it was, so a second resume is identical
    load_checks(ctx, snap.saved)
    states(ctx, rng)
    # a checkpoint of another length is refused
    bad = json.load(open(path))
    bad["occupations"] = bad["occupations"] + [0] if rng.random() < 0.5 else bad["occupations"][:-1]
    json.dump(bad, open("bad.json", "w"))
    if len(bad["occupations"]) != aso.original_site_count:
        ctx.expect_raises(lambda: KMC.from_config(cfg.with_system_changes(initial_state_file="bad.json")), Exception, "wrong-length-accepted", "checkpoint of another length")
    ctx.sig(toy.name, kind, step, k)
    ctx.sample({"crystal": toy.name, "model": kind, "interrupted_at": step, "clock": tm})


def states(ctx, rng):
    """Random states, hostile values, many save/load rounds."""
    from kmcpy.simulator.state import State

    for _ in range(8):
        ctx.count("states")
        n = int(rng.integers(1, 40))
        raw = rng.integers(0, 5, n)
        occ = [raw, raw.tolist(), tuple(int(v) for v in raw)][int(rng.integers(3))]
        tm = [0.0, float(10 ** rng.uniform(-300, 300)), float(np.nextafter(1, 2)), 0.1 + 0.2, float(rng.random() * 1e-9), 5e-324][int(rng.integers(6))]
        st = [0, int(rng.integers(0, 2**31)), 2**53 + 1][int(rng.integers(3))]
        want = ([int(v) for v in raw], tm, st)
        s = State(occ, time=tm, step=st)
        for r in range(int(rng.integers(1, 4))):
            s.save_checkpoint("s.json")
            s = State.load_checkpoint("s.json")
            ctx.check(([int(v) for v in s.occupations], s.time, s.step) == want, "state-round", lambda: f"round {r}: {(s.time, s.step)} vs {want[1:]}")
        # every other way to the same state: dictionaries, readers given other defaults, twice over
        d = s.as_dict()
        for how, o in (("dict", State.from_dict(d)), ("dict-text", State.from_dict(json.loads(json.dumps(d)))),
                       ("reader-defaults", State.from_file("s.json", time=3.5, step=17)), ("reader", State.from_file("s.json"))):
            ctx.check(([int(v) for v in o.occupations], o.time, o.step) == want, f"state-by-{how}", lambda: f"{(o.time, o.step)} vs {want[1:]}")
        d["occupations"][0] = 7
        ctx.check(int(s.occupations[0]) == want[0][0], "dict-shares-state", "changing a dictionary of the state changed the state")
        c = s.copy()
        c2 = copy.deepcopy(s)
        s.occupations[0] = 9
        s.time += 1.0
        s.step += 1
        ctx.check(([int(v) for v in c.occupations], c.time, c.step) == want, "copy-not-independent", f"{c.occupations[:3]}")
        ctx.check(([int(v) for v in c2.occupations], c2.time, c2.step) == want, "deepcopy-not-independent", "")
        c.occupations[-1] = 8
        ctx.check(n == 1 or int(s.occupations[-1]) == int(raw[-1]), "original-moved-with-copy", "")
        ctx.check([int(v) for v in raw] == want[0] and (isinstance(occ, tuple) or [int(v) for v in occ] == want[0]), "input-mutated", "")
        if isinstance(occ, list):
            s2 = State(occ)
            s2.occupations[0] += 1
            ctx.check([int(v) for v in occ] == want[0], "input-aliased", "changing the state changed the caller's list")


NAMED = {}
