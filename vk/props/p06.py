"""P06: sampling schedules - an online trace checker over every callback invocation."""
import numpy as np

from ..toys import build_run
from .. import cbs

TECHNIQUE = "runtime monitoring: online trace-specification checker over every callback invocation, with injected callback faults and mid-run attach/detach/enable/reschedule"
LEVEL = ("exploration", "For every production step and every property the decision to sample or not is compared with the schedule in force; faults and reconfigurations are injected at random steps.")
CASES = {"quick": 150, "thorough": 1500}
RULE = "random run x random set of 1-5 callbacks with own/global step and time intervals, caps, enable flags, faults and mid-run changes; distinct by the multiset of schedules, faults and changes"
MIN = {"decisions": 6000, "calls": 1000, "faults_injected": 10, "midrun_changes": 15}
ASSUMPTIONS = ["runs start at clock zero"]


class Boom(Exception):
    pass


def rand_sched(rng, dt, tick=None):
    if tick is not None:  # intervals that whole numbers of clock ticks meet exactly
        i, t = rand_sched(rng, dt)
        return i, None if t is None else tick * int(rng.integers(1, 20))
    k = int(rng.integers(5))
    if k == 0:
        return None, None
    if k in (1, 2):
        return int(rng.choice([1, 2, 3, 5, 7, 11])), None
    if k == 3:
        return None, float(dt * rng.uniform(0.3, 12))
    return int(rng.choice([2, 3, 5, 9])), float(dt * rng.uniform(0.5, 12))


class Probe:
    def __init__(self, log, name, fail_at=(), value=None):
        self.log, self.name, self.fail_at = log, name, set(fail_at)
        self.n = 0

    def __call__(self, state, step, sim_time):
        self.n += 1
        self.log.append((self.name, step, sim_time, tuple(int(v) for v in state.occupations), float(state.time)))
        if self.n in self.fail_at:
            raise Boom(self.name)
        return (self.name, step)


def case(ctx, rng, i):
    cfg = {}
    gi, gt = None, None
    passes = int(rng.integers(2, 7))
    via_config = rng.random() < 0.3
    toy, aso, allowed, occ, config, kmc = build_run(rng, equilibration_passes=int(rng.integers(0, 2)), kmc_passes=passes)
    n_sites = sum(1 for a in allowed if toy.mobile in a)
    dt = 1.0 / float(np.sum(kmc.prob_list))
    tick = 2.0 ** np.floor(np.log2(dt)) if rng.random() < 0.35 else None
    gi, gt = rand_sched(rng, dt, tick)
    ncb = int(rng.integers(1, 6))
    specs = []
    for k in range(ncb):
        si, st = rand_sched(rng, dt, tick)
        fail = {int(v) for v in rng.integers(1, 12, 2)} if rng.random() < 0.3 else set()
        specs.append(dict(name=f"c{k}", interval=si, time_interval=st, store=bool(rng.random() < 0.8),
                          max_records=int(rng.integers(1, 6)) if rng.random() < 0.4 else None,
                          enabled=bool(rng.random() < 0.85), fail=fail,
                          handler=int(rng.integers(4)) if fail and rng.random() < 0.5 else 0))
    log = []
    handled = []
    if via_config:
        from ..toys import make_config
        from kmcpy.simulator.kmc import KMC
        for s in specs:
            s["fail"], s["handler"] = set(), 0
        cbs.CALLS.clear()
        use = specs[:2]
        refs = ["vk.cbs:probe", "vk.cbs.other"]
        kw = {"property_callbacks": []}
        for s, ref in zip(use, refs):
            d = {"callable": ref, "name": s["name"], "store": s["store"], "enabled": s["enabled"]}
            for f in ("interval", "time_interval", "max_records"):
                if s[f] is not None:
                    d[f] = s[f]
            kw["property_callbacks"].append(d)
        if gi is not None:
            kw["property_sampling_interval"] = gi
        if gt is not None:
            kw["property_sampling_time_interval"] = gt
        specs = use
        config = make_config(toy, occ, config.model_file, equilibration_passes=int(config.equilibration_passes), kmc_passes=passes,
                             temperature=config.temperature, attempt_frequency=config.attempt_frequency,
                             random_seed=config.random_seed, **kw)
        kmc = KMC.from_config(config)
        ctx.count("via_config")
    # the clock and state of every production step, and mid-run changes
    trace = []
    changes = {}
    live = {s["name"]: dict(s) for s in specs}
    sched = {"gi": gi, "gt": gt}
    default = {"used": gi is None and gt is None}
    if not via_config:
        for _ in range(int(rng.integers(0, 4))):
            step = int(rng.integers(1, passes * n_sites + 1))
            kind = ["detach", "disable", "enable", "attach", "freq"][int(rng.integers(5))]
            changes.setdefault(step, []).append((kind, int(rng.integers(ncb)), rand_sched(rng, dt, tick)))
    timeline = []  # (step, kind, payload) in effect

    def director(state, step, sim_time):
        trace.append((step, sim_time, tuple(int(v) for v in state.occupations), float(state.time)))
        for kind, k, sc in changes.get(step, ()):
            name = f"c{k}"
            attached = name in kmc.list_attachments()
            if kind == "detach" and attached:
                kmc.detach(name)
            elif kind in ("disable", "enable") and attached:
                kmc.set_property_enabled(name, kind == "enable")
            elif kind == "attach" and not attached:
                p = Probe(log, name)
                kmc.attach(p, name=name, interval=sc[0], time_interval=sc[1])
            elif kind == "freq" and (sc[0] or sc[1]):
                kmc.set_property_frequency(interval=sc[0], time_interval=sc[1])
            else:
                continue
            ctx.count("midrun_changes")
            timeline.append((step, kind, name, sc))

    if not via_config:
        kmc.attach(director, interval=1, name="director", store=False)
        if gi is not None or gt is not None:
            kmc.set_property_frequency(interval=gi, time_interval=gt)
        for s in specs:
            def on_error(exc, state, step, sim_time, s=s):
                handled.append((s["name"], step, type(exc).__name__))
                if s["handler"] == 3:
                    raise RuntimeError("handler fails")
                return s["handler"] == 1
            kmc.attach(Probe(log, s["name"], s["fail"]), name=s["name"], interval=s["interval"], time_interval=s["time_interval"],
                       store=s["store"], max_records=s["max_records"], enabled=s["enabled"],
                       on_error=on_error if s["handler"] in (1, 2, 3) else None)
    else:
        kmc.attach(director, interval=1, name="director", store=False)
    if gi is None and gt is None:
        sched["gi"] = n_sites  # documented default: one sample per pass

    if tick is not None:  # a clock of whole ticks: "at least the interval" is met with equality
        real, trng = kmc.propose, np.random.default_rng(int(rng.integers(1 << 30)))
        kmc.propose = lambda *a, **k: (real(*a, **k)[0], tick * int(trng.integers(1, 5)))

    died = None
    tracker = None
    try:
        tracker = kmc.run()
    except Exception as exc:
        died = exc
    if via_config:
        nm = {"probe": specs[0]["name"], "other": specs[1]["name"] if len(specs) > 1 else "?"}
        log.extend((nm[a], s, t, o, t) for a, s, t, o in cbs.CALLS)
    calls = {}
    for c in log:
        calls.setdefault((c[0], c[1]), []).append(c)
    ctx.count("calls", len(log))

    # --- replay the specification over the trace ---
    last = {}
    ok_calls = {}
    nfail = {}
    expect_death = None
    rows_expected = []
    bi_last = None
    dont_care_builtin = set()
    for step, sim_time, occ_now, st_time in trace:
        # built-in rows use the frequency in force before this step's callbacks
        due = (sched["gi"] is not None and step % sched["gi"] == 0) or (
            sched["gt"] is not None and (sim_time - bi_last if bi_last is not None else sim_time) >= sched["gt"])
        if due:
            bi_last = sim_time
            rows_expected.append(sim_time)
        fresh = set()
        for s2, kind, name, sc in timeline:
            if s2 != step:
                continue
            if kind == "detach":
                live.pop(name, None)
                last.pop(name, None)
                ok_calls.pop(name, None)
                nfail.pop(name, None)
            elif kind == "disable":
                live[name]["enabled"] = False
            elif kind == "enable":
                live[name]["enabled"] = True
            elif kind == "attach":
                live[name] = dict(name=name, interval=sc[0], time_interval=sc[1], store=True, max_records=None, enabled=True, fail=set(), handler=0)
                fresh.add(name)
            elif kind == "freq":
                sched["gi"], sched["gt"] = sc
        for name, s in list(live.items()):
            got = calls.pop((name, step), [])
            if name in fresh:      # first eligible step is the next one
                if not got:
                    continue
            si, stt = s["interval"], s["time_interval"]
            if si is None and stt is None:
                si, stt = sched["gi"], sched["gt"]
            prev = last.get(name)
            due = (si is not None and step % si == 0) or (stt is not None and (sim_time - prev if prev is not None else sim_time) >= stt)
            if stt is not None and (sim_time - prev if prev is not None else sim_time) == stt:
                ctx.count("exact_ties")
            due = due and s["enabled"]
            if expect_death is not None:
                due = False
            ctx.count("decisions")
            if not ctx.check(len(got) == (1 if due else 0), "schedule",
                             lambda: f"{name} step {step} time {sim_time}: called {len(got)} times, due={due}; own ({s['interval']},{s['time_interval']}) global ({sched['gi']},{sched['gt']}) last {prev} enabled {s['enabled']} changes {timeline}"):
                return
            if got:
                _, gs, gtm, gocc, gst = got[0]
                ctx.check(gs == step and gtm == sim_time and gocc == occ_now and gst == st_time, "callback-arguments",
                          lambda: f"{name} got step {gs} time {gtm}; event was step {step} time {sim_time}")
                last[name] = sim_time
                nfail[name] = nfail.get(name, 0) + 1
                if nfail[name] in s["fail"]:
                    ctx.count("faults_injected")
                    if s["handler"] != 1:
                        expect_death = (name, step)
                else:
                    ok_calls.setdefault(name, []).append((step, sim_time))
        if expect_death is not None:
            break
    leftovers = [c for c in calls if c[0] in live or c[0] not in ("director",)]
    ctx.check(not leftovers, "called-when-not-attached", lambda: f"{leftovers[:4]} changes {timeline}")
    ctx.check((died is not None) == (expect_death is not None), "fault-policy",
              lambda: f"expected stop {expect_death}, run raised {died!r}")
    if died is not None:
        ctx.count("runs_stopped_by_callback")
        if expect_death:
            ctx.check(trace and trace[-1][0] == expect_death[1], "ran-on-after-fault", lambda: f"stopped at {trace[-1][0]}, fault at {expect_death}")
        if type(died).__name__ != "CallbackExecutionError" and expect_death is None:
            ctx.fail("run-crashed", repr(died))
    if tracker is not None:
        ctx.check(len(trace) == passes * n_sites, "director-missed-steps", f"{len(trace)}")
        got_rows = list(tracker.results["time"])
        ctx.check(got_rows == rows_expected, "builtin-schedule",
                  lambda: f"built-in rows at {got_rows[:6]}.. ({len(got_rows)}), expected {rows_expected[:6]}.. ({len(rows_expected)}) global {gi},{gt} changes {timeline}")
        for name, s in live.items():
            recs = tracker.get_property_records(name)
            want = ok_calls.get(name, []) if s["store"] else []
            if s["max_records"] is not None:
                want = want[-s["max_records"]:]
            ctx.check([(r["step"], r["time"]) for r in recs] == want, "records",
                      lambda: f"{name} stored {[(r['step']) for r in recs]} expected {[w[0] for w in want]} cap {s['max_records']}")
            if not via_config:
                ctx.check(all(r["value"] == (name, r["step"]) and r["name"] == name for r in recs), "record-values", name)
    ctx.sig(gi, gt is None, sorted((s["interval"] or 0, s["time_interval"] is None, s["max_records"] or 0, s["enabled"], s["handler"], len(s["fail"])) for s in specs),
            sorted((k, n) for _, k, n, _ in timeline))
    ctx.sample({"case": i, "global": (gi, gt), "callbacks": [{k: (sorted(v) if isinstance(v, set) else v) for k, v in s.items()} for s in specs],
                "changes": [t[:3] for t in timeline], "steps": len(trace), "calls": len(log), "stopped": repr(died)})


def refusals(ctx, rng):
    kmc = build_run(rng)[-1]
    f = lambda s, a, b: None
    for key, fn in {
        "interval-0": lambda: kmc.attach(f, interval=0, name="a"),
        "interval-neg": lambda: kmc.attach(f, interval=-3, name="a"),
        "interval-float": lambda: kmc.attach(f, interval=1.5, name="a"),
        "time-0": lambda: kmc.attach(f, time_interval=0.0, name="a"),
        "time-neg": lambda: kmc.attach(f, time_interval=-1.0, name="a"),
        "cap-0": lambda: kmc.attach(f, max_records=0, name="a"),
        "reserved": lambda: kmc.attach(f, name="msd"),
        "not-callable": lambda: kmc.attach(3, name="a"),
        "freq-0": lambda: kmc.set_property_frequency(interval=0),
        "unknown-detach": lambda: kmc.detach("nope"),
        "unknown-enable": lambda: kmc.set_property_enabled("nope", True),
    }.items():
        ctx.expect_raises(fn, (ValueError, TypeError), "accepted-" + key)
        ctx.sig("refuse", key)
    kmc.attach(f, name="dup")
    ctx.expect_raises(lambda: kmc.attach(f, name="dup"), ValueError, "accepted-duplicate")
    ctx.check(kmc.list_attachments() == ["dup"], "refused-attach-left-trace", f"{kmc.list_attachments()}")


def self_detach(ctx, rng):
    """One-shot callbacks that detach themselves or a later one."""
    for victim in ("self", "later", "earlier"):
        kmc = build_run(rng, kmc_passes=3)[-1]
        seen = []

        def early(s, step, t):
            seen.append(("early", step))

        def one(s, step, t):
            seen.append(("one", step))
            if step == 2:
                kmc.detach({"self": "one", "later": "late", "earlier": "early"}[victim])
            return step

        def late(s, step, t):
            seen.append(("late", step))
            return step

        for f in (early, one, late):
            kmc.attach(f, interval=1, name=f.__name__)
        kmc.run()
        gone = {"self": "one", "later": "late", "earlier": "early"}[victim]
        last = max(s for n, s in seen if n == gone)
        ctx.check(last == (1 if victim == "later" else 2), "detached-called", f"{victim}: {gone} last called at {last}")
        ctx.check(gone not in kmc.list_attachments(), "detach-listing", "")
        ctx.count("midrun_changes")
        ctx.sig("detach", victim)


def repeated(ctx, rng):
    """A second run of the same simulation samples afresh with the same plan."""
    for _ in range(4 if ctx.tier == "quick" else 30):
        toy, aso, allowed, occ, config, kmc = build_run(rng, kmc_passes=2)
        n = sum(1 for a in allowed if toy.mobile in a)
        seen = []
        kmc.attach(lambda s, step, t: seen.append(step) or step, interval=3, name="third", max_records=4)
        for r in range(2):
            seen.clear()
            tr = kmc.run(label=f"r{r}")
            want = [s for s in range(1, 2 * n + 1) if s % 3 == 0]
            ctx.check(seen == want, "second-run-schedule", lambda: f"run {r}: {seen} vs {want}")
            ctx.check([x["step"] for x in tr.get_property_records("third")] == want[-4:], "second-run-records", f"run {r}")
            ctx.check(len(tr.results["time"]) == 2, "second-run-rows", f"run {r}: {len(tr.results['time'])}")
        ctx.sig("repeat", toy.name, n)


def long(ctx, rng):
    """Thousands of steps with intervals of hundreds and thousands, records beyond any small limit."""
    from ..toys import Toy

    toy = Toy("long", (3.1, 12.0, 12.0), (90, 90, 90), [("Na1", "Na", (0.2, 0.3, 0.4))], {"Na": ["Na", "X"]}, (10, 1, 1), 3.9)
    n = 2700
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, occ=[0, 1, 1, 0, 1] * 2, equilibration_passes=2, kmc_passes=270, property_sampling_interval=1150)
    seen, trace = {}, []
    kmc.attach(lambda s, step, t: trace.append((step, float(t))), interval=1, name="trace", store=False)
    plan = [(1, None), (2, 1100), (97, None), (255, None), (256, None), (999, None), (1000, None), (1001, None), (1300, None), (2048, None), (n, None), (n + 1, None), (None, None)]
    for k, (every, cap) in enumerate(plan):
        seen[k] = []
        kw = {} if every is None else {"interval": every}
        kmc.attach(lambda s, step, t, k=k: seen[k].append(step) or [step, k], name=f"p{k}", max_records=cap, **kw)
    tr = kmc.run(label="long")
    ctx.check([s for s, _ in trace] == list(range(1, n + 1)), "long-steps", lambda: f"{len(trace)} production steps seen, {n} made")
    for k, (every, cap) in enumerate(plan):
        want = [s for s in range(1, n + 1) if s % (every or 1150) == 0]
        ctx.count("decisions", n)
        ctx.count("calls", len(seen[k]))
        ctx.check(seen[k] == want, "long-schedule", lambda: f"interval {every}: called {len(seen[k])} times, e.g. at {seen[k][:4]}; due {len(want)} times, e.g. {want[:4]}")
        got = [(r["step"], list(r["value"])) for r in tr.get_property_records(f"p{k}")]
        ctx.check(got == [(s, [s, k]) for s in (want[-cap:] if cap else want)], "long-records", lambda: f"interval {every} cap {cap}: {len(got)} records kept of {len(want)}")
    every = tr.get_property_records()
    for k in range(len(plan)):
        ctx.check([(r["step"], list(r["value"])) for r in every.get(f"p{k}", [])] == [(r["step"], list(r["value"])) for r in (tr.get_property_records(f"p{k}") if seen[k] else [])],
                  "all-records", lambda: f"asked for all records, p{k} has {len(every.get(f'p{k}', []))}")
    times = dict(trace)
    ctx.check([float(v) for v in tr.results["time"]] == [times[1150], times[2300]], "long-rows", lambda: f"{len(tr.results['time'])} rows for interval 1150 in {n} steps")
    ctx.sig("long", n)


NAMED = {"refusals": refusals, "self-detach": self_detach, "repeated": repeated, "long": long}
