"""P08: result files against the live run they came from."""
import glob
import gzip
import hashlib
import json
import math
import os

import numpy as np

from ..mon import Recorder
from ..toys import build_run
from ..trace import Trace, finish

TECHNIQUE = "runtime monitoring: every file written by a run is parsed back and compared with the event trace and the samples the monitor recorded live"
LEVEL = ("exploration", "All files of every run, parsed independently and compared with a replay of the accepted events and with the values callbacks returned, captured at call time.")
CASES = {"quick": 120, "thorough": 1200}
RULE = "random run x label x callbacks with hostile return values x caps x disabled properties x a second run in the same directory; distinct by (crystal, label kind, value kinds, rows, records)"
MIN = {"files": 300, "records": 500, "rows": 100}
ASSUMPTIONS = ["HDF5 output is out of reach (h5py is not installed)"]
LABELS = [None, "a", "run.1", "T=300 K", "results", "label_with_7", "ünïcode", "2"]


def jsafe(v):
    """What a JSON reader should see for a value."""
    if isinstance(v, np.ndarray):
        return jsafe(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): jsafe(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsafe(x) for x in v]
    return v


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def value_kinds(rng):
    buf = []

    def live_occ(state, step, t):
        return state.occupations

    def live_list(state, step, t):
        buf.append(step)
        return buf

    return {
        "float": lambda s, k, t: float(rng.normal()) * 10 ** float(rng.integers(-300, 300)),
        "int": lambda s, k, t: int(rng.integers(-(2**62), 2**62)),
        "np_float": lambda s, k, t: np.float64(rng.normal()),
        "np_int": lambda s, k, t: np.int64(rng.integers(-(2**60), 2**60)),
        "np_bool": lambda s, k, t: np.bool_(rng.random() < 0.5),
        "bool": lambda s, k, t: bool(rng.random() < 0.5),
        "none": lambda s, k, t: None,
        "str": lambda s, k, t: "π \"q\" \n" + str(k),
        "array": lambda s, k, t: rng.normal(size=(2, 3)),
        "int_array": lambda s, k, t: rng.integers(0, 9, 4),
        "dict": lambda s, k, t: {"a": np.float64(k), 3: [np.int64(1), (2, {"z": np.arange(3)})], "n": None},
        "tuple": lambda s, k, t: (k, t, "x", [np.float64(t)]),
        "nan": lambda s, k, t: {"v": float("nan"), "w": [float("inf"), -float("inf")]},
        "empty": lambda s, k, t: [],
        "live_occ": live_occ,
        "live_list": live_list,
    }


class Tap:
    """Callback wrapper recording, at call time, what the wrapped one returned."""

    def __init__(self, fn):
        self.fn, self.seen = fn, []

    def __call__(self, state, step, sim_time):
        v = self.fn(state, step, sim_time)
        self.seen.append((int(step), float(sim_time), json.loads(json.dumps(jsafe(v)))))
        return v


def digest(path):
    return hashlib.sha1(open(path, "rb").read()).hexdigest()


def listing():
    return {f: digest(f) for f in glob.glob("**", recursive=True) if os.path.isfile(f)}


def gz(path):
    with gzip.open(path, "rt", encoding="utf-8") as fh:
        return fh.read()


def read_table(text):
    lines = [l for l in text.replace("\r", "").split("\n") if l]
    head = lines[0].split(",")
    return head, [[float(v) if v else float("nan") for v in l.split(",")] for l in lines[1:]]


def read_matrix(text):
    return [[float(v) for v in l.split(",")] for l in text.split("\n") if l.strip()]


def one(ctx, new, stem, label):
    """The single new file of a kind; its name starts stem_label."""
    hits = [f for f in new if f == f"{stem}_{label}.csv.gz" or (f.startswith(f"{stem}_{label}_") and f.endswith(".csv.gz"))]
    if not ctx.check(len(hits) == 1, f"missing-{stem}", lambda: f"label {label!r}: files {sorted(new)}"):
        return None
    return hits[0]


def examine(ctx, rng, t, label, before, taps):
    after = listing()
    new = {f for f in after if after[f] != before.get(f)}
    lab = label if label else t.config.name
    gone = [f for f in before if f not in after]
    ctx.check(not gone, "file-removed", f"{gone}")
    used = set()
    tr = t.tracker

    f = one(ctx, new, "displacement", lab)
    if f:
        used.add(f)
        got = np.array(read_matrix(gz(f)), float).reshape(-1, 3)
        ctx.check(got.shape == t.shadow.disp.shape and np.allclose(got, t.shadow.disp, rtol=1e-9, atol=1e-8),
                  "displacement-file", lambda: f"file {got.tolist()} trajectory {t.shadow.disp.tolist()}")
        ctx.check(np.array_equal(got, np.asarray(tr.displacement).reshape(-1, 3)), "displacement-file-exact", "file differs from tracker")
    f = one(ctx, new, "hop_counter", lab)
    if f:
        used.add(f)
        got = [r[0] for r in read_matrix(gz(f))]
        ctx.check(got == [float(v) for v in t.shadow.hops], "hop-file", lambda: f"{got} vs {t.shadow.hops.tolist()}")
    f = one(ctx, new, "current_occ", lab)
    if f:
        used.add(f)
        got = [r[0] for r in read_matrix(gz(f))]
        final = t.log[-1][3] if t.log else t.occ
        ctx.check(got == [float(v) for v in final], "occupation-file", lambda: f"{got} vs {list(final)}")

    f = f"results_{lab}.csv.gz"
    if ctx.check(f in new, "missing-results", lambda: f"{sorted(new)}"):
        used.add(f)
        head, rows = read_table(gz(f))
        res = tr.results
        ctx.check(set(head) == set(res) and len(set(head)) == len(head), "results-columns", f"{head} vs {list(res)}")
        ctx.check(len(rows) == len(res["time"]), "results-rows", f"{len(rows)} file rows, {len(res['time'])} samples")
        # which production steps were sampled: the recorded clock must contain them in order
        times = [r[1] for r in t.rows]
        col = {h: k for k, h in enumerate(head)}
        last = -1
        for n, row in enumerate(rows[: len(res["time"])]):
            ctx.count("rows")
            for h in head:
                if h not in res:
                    continue
                w = float(res[h][n])
                g = row[col[h]]
                ctx.check((math.isnan(w) and math.isnan(g)) or math.isclose(g, w, rel_tol=1e-12, abs_tol=0.0) or g == w,
                          f"results-value-{h}", lambda: f"row {n}: file {g!r} sampled {w!r}")
            tm = row[col["time"]] if "time" in col else None
            if tm is not None:
                hit = next((k for k in range(last + 1, len(times)) if math.isclose(times[k], tm, rel_tol=1e-12)), None)
                if ctx.check(hit is not None, "results-time-order", lambda: f"row {n} time {tm} is no later production time"):
                    last = hit
                    if "msd" in col and len(t.shadow.disp) and not math.isnan(row[col["msd"]]):
                        d = t.shadow_rows[hit][2]
                        w = float((d**2).sum(axis=1).mean())
                        ctx.check(math.isclose(row[col["msd"]], w, rel_tol=1e-7, abs_tol=1e-9), "results-msd-trace",
                                  lambda: f"row {n}: msd {row[col['msd']]}, trajectory {w}")
    f = f"results_units_{lab}.json.gz"
    if ctx.check(f in new or f in after, "missing-units", lambda: f"{sorted(new)}"):
        used.add(f)
        units = json.loads(gz(f))
        ctx.check(set(units) == set(tr.results) and units == dict(tr.result_units), "units", f"{units}")

    stored = {n: s for n, s in taps.items() if s["store"]}
    expect = []
    for name, s in stored.items():
        seen = s["tap"].seen
        if s["cap"]:
            seen = seen[-s["cap"]:]
        expect.append((name, seen))
    total = sum(len(s) for _, s in expect)
    f = f"properties_{lab}.json.gz"
    if total:
        if ctx.check(f in new, "missing-properties", lambda: f"{sorted(new)}"):
            used.add(f)
            recs = json.loads(gz(f))
            for name, seen in expect:
                got = [r for r in recs if r["name"] == name]
                ctx.check(len(got) == len(seen), "record-count", f"{name}: file {len(got)} captured {len(seen)}")
                for g, (st, tm, v) in zip(got, seen):
                    ctx.count("records")
                    ctx.check(g["step"] == st and g["time"] == tm and same(g["value"], v), "record-value",
                              lambda: f"{name}: file {str(g)[:300]} captured {(st, tm, v)!r:.300}")
            ctx.check(len(recs) == total, "record-extra", f"file {len(recs)} captured {total}")
    else:
        ctx.check(f not in new, "properties-file-unexpected", f"{f}")
    ctx.count("files", len(used))
    ctx.check(not (new - used), "unexpected-file", lambda: f"{sorted(new - used)}")


def prepare(rng, first, tag):
    t = Trace()
    if first is None:
        gi = int(rng.choice([1, 2, 5])) if rng.random() < 0.6 else None
        kw = {}
        if gi:
            kw["property_sampling_interval"] = gi
        if rng.random() < 0.3:
            kw["builtin_property_enabled"] = {p: bool(rng.random() < 0.5) for p in ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity")}
        t.toy, t.aso, t.allowed, t.occ, t.config, t.kmc = build_run(
            rng, equilibration_passes=int(rng.integers(0, 2)), kmc_passes=int(rng.integers(1, 4)), name=tag, **kw)
    else:
        from kmcpy.simulator.kmc import KMC

        t.toy, t.aso, t.allowed, t.occ = first.toy, first.aso, first.allowed, first.occ
        t.config = first.config.with_runtime_changes(random_seed=int(rng.integers(1, 2**31)), kmc_passes=int(rng.integers(1, 4)))
        t.kmc = KMC.from_config(t.config)
    act = t.aso.active_structure()
    t.pos = np.array([s.frac_coords for s in act])
    t.matrix = np.array(act.lattice.matrix)
    return t


def go(ctx, rng, t, label):
    taps = {}
    kinds = value_kinds(rng)
    names = [str(k) for k in rng.permutation(sorted(kinds))[: int(rng.integers(0, 6))]]
    for k in names:
        tap = Tap(kinds[k])
        cap = int(rng.integers(1, 5)) if rng.random() < 0.3 else None
        store = bool(rng.random() < 0.85)
        taps[k] = {"tap": tap, "cap": cap, "store": store}
        t.kmc.attach(tap, interval=int(rng.choice([1, 2, 3, 7])), name=k, store=store, max_records=cap)
    before = listing()
    t.rec = Recorder(t.kmc, store=False)
    t.tracker = t.kmc.run(label=label) if label else t.kmc.run()
    finish(t)
    examine(ctx, rng, t, label, before, taps)
    ctx.sig(t.toy.name, str(label), sorted(names), len(t.tracker.results["time"]), len(t.rows))
    return names


def case(ctx, rng, i):
    label = LABELS[int(rng.integers(len(LABELS)))]
    t = prepare(rng, None, "nm" + str(int(rng.integers(5))))
    names = go(ctx, rng, t, label)
    if rng.random() < 0.5:
        other = [l for l in LABELS if l != label and l]
        t2 = prepare(rng, t, "")
        go(ctx, rng, t2, other[int(rng.integers(len(other)))])
        ctx.count("second_runs")
    ctx.sample({"label": str(label), "values": names, "rows": len(t.tracker.results["time"])})


def many(ctx, rng):
    """Thousands of records, a large array value, a capped one at the boundary; nothing is thinned out or shortened."""
    from ..toys import Toy

    t = Trace()
    toy = Toy("many", (3.1, 12.0, 12.0), (90, 90, 90), [("Na1", "Na", (0.2, 0.3, 0.4))], {"Na": ["Na", "X"]}, (12, 1, 1), 3.9)
    t.toy, t.aso, t.allowed, t.occ, t.config, t.kmc = build_run(
        rng, toy=toy, occ=[0, 1, 1] * 4, equilibration_passes=3, kmc_passes=220, name="many", property_sampling_interval=1)
    act = t.aso.active_structure()
    t.pos, t.matrix = np.array([s.frac_coords for s in act]), np.array(act.lattice.matrix)
    big = rng.normal(size=(60, 50))
    taps = {}
    for name, fn, cap, every in [("each", lambda s, k, tm: k * 0.1, None, 1), ("capped", lambda s, k, tm: [k, tm], 1500, 1),
                                 ("late", lambda s, k, tm: int(k), None, 1100), ("bulk", lambda s, k, tm: big * k, None, 1300),
                                 ("long_text", lambda s, k, tm: "x" * 5000 + str(k), None, 1250)]:
        taps[name] = {"tap": Tap(fn), "cap": cap, "store": True}
        t.kmc.attach(taps[name]["tap"], interval=every, name=name, store=True, max_records=cap)
    before = listing()
    t.rec = Recorder(t.kmc, store=False)
    t.tracker = t.kmc.run(label="many")
    finish(t)
    examine(ctx, rng, t, "many", before, taps)
    for name, n in [("each", 2640), ("capped", 2640), ("late", 2), ("bulk", 2), ("long_text", 2)]:
        ctx.check(len(taps[name]["tap"].seen) == n, "long-run-calls", lambda: f"{name}: called {len(taps[name]['tap'].seen)} times in 2640 steps")
    ctx.count("long_files")
    ctx.sig("many", len(t.tracker.results["time"]))


NAMED = {"many": many}
