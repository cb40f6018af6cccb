"""P07: a seed determines a run; runs disturb nothing."""
import copy
import glob
import gzip
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from ..models import composite_payload, lce_toy
from ..mon import Recorder
from ..toys import build_run, make_config

TECHNIQUE = "runtime monitoring: twin executions compared event by event under perturbed process state, interleaving, observers and hash seeds, with before/after monitors on generators, configuration and inputs"
LEVEL = ("exploration", "Full event logs, clocks, results and file contents of twin runs compared exactly; the perturbations (global generators, earlier runs, interleaved simulations, callbacks, hash seeds, other working directory) are injected.")
CASES = {"quick": 90, "thorough": 900}
RULE = "random crystal x model x seed x perturbation; distinct by (crystal, model kind, seed kind, perturbation)"
MIN = {"twin_events": 1500, "perturbed_runs": 40, "interleaved_events": 100, "seed_pairs": 10, "second_runs": 20}
ASSUMPTIONS = ["same machine and library versions for both twins"]


def fingerprint(kmc, tracker, rec=None):
    """Everything the run did, exactly."""
    log = [(tuple(int(v) for v in ev.mobile_ion_indices), int(step), float(tm), occ) for ev, step, tm, occ in kmc.model.log]
    return {
        "log": log,
        "time": float(kmc.simulation_state.time),
        "disp": np.asarray(tracker.displacement).tolist(),
        "hops": np.asarray(tracker.hop_counter).tolist(),
        "results": json.dumps({k: [float(v) for v in vs] for k, vs in tracker.results.items()}),
    }


def files(label):
    out = {}
    for f in sorted(glob.glob(f"*{label}*")):
        if f.endswith(".gz"):
            out[f] = gzip.open(f, "rb").read()
    return out


def digests(paths):
    return {p: hashlib.sha1(open(p, "rb").read()).hexdigest() for p in paths}


def run(config, label, callbacks=False, rng=None):
    from kmcpy.simulator.kmc import KMC

    kmc = KMC.from_config(config)
    if callbacks:
        kmc.attach(lambda s, k, t: list(s.occupations), interval=1, name="obs1")
        kmc.attach(lambda s, k, t: float(np.sum(s.occupations)) + t, time_interval=1e-14, name="obs2", max_records=3)
        kmc.attach(lambda s, k, t: s.copy() if hasattr(s, "copy") else None, interval=2, name="obs3", store=False)
    tr = kmc.run(label=label)
    return kmc, tr


def compare(ctx, a, b, what):
    n = min(len(a["log"]), len(b["log"]))
    bad = next((k for k in range(n) if a["log"][k] != b["log"][k]), None)
    ctx.count("twin_events", n)
    ctx.check(bad is None and len(a["log"]) == len(b["log"]), f"twin-events:{what}",
              lambda: f"{what}: lengths {len(a['log'])}/{len(b['log'])}, first difference at event {bad}: "
                      f"{a['log'][bad][:3] if bad is not None else ''} vs {b['log'][bad][:3] if bad is not None else ''}")
    for k in ("time", "disp", "hops", "results"):
        ctx.check(a[k] == b[k], f"twin-{k}:{what}", lambda: f"{what}: {k} differs: {str(a[k])[:200]} vs {str(b[k])[:200]}")


def np_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def cfg_view(c):
    return json.dumps(c.as_dict(include_loader_paths=True), sort_keys=True, default=str)


def setup(rng):
    if rng.random() < 0.4:
        toy = lce_toy(rng)
        pl = lambda r, t, a, al: composite_payload(r, t, a, al, site=True)
        kind = "composite"
    else:
        toy, pl, kind = None, None, "barrier"
    seed = [0, 1, int(rng.integers(2, 2**31)), 2**31 - 1][int(rng.integers(4))]
    occ_as = int(rng.integers(3))
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, model_payload=pl, equilibration_passes=int(rng.integers(0, 2)),
                                                    kmc_passes=int(rng.integers(2, 5)), random_seed=seed)
    if occ_as == 1:
        config = config.with_system_changes(initial_occupations=np.array(occ))
    elif occ_as == 2:
        config = config.with_system_changes(initial_occupations=tuple(occ))
    return toy, aso, allowed, occ, config, kind, seed


def case(ctx, rng, i):
    toy, aso, allowed, occ, config, kind, seed = setup(rng)
    inputs = [f for f in glob.glob("*") if os.path.isfile(f)]
    dig = digests(inputs)
    user_occ = copy.deepcopy(config.initial_occupations)
    cv = cfg_view(config)
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    g0, r0 = np_state(), random.getstate()
    kmc, tr = run(config, "base")
    base, bfiles = fingerprint(kmc, tr), files("base")
    ctx.check(np_state() == g0, "numpy-generator-disturbed", "np.random state changed by a run")
    ctx.check(random.getstate() == r0, "python-generator-disturbed", "random state changed by a run")
    ctx.check(cfg_view(config) == cv, "config-changed", lambda: f"{cv[:300]} -> {cfg_view(config)[:300]}")
    ctx.check(np.array_equal(np.asarray(config.initial_occupations), np.asarray(user_occ)), "config-occupations-changed", "initial occupations mutated by a run")
    ctx.check(digests(inputs) == dig, "inputs-changed", lambda: f"{[f for f in inputs if digests([f]) != {f: dig[f]}]}")

    perturb = ["repeat", "globals", "other_run", "callbacks", "interleave", "reload", "same_seed_path", "partial"][i % 8]
    ctx.count("perturbed_runs")
    if perturb == "interleave":
        interleave(ctx, rng, config, base)
    else:
        cfg2 = config
        if perturb == "globals":
            np.random.seed(12345)
            random.seed(99)
            np.random.random(17)
        elif perturb == "other_run":
            c3 = config.with_runtime_changes(random_seed=int(rng.integers(1, 2**31)), temperature=float(rng.uniform(250, 900)))
            run(c3, "third")
        elif perturb == "reload":
            config.to("cfg_roundtrip.json", include_loader_paths=True)
            from kmcpy.simulator.config import Configuration

            cfg2 = Configuration.from_file("cfg_roundtrip.json")
        elif perturb == "partial":
            from kmcpy.simulator.kmc import KMC

            k3 = KMC.from_config(config)   # built, stepped, abandoned
            k3.rng = np.random.default_rng(5)
            for _ in range(5):
                ev, dt = k3.propose(k3.event_lib.events)
                k3.update(ev, dt)
        elif perturb == "same_seed_path":
            cfg2 = make_config(toy, occ, config.model_file, temperature=config.temperature, attempt_frequency=config.attempt_frequency,
                               equilibration_passes=config.equilibration_passes, kmc_passes=config.kmc_passes, random_seed=seed)
        k2, t2 = run(cfg2, "twin", callbacks=perturb == "callbacks")
        compare(ctx, base, fingerprint(k2, t2), perturb)
        tf = files("twin")
        for f, raw in bfiles.items():
            g = f.replace("base", "twin")
            ctx.check(g in tf and tf[g] == raw, f"twin-file:{perturb}", lambda: f"{f} vs {g}: present={g in tf}")
    # a second run of the same object is a run from its present state with the same seed
    if i % 2 == 0:
        second_run(ctx, config, kmc)
    # a different seed is a different trajectory
    if i % 3 == 0:
        s2 = seed + 1 if seed < 2**31 - 1 else 5
        k4, t4 = run(config.with_runtime_changes(random_seed=s2), "other")
        f4 = fingerprint(k4, t4)
        ctx.count("seed_pairs")
        ctx.check(f4["time"] != base["time"], "seed-ignored", f"seeds {seed} and {s2} give the same clock {base['time']}")
    if i % 5 == 0:
        c5 = config.with_runtime_changes(random_seed=None)
        a, b = run(c5, "na")[0], run(c5, "nb")[0]
        ctx.check(a.simulation_state.time != b.simulation_state.time, "unseeded-repeats", "two unseeded runs are identical")
    ctx.sig(toy.name, kind, seed in (0, 1), perturb, len(base["log"]))
    ctx.sample({"crystal": toy.name, "model": kind, "seed": seed, "perturbation": perturb, "events": len(base["log"])})


def second_run(ctx, config, kmc):
    from kmcpy.simulator.kmc import KMC

    kmc.simulation_state.save_checkpoint("between.json")
    k2 = KMC.from_config(config.with_system_changes(initial_occupations=None, initial_state_file="between.json"))
    n = len(kmc.model.log)
    t1, t2 = kmc.run(label="again"), k2.run(label="fresh")
    a, b = fingerprint(kmc, t1), fingerprint(k2, t2)
    a["log"] = a["log"][n:]
    ctx.count("second_runs")
    compare(ctx, a, b, "second-run")


def interleave(ctx, rng, config, base):
    """Two live simulations stepped in random alternation equal their isolated selves."""
    from kmcpy.simulator.kmc import KMC

    other = config.with_runtime_changes(temperature=config.temperature * 1.3, random_seed=11)

    def alone(c, n):
        k = KMC.from_config(c)
        k.rng = np.random.default_rng(c.random_seed)
        return k, drive(k, n)

    def drive(k, n):
        out = []
        for _ in range(n):
            ev, dt = k.propose(k.event_lib.events)
            k.update(ev, dt)
            out.append((tuple(int(v) for v in ev.mobile_ion_indices), float(dt), tuple(int(v) for v in k.simulation_state.occupations)))
        return out

    n = int(rng.integers(15, 40))
    _, ea = alone(config, n)
    _, eb = alone(other, n)
    ka, kb = KMC.from_config(config), KMC.from_config(other)
    ka.rng, kb.rng = np.random.default_rng(config.random_seed), np.random.default_rng(other.random_seed)
    ga, gb = [], []
    while len(ga) < n or len(gb) < n:
        if len(ga) < n and (len(gb) >= n or rng.random() < 0.5):
            ga += drive(ka, 1)
        else:
            gb += drive(kb, 1)
    ctx.count("interleaved_events", 2 * n)
    ctx.check(ga == ea, "interleaved-differs", "first simulation changed when stepped next to another")
    ctx.check(gb == eb, "interleaved-differs", "second simulation changed when stepped next to another")


SCRIPT = r"""
import json, logging, sys
logging.disable(logging.CRITICAL)
import numpy as np
from kmcpy.simulator.config import Configuration
from kmcpy.simulator.kmc import KMC
cfg = Configuration.from_file("cfg.json")
kmc = KMC.from_config(cfg)
tr = kmc.run(label=sys.argv[1])
print("@@" + json.dumps([[list(map(int, e.mobile_ion_indices)), t, list(o)] for e, s, t, o in kmc.model.log]))
"""


def hash_seeds(ctx, rng):
    """Fresh processes with different hash seeds and environments give one trajectory."""
    toy, aso, allowed, occ, config, kind, seed = setup(rng)
    config.to("cfg.json", include_loader_paths=True)
    outs = []
    for h in ("0", "1", "424242"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, "-X", "utf8", "-c", SCRIPT, "h" + h], env=env, capture_output=True, text=True)
        line = next((l for l in p.stdout.splitlines() if l.startswith("@@")), None)
        if not ctx.check(line is not None, "fresh-process-fails", p.stderr[-800:]):
            return
        outs.append(json.loads(line[2:]))
    ctx.count("twin_events", len(outs[0]))
    ctx.check(outs[0] == outs[1] == outs[2] and outs[0], "hash-seed-dependent", "event logs differ between processes")
    fs = [list(files("h" + h).values()) for h in ("0", "1", "424242")]
    ctx.check(fs[0] == fs[1] == fs[2], "hash-seed-files", "files differ between processes")
    ctx.sig("hash", toy.name, kind)


NAMED = {f"hash{k}": hash_seeds for k in range(6)}
