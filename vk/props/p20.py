"""P20: configuration round trips, changed copies and refusals."""
import copy
import dataclasses
import json
import math

import numpy as np

from ..toys import build_run

TECHNIQUE = "runtime monitoring: random histories of copy/save/load operations shadowed by a plain-dictionary model, and fault injection of invalid settings"
LEVEL = ("exploration", "Every documented field is compared with a plain-dictionary model after every operation of random histories; invalid settings are injected into configurations and real run set-ups.")
CASES = {"quick": 300, "thorough": 4000}
RULE = "random settings x history of copies, saves and loads over JSON, YAML, sectioned and hand-written files; distinct by (formats used, fields changed)"
MIN = {"round_trips": 250, "refusals": 1000, "runs_refused": 8}
ASSUMPTIONS = ["YAML may change the last bit of a float (third-party parser)", "settings are JSON-like or numpy values, as a script would pass them"]

SYSTEM = ["structure_file", "supercell_shape", "dimension", "mobile_ion_specie", "mobile_ion_charge", "elementary_hop_distance",
          "model_type", "model_file", "event_file", "site_mapping", "convert_to_primitive_cell", "initial_state_file", "initial_occupations"]
RUNTIME = ["temperature", "attempt_frequency", "equilibration_passes", "kmc_passes", "random_seed", "name", "property_sampling_interval",
           "property_sampling_time_interval", "builtin_property_enabled", "property_callbacks"]
LOADER = {"structure_file", "model_file", "event_file", "initial_state_file"}
NAMES = ["run", "yes", "null", "1e3", "007", "with: colon", "#hash", "ünï", "- dash", "", "a'b\"c", "line\nbreak", "True", "~", " lead"]
BUILTIN = ["msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"]


def rand_settings(rng):
    def path(ext):
        return ["in/put" + ext, "/abs/x y" + ext, "Ünï" + ext, "no" + ext][int(rng.integers(4))]

    d = {
        "structure_file": path(".cif"),
        "supercell_shape": [int(v) for v in rng.integers(1, 5, 3)],
        "dimension": int(rng.integers(1, 4)),
        "mobile_ion_specie": str(rng.choice(["Na", "Li", "No", "Y", "N"])),
        "mobile_ion_charge": float(rng.choice([1.0, -1.0, 2.0, 0.1])),
        "elementary_hop_distance": float(rng.uniform(0.1, 9)),
        "model_type": str(rng.choice(["composite_lce", "lce", "local_barrier"])),
        "model_file": path(".json"),
        "event_file": path(".json"),
        "site_mapping": {"Na": ["Na", "X"], "O": "O", "Si": ["Si", "P", "Al"]} if rng.random() < 0.9 else None,
        "convert_to_primitive_cell": bool(rng.random() < 0.5),
        "initial_state_file": path(".json") if rng.random() < 0.4 else None,
        "initial_occupations": [int(v) for v in rng.integers(0, 3, int(rng.integers(1, 30)))] if rng.random() < 0.7 else None,
        "temperature": float(rng.choice([300.0, 1e-3, 1 / 3, 1234.56789012345, 1e5])),
        "attempt_frequency": float(10 ** rng.uniform(-3, 16)),
        "equilibration_passes": int(rng.integers(0, 10**6)),
        "kmc_passes": int(rng.integers(1, 10**9)),
        "random_seed": [None, 0, int(rng.integers(2**31)), 2**40][int(rng.integers(4))],
        "name": NAMES[int(rng.integers(len(NAMES)))],
        "property_sampling_interval": int(rng.integers(1, 1000)) if rng.random() < 0.5 else None,
        "property_sampling_time_interval": float(10 ** rng.uniform(-15, 3)) if rng.random() < 0.5 else None,
        "builtin_property_enabled": {k: bool(rng.random() < 0.5) for k in BUILTIN if rng.random() < 0.4},
        "property_callbacks": [
            {"callable": "vk.cbs:probe", "name": f"cb{k}", "interval": int(rng.integers(1, 50)), "store": bool(rng.random() < 0.5),
             "max_records": int(rng.integers(1, 9)), "enabled": bool(rng.random() < 0.5)}
            for k in range(int(rng.integers(0, 3)))],
    }
    drop = [k for k in d if rng.random() < 0.15]
    for k in drop:
        d.pop(k)
    if not d:
        d["temperature"] = 400.0
    return d


DEFAULTS = {
    "structure_file": "", "supercell_shape": [1, 1, 1], "dimension": 3, "mobile_ion_specie": "Li", "mobile_ion_charge": 1.0,
    "elementary_hop_distance": 1.0, "model_type": "composite_lce", "model_file": "", "event_file": "", "site_mapping": None,
    "convert_to_primitive_cell": False, "initial_state_file": None, "initial_occupations": None, "temperature": 300.0,
    "attempt_frequency": 1e13, "equilibration_passes": 1000, "kmc_passes": 10000, "random_seed": None, "name": "DefaultSimulation",
    "property_sampling_interval": None, "property_sampling_time_interval": None, "builtin_property_enabled": {}, "property_callbacks": [],
}


def plain(v):
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    return v


def numpyfy(rng, d):
    """The same settings as a script would pass them (tuples, numpy values)."""
    out = copy.deepcopy(d)
    for k, v in d.items():
        u = rng.random()
        if k in ("initial_occupations", "supercell_shape") and v is not None:
            out[k] = np.array(v) if u < 0.2 else tuple(v) if u < 0.5 else [np.int64(x) for x in v] if u < 0.6 else list(v)
        elif isinstance(v, float) and u < 0.2:
            out[k] = np.float64(v)
        elif k in ("random_seed", "kmc_passes") and isinstance(v, int) and v is not None and u < 0.2:
            out[k] = np.int64(v)
    return out


def view(cfg):
    return {f: plain(getattr(cfg, f)) for f in SYSTEM + RUNTIME}


def eq(a, b):
    """Equal values; YAML (ruamel) may lose the last bit of a float."""
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-14)
    return a == b


def agree(ctx, cfg, want, key, where):
    got = view(cfg)
    bad = {f: (got[f], want[f]) for f in want if not eq(got[f], want[f]) or type(got[f]) is not type(want[f]) and not isinstance(want[f], (int, float))}
    ctx.check(not bad, key, lambda: f"{where}: {str(bad)[:600]}")


def save_load(ctx, rng, cfg, model):
    from kmcpy.simulator.config import Configuration

    kind = ["json", "yaml", "yml", "section", "dict", "template", "hand_json", "msonable"][int(rng.integers(8))]
    ctx.count("round_trips")
    want = dict(model)
    if kind in ("json", "yaml", "yml"):
        cfg.to(f"c.{kind}", include_loader_paths=True)
        out = Configuration.from_file(f"c.{kind}")
    elif kind == "section":
        from ruamel.yaml import YAML

        y = YAML(typ="safe")
        fn = "wf.yaml"
        other = {"fit": {"type": "x", "x": {"alpha": 0.1, "list": [1, 2]}}, "kmc_other": {"temperature": 5}}
        if rng.random() < 0.7:
            with open(fn, "w") as fh:
                YAML().dump(other, fh)
        else:
            other = {}
        sec = str(rng.choice(["kmc", "production"]))
        task = str(rng.choice(["default", "second"]))
        if rng.random() < 0.4:  # an earlier configuration in the same section is replaced by the one written last
            cfg.with_runtime_changes(temperature=cfg.temperature + 11.0, name="earlier").to(fn, include_loader_paths=True, section=sec, task_type=str(rng.choice(["default", "second", "third"])))
        cfg.to(fn, include_loader_paths=True, section=sec, task_type=task)
        if rng.random() < 0.5 or sec != "kmc" :
            out = Configuration.from_file(fn, section=sec, task_type=task if rng.random() < 0.5 else None)
        else:
            out = Configuration.from_file(fn)
        data = y.load(open(fn))
        ctx.check(all(data.get(k) == v for k, v in other.items()), "other-sections", lambda: f"{data}")
        import os

        os.unlink(fn)
    elif kind == "dict":
        out = Configuration.from_dict(json.loads(json.dumps(plain(cfg.as_dict(include_loader_paths=True)))))
    elif kind == "msonable":
        from monty.json import MontyDecoder, MontyEncoder

        out = MontyDecoder().decode(json.dumps(cfg.as_dict(include_loader_paths=True), cls=MontyEncoder))
    elif kind == "template":
        body = plain(cfg.as_dict(include_loader_paths=True))
        json.dump({"kmc": {"type": "default", "default": body}} if rng.random() < 0.5 else {"kmc": body}, open("t.json", "w"))
        out = Configuration.from_file("t.json")
    else:
        json.dump({k: v for k, v in model.items() if v != DEFAULTS[k] or rng.random() < 0.5} | {"temperature": model["temperature"]}, open("h.json", "w"))
        out = Configuration.from_file("h.json")
    agree(ctx, out, want, f"round-trip-{kind}", kind)
    # the recorded form keeps everything except loader paths
    rec = plain(cfg.as_record_dict())
    ctx.check(all(eq(rec.get(f), want[f]) for f in want if f not in LOADER), "record-form", lambda: f"{ {f: (rec.get(f), want[f]) for f in want if f not in LOADER and rec.get(f) != want[f]} }")
    return out, kind


def change(ctx, rng, cfg, model):
    new = rand_settings(rng)
    keys = [k for k in new if rng.random() < 0.25]
    rt = {k: new[k] for k in keys if k in RUNTIME}
    sy = {k: new[k] for k in keys if k in SYSTEM}
    before = view(cfg)
    out = cfg
    if rt:
        out = out.with_runtime_changes(**copy.deepcopy(rt))
    if sy:
        out = out.with_system_changes(**copy.deepcopy(sy))
    m2 = {**model, **rt, **sy}
    agree(ctx, out, m2, "changed-copy", f"changed {keys}")
    ctx.check(view(cfg) == before, "original-changed", f"changing {keys} altered the original")
    return out, m2, keys


BAD = [
    ("dimension", 0), ("dimension", 4), ("dimension", -1), ("dimension", "3d"), ("dimension", 2.5),
    ("supercell_shape", (1, 1)), ("supercell_shape", (1, 1, 1, 1)), ("supercell_shape", ()), ("supercell_shape", (2.5, 1, 1)), ("supercell_shape", (1, 1, 1.0001)),
    ("temperature", 0.0), ("temperature", -5.0), ("temperature", float("nan")), ("temperature", -math.inf),
    ("attempt_frequency", 0.0), ("attempt_frequency", -1e13), ("attempt_frequency", float("nan")),
    ("equilibration_passes", -1), ("kmc_passes", 0), ("kmc_passes", -3),
    ("property_sampling_interval", 0), ("property_sampling_interval", -2), ("property_sampling_interval", 2.5), ("property_sampling_interval", "3"),
    ("property_sampling_time_interval", 0.0), ("property_sampling_time_interval", -1e-9),
    ("builtin_property_enabled", {"speed": True}), ("builtin_property_enabled", {"msd": "yes"}), ("builtin_property_enabled", ["msd"]), ("builtin_property_enabled", {"msd": 1}),
    ("property_callbacks", {"callable": "a:b"}), ("property_callbacks", ["a:b"]), ("property_callbacks", [{"name": "x"}]), ("property_callbacks", [{"callable": " "}]),
    ("property_callbacks", [{"callable": "a:b", "interval": 0}]), ("property_callbacks", [{"callable": "a:b", "interval": 1.5}]),
    ("property_callbacks", [{"callable": "a:b", "time_interval": -1}]), ("property_callbacks", [{"callable": "a:b", "max_records": 0}]),
    ("property_callbacks", [{"callable": "a:b", "max_records": 2.5}]), ("property_callbacks", [{"callable": "a:b", "store": 1}]),
    ("property_callbacks", [{"callable": "a:b", "enabled": "no"}]), ("property_callbacks", [{"callable": "a:b", "frequency": 3}]),
    ("property_callbacks", [{"callable": 5}]), ("property_callbacks", [{"callable": "a:b"}, {"callable": "c:d", "max_records": -1}]),
]
TYPOS = ["temprature", "Temperature", "kmc_pass", "supercell", "seed", "equ_pass", "v", "mobile_ion", "initial_occupation", "events"]


def refusals(ctx, rng, cfg, model):
    from kmcpy.simulator.config import Configuration

    for _ in range(6):
        k, v = BAD[int(rng.integers(len(BAD)))]
        how = int(rng.integers(4))
        ctx.count("refusals")
        base = {**{x: y for x, y in model.items() if y is not None}, k: v}
        if how == 0:
            fn = lambda: Configuration(**copy.deepcopy(base))
        elif how == 1:
            fn = lambda: (cfg.with_runtime_changes if k in RUNTIME else cfg.with_system_changes)(**{k: v})
        elif how == 2:
            json.dump(plain(base), open("bad.json", "w"))
            fn = lambda: Configuration.from_file("bad.json")
        else:
            fn = lambda: Configuration(system_config=cfg.system_config, runtime_config=cfg.runtime_config, **{k: v})
        ctx.expect_raises(fn, Exception, f"accepted-{k}", f"{k}={v!r} via {how}")
    t = TYPOS[int(rng.integers(len(TYPOS)))]
    ctx.count("refusals", 3)
    ctx.expect_raises(lambda: Configuration(**{**model, t: 1}), Exception, "typo-accepted", t)
    json.dump({**plain(model), t: 1}, open("typo.json", "w"))
    ctx.expect_raises(lambda: Configuration.from_file("typo.json"), Exception, "typo-accepted", t + " in file")
    ctx.expect_raises(lambda: cfg.with_runtime_changes(**{t: 1}), Exception, "typo-accepted", t + " in change")
    ctx.expect_raises(lambda: Configuration.from_file("nofile.json"), Exception, "missing-file", "")
    ctx.expect_raises(lambda: Configuration(), Exception, "empty-accepted", "")
    json.dump([1, 2], open("l.json", "w"))
    ctx.expect_raises(lambda: Configuration.from_file("l.json"), Exception, "list-accepted", "")
    ctx.expect_raises(lambda: cfg.to("x.txt"), Exception, "format-accepted", "")
    # immutability
    for f in ("temperature", "supercell_shape"):
        ctx.expect_raises(lambda: setattr(cfg, f, 1), Exception, "mutable", f)
    for part, f in ((cfg.runtime_config, "temperature"), (cfg.system_config, "dimension")):
        ctx.expect_raises(lambda: setattr(part, f, 1), Exception, "mutable", f)


def case(ctx, rng, i):
    from kmcpy.simulator.config import Configuration

    s = rand_settings(rng)
    given = numpyfy(rng, s)
    snapshot = copy.deepcopy(given)
    cfg = Configuration(**given)
    model = {**copy.deepcopy(DEFAULTS), **copy.deepcopy(s)}
    agree(ctx, cfg, model, "construct", "construct")
    hist = []
    for _ in range(int(rng.integers(2, 6))):
        if rng.random() < 0.5:
            cfg, kind = save_load(ctx, rng, cfg, model)
            hist.append(kind)
        else:
            cfg, model, keys = change(ctx, rng, cfg, model)
            hist.append(sorted(keys))
    ctx.check(str(plain(given)) == str(plain(snapshot)), "input-mutated", "settings passed in were changed")
    refusals(ctx, rng, cfg, model)
    ctx.sig(hist)
    ctx.sample({"history": hist})


def run_refusals(ctx, rng):
    """Settings that only a set-up can judge are refused before any event is made."""
    from kmcpy.simulator.kmc import KMC

    toy, aso, allowed, occ, config, kmc = build_run(rng)
    sysbad = [
        dict(structure_file=""), dict(structure_file="missing.cif"), dict(event_file=""), dict(event_file="missing.json"),
        dict(model_file="missing.json"), dict(site_mapping=None), dict(site_mapping={}), dict(site_mapping={"Zz": ["Zz", "X"]}),
        dict(supercell_shape=(0, 1, 1)), dict(supercell_shape=(-1, 2, 2)), dict(mobile_ion_specie="Zr"), dict(mobile_ion_specie="na"),
        dict(initial_occupations=None), dict(initial_occupations=[]), dict(initial_occupations=list(occ)[:-1]),
        dict(initial_occupations=None, initial_state_file="missing.json"),
    ]
    for kw in sysbad:
        cfg = config.with_system_changes(**kw)
        log = []

        def go():
            k = KMC.from_config(cfg)
            k.run("never")
            return k

        ctx.count("runs_refused")
        ctx.expect_raises(go, Exception, "run-accepted", f"{kw}")
    for ref in ("nomodule:fn", "vk.cbs:missing", "vk.cbs.CALLS", "justaname"):
        cfg = config.with_runtime_changes(property_callbacks=[{"callable": ref}])
        ctx.count("runs_refused")
        ctx.expect_raises(lambda: KMC.from_config(cfg).run("never"), Exception, "callback-accepted", ref)


NAMED = {f"run_refusals{k}": run_refusals for k in range(3)}
