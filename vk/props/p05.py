"""P05: reported transport properties recomputed from the observed trajectory."""
import math

import numpy as np

from ..toys import KB, active_order, allowed_lists, generate_events, make_toy, movable_occupations
from ..trace import traced_run

TECHNIQUE = "runtime monitoring: offline checker recomputing every reported row from the recorded event trace with independently written formulas"
LEVEL = ("exploration", "Every sampled row of every run, and random trajectory arrays fed to the public formula function, against independently written formulas. The conductivity factor and the per-ion correlation factor follow kMCpy's documented conventions.")
CASES = {"quick": 140, "thorough": 1400}
RULE = "random crystal x dimension x charge x temperature x hop distance x starting clock x enabled set, every sampled row; or random arrays into the formula function; distinct by (mode, crystal, dimension, disabled set, clock, rows)"
MIN = {"rows": 1500, "array_sets": 300, "undefined_values": 100}
ASSUMPTIONS = ["documented conventions: 1 Angstrom^2 = 1e-16 cm^2, conductivity factor 1.602e11, correlation factor = mean over ions of |d|^2/(hops a^2) with 0 for ions that never hopped"]
FIELDS = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")


def formulas(disp, hops, t, dim, n, a, vol, q, T):
    nan = float("nan")
    out = dict.fromkeys(FIELDS, nan)
    if n == 0:
        return out
    sq = [float(d @ d) for d in disp]
    out["msd"] = math.fsum(sq) / n
    out["correlation_factor"] = math.fsum(s / (h * a * a) if h else 0.0 for s, h in zip(sq, hops)) / n
    if t > 0:
        tot = np.array([math.fsum(disp[:, k]) for k in range(3)])
        dj = float(tot @ tot) / (2 * dim * t * n) * 1e-16
        dt = out["msd"] / (2 * dim * t) * 1e-16
        out["jump_diffusivity"], out["tracer_diffusivity"] = dj, dt
        out["conductivity"] = dj * (n / vol) * q * q / (KB * T) * 1.602e11
        if dj != 0:
            out["havens_ratio"] = dt / dj
    return out


def same(got, want, scale):
    if math.isnan(want):
        return math.isnan(got)
    return math.isclose(got, want, rel_tol=1e-6, abs_tol=scale)


def judge(ctx, row, want, disabled, where, sumabs2=None):
    for f in FIELDS:
        w = float("nan") if f in disabled else want[f]
        if f == "havens_ratio" and f not in disabled:
            # ill-conditioned when the collective displacement nearly cancels
            if sumabs2 is not None and sumabs2 < 1e-6:
                if sumabs2 > 0:
                    continue
        tiny = 1e-9 * abs(want["tracer_diffusivity"]) if f == "jump_diffusivity" and not math.isnan(want["tracer_diffusivity"]) else 0.0
        if f == "conductivity" and not math.isnan(want["conductivity"]):
            tiny = 1e-9 * abs(want["conductivity"]) + (1e-6 * abs(want["conductivity"]) if sumabs2 is not None and sumabs2 < 1e-6 else 0)
            if sumabs2 is not None and sumabs2 < 1e-6:
                continue
        if math.isnan(w):
            ctx.count("undefined_values")
        ctx.check(same(float(row[f]), w, tiny + 1e-12 if f in ("msd", "correlation_factor") else tiny), f"value-{f}",
                  lambda: f"{where}: {f} reported {row[f]}, trajectory gives {w}")


def arrays(ctx, rng):
    from kmcpy.simulator.property import compute_transport_properties

    for _ in range(12):
        n = int(rng.choice([0, 1, 2, 3, 7, 30]))
        disp = rng.normal(0, 5, (n, 3)) * float(10 ** rng.uniform(-2, 2))
        hops = rng.integers(0, 20, n)
        mode = int(rng.integers(5))
        if n and mode == 0:
            disp[:] = 0.0
        if n >= 2 and mode == 1:
            disp[:] = 0
            disp[0], disp[1] = (3.0, 0, 0), (-3.0, 0, 0)
        hops[np.all(disp != 0, axis=1) & (hops == 0)] = 1
        t = float(rng.choice([0.0, -1.0, 1e-12, 1e-6, 3.5])) * (1 if mode else 1)
        dim = int(rng.integers(1, 4))
        a, vol, q, T = float(rng.uniform(1, 5)), float(rng.uniform(50, 5000)), float(rng.choice([1, 2, -1, 0.5])), float(rng.uniform(50, 2000))
        names = list(FIELDS)
        disabled = {f for f in names if rng.random() < 0.2}
        en = None if not disabled and rng.random() < 0.5 else {f: f not in disabled for f in names if rng.random() < 0.9 or f in disabled}
        row = compute_transport_properties(disp, hops, sim_time=t, dimension=dim, n_mobile_ion_specie=n,
                                           elementary_hop_distance=a, volume=vol, mobile_ion_charge=q, temperature=T, enabled=en)
        ctx.count("array_sets")
        ctx.check(set(row) == set(FIELDS), "fields", f"{sorted(row)}")
        judge(ctx, row, formulas(disp, hops, t, dim, n, a, vol, q, T), disabled, f"arrays n={n} t={t} dim={dim} disabled={sorted(disabled)}")
        ctx.sig("arrays", n, mode, t > 0, dim, sorted(disabled))


def case(ctx, rng, i):
    if i % 3 == 0:
        arrays(ctx, rng)
        return
    toy = make_toy(rng)
    dim = int(rng.integers(1, 4))
    q = float(rng.choice([1.0, 2.0, -1.0]))
    a = float(rng.uniform(1.5, 4.5))
    disabled = sorted(f for f in FIELDS if rng.random() < 0.15)
    kw = dict(dimension=dim, mobile_ion_charge=q, elementary_hop_distance=a)
    if disabled:
        kw["builtin_property_enabled"] = {f: False for f in disabled}
    interval = int(rng.choice([1, 1, 2, 5]))
    t0 = 0.0
    if rng.random() < 0.35:
        from kmcpy.simulator.state import State
        toy.write_cif("toy.cif")
        generate_events(toy)
        al = allowed_lists(active_order(toy))
        occ = movable_occupations(rng, al, toy.mobile)
        t0 = float(10 ** rng.uniform(-13, -3))
        State(occupations=occ, time=t0, step=int(rng.integers(0, 100))).save_checkpoint("ck.json")
        kw.update(initial_occupations=None, initial_state_file="ck.json", occ=occ)
        ctx.count("resumed")
    t = traced_run(rng, toy=toy, equilibration_passes=int(rng.integers(0, 3)), kmc_passes=int(rng.integers(1, 5)),
                   property_sampling_interval=interval, **kw)
    res = t.tracker.results
    want_steps = [s for s in t.shadow_rows if s[0] % interval == 0]
    if not ctx.check(len(res["time"]) == len(want_steps), "rows", lambda: f"{len(res['time'])} rows vs {len(want_steps)}"):
        return
    n = len(t.shadow.hops)
    for k, (step, time, disp, hops) in enumerate(want_steps):
        ctx.count("rows")
        row = {f: res[f][k] for f in FIELDS}
        ctx.check(res["time"][k] == time, "row-time", lambda: f"{res['time'][k]} vs {time}")
        el = time - t0
        # clock round-off limits the elapsed time of resumed runs
        if t0 and el < 1e-6 * t0:
            continue
        s = disp.sum(0)
        judge(ctx, row, formulas(disp, hops, el, dim, n, a, t.volume, q, t.config.temperature), disabled,
              f"{toy.name} step {step} t0={t0:.3g}", sumabs2=float(s @ s))
    # final tuple reports the last row in the documented order
    if res["time"]:
        info = t.tracker.return_current_info()
        last = [res[f][-1] for f in ("time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")]
        ctx.check(all(x == y or (math.isnan(x) and math.isnan(y)) for x, y in zip(info, last)), "latest", f"{info}")
    ctx.sig("run", toy.name, dim, disabled, t0 > 0, len(res["time"]))
    ctx.sample({"case": i, "crystal": toy.name, "dimension": dim, "rows": len(res["time"]), "t0": t0,
                "last": {f: res[f][-1] for f in FIELDS} if res["time"] else None})


def no_time(ctx, rng):
    for _ in range(4 if ctx.tier == "quick" else 40):
        arrays(ctx, rng)


NAMED = {"undefined": no_time}
