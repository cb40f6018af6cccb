"""P03: selection probabilities and waiting times of the real propose step."""
import numpy as np
from scipy import stats

from ..toys import build_run, make_toy, random_barrier_payload

TECHNIQUE = "runtime monitoring: offline statistical checkers (exact binomial, Kolmogorov-Smirnov) over recorded choices and waiting times, plus crafted extreme generator states"
LEVEL = ("exploration", "Each recorded choice/waiting time of fixed rate vectors and of whole runs is tested against the exact distribution with per-test false-alarm probability 1e-10; deviations of a few percent in probability are visible, smaller ones are not. Extreme draws are forced through crafted generator states.")
CASES = {"quick": 48, "thorough": 480}
RULE = "random rate vector (length, zeros, dynamic range) x seed with 4000 draws, or a whole run with its changing rate vectors; distinct by (mode, length, zeros, decade range)"
MIN = {"draws": 50000, "run_events": 5000, "edge_draws": 2000}
ASSUMPTIONS = ["numpy's PCG64 stream is uniform and independent"]
P_FALSE = 1e-10
MULT = 0x2360ED051FC65DA44385DF649FCCF645
M128 = (1 << 128) - 1
M64 = (1 << 64) - 1


def sim(rng):
    return build_run(rng, toy=make_toy(rng, "chain"), spy=True)[-1]


def random_rates(rng):
    n = int(rng.choice([1, 2, 3, 5, 8, 17, 40, 100]))
    style = int(rng.integers(4))
    if style == 0:
        r = rng.random(n) + 0.1
    elif style == 1:
        r = 10 ** rng.uniform(-6, 6, n)
    elif style == 2:
        r = rng.integers(0, 4, n).astype(float) * 1e12
    else:
        r = np.full(n, float(10 ** rng.uniform(-3, 13)))
    if n > 2 and rng.random() < 0.7:
        z = rng.random(n) < 0.4
        edge = int(rng.integers(4))
        if edge in (1, 3):
            z[: max(1, n // 4)] = True
        if edge in (2, 3):
            z[-max(1, n // 4):] = True
        r[z] = 0.0
    if not (r > 0).any():
        r[int(rng.integers(n))] = 1.0
    return r, style


def load_rates(kmc, r):
    kmc.prob_list = np.array(r, float)
    kmc.prob_cum_list = np.cumsum(kmc.prob_list)


def ks_exp(x):
    return stats.kstest(x, "expon").pvalue


def fixed_vector(ctx, rng, i, kmc, draws):
    r, style = random_rates(rng)
    load_rates(kmc, r)
    kmc.rng = np.random.default_rng(int(rng.integers(2**63)))
    n = len(r)
    tokens = list(range(n))
    idx = np.empty(draws, int)
    dts = np.empty(draws)
    for k in range(draws):
        out = kmc.propose(tokens)
        idx[k], dts[k] = out[0], out[1]
    ctx.count("draws", draws)
    p = r / r.sum()
    ctx.check(np.all(r[idx] > 0), "zero-rate-chosen", lambda: f"rates {r.tolist()[:10]} chose {np.flatnonzero(r[idx] <= 0)[:3]}")
    ctx.check(np.all(np.isfinite(dts)) and np.all(dts >= 0), "bad-dt", lambda: f"{dts.min()} {dts.max()}")
    counts = np.bincount(idx, minlength=n)
    for e in range(n):
        if p[e] == 0:
            continue
        lo = stats.binom.cdf(counts[e], draws, p[e])
        hi = stats.binom.sf(counts[e] - 1, draws, p[e])
        ctx.check(min(lo, hi) > P_FALSE, "selection-bias",
                  lambda: f"event {e} of {n}: probability {p[e]:.4g}, chosen {counts[e]}/{draws}")
    cum = np.cumsum(p)
    u = np.concatenate([[0], cum[:-1]])[idx] + rng.random(draws) * p[idx]
    ctx.check(stats.kstest(np.clip(u, 0, 1), "uniform").pvalue > P_FALSE, "selection-bias", "cumulative distribution of chosen events is off")
    x = dts * r.sum()
    ctx.check(ks_exp(x) > P_FALSE, "waiting-time", lambda: f"dt*total is not Exp(1): mean {x.mean():.4f} var {x.var():.4f} total {r.sum():.4g}")
    # independence of choice and time
    half = u < 0.5
    for g in (half, ~half):
        if g.sum() > 200:
            ctx.check(ks_exp(x[g]) > P_FALSE, "time-depends-on-choice", "")
    if draws > 100:   # consecutive draws independent
        ctx.check(abs(np.corrcoef(u[:-1], u[1:])[0, 1]) < 6.6 / np.sqrt(draws), "serial-correlation", "choices")
        ctx.check(abs(np.corrcoef(u, np.exp(-x))[0, 1]) < 6.6 / np.sqrt(draws), "time-depends-on-choice", "")
        ctx.check(abs(np.corrcoef(np.exp(-x[:-1]), np.exp(-x[1:]))[0, 1]) < 6.6 / np.sqrt(draws), "serial-correlation", "times")
    pos = r[r > 0]
    ctx.sig("vector", n, int((r == 0).sum()), int(np.log10(pos.max() / pos.min())), style)
    ctx.sample({"case": i, "rates": r[:8].tolist(), "counts": counts[:8].tolist(), "mean_dt_x_total": float(x.mean())})


def whole_run(ctx, rng, i, passes):
    toy, aso, allowed, occ, config, kmc = build_run(
        rng, equilibration_passes=int(rng.integers(0, 3)), kmc_passes=passes,
        model_payload=lambda rng, toy, aso, allowed: random_barrier_payload(rng, allowed, n_rules=4))
    index = {id(e): k for k, e in enumerate(kmc.event_lib.events)}
    from kmcpy.simulator.state import State
    spy = kmc.model
    rc = kmc.config.runtime_config

    def rates(occupations):
        st = State(occupations=list(occupations))
        return np.array([float(spy.inner.compute_probability(event=e, runtime_config=rc, simulation_state=st))
                         for e in kmc.event_lib.events])

    pend = {"occ": list(occ)}
    rows = []

    def on_apply(event, state):
        rows.append((index[id(event)], rates(pend["occ"]), state.time))
        pend["occ"] = list(state.occupations)

    spy.on_apply = on_apply
    kmc.run()
    us, us2, xs = [], [], []
    t_prev = 0.0
    perm = {}
    for k, p, t in rows:
        tot = p.sum()
        ctx.check(p[k] > 0, "zero-rate-chosen", f"event {k} had rate 0")
        q = p / tot
        us.append(q[:k].sum() + rng.random() * q[k])
        order = perm.setdefault(len(q), rng.permutation(len(q)))
        pos = int(np.flatnonzero(order == k)[0])
        us2.append(q[order[:pos]].sum() + rng.random() * q[k])
        if t > 0:
            xs.append((t - t_prev) * tot)
        t_prev = t
    ctx.count("run_events", len(rows))
    ctx.check(stats.kstest(np.clip(us, 0, 1), "uniform").pvalue > P_FALSE, "run-selection-bias", f"{len(us)} events")
    ctx.check(stats.kstest(np.clip(us2, 0, 1), "uniform").pvalue > P_FALSE, "run-selection-bias", f"{len(us)} events (permuted)")
    ctx.check(ks_exp(np.array(xs)) > P_FALSE, "run-waiting-time", lambda: f"{len(xs)} events mean {np.mean(xs):.4f}")
    ctx.sig("run", toy.name, len(rows))


def craft(first=None, second=None, rng=None):
    """PCG64 whose first (or second) output word is 0 or all ones."""
    inc = (int(rng.integers(2**63)) << 65 | int(rng.integers(2**63)) << 1 | 1) & M128
    inv = pow(MULT, -1, 1 << 128)
    word = first if first is not None else second
    hi = int(rng.integers(2**63)) * 2 + int(rng.integers(2))
    rot = hi >> 58
    x = ((word << rot) | (word >> (64 - rot))) & M64 if rot else word   # rotl undoes rotr
    s = (hi << 64) | (hi ^ x)
    steps = 1 if first is not None else 2
    for _ in range(steps):
        s = ((s - inc) * inv) & M128
    bg = np.random.PCG64()
    bg.state = {"bit_generator": "PCG64", "state": {"state": s, "inc": inc}, "has_uint32": 0, "uinteger": 0}
    return np.random.Generator(bg)


def edges(ctx, rng):
    kmc = sim(rng)
    for k in range(60 if ctx.tier == "quick" else 600):
        r, _ = random_rates(rng)
        if k % 5 == 0:  # enormous dynamic range
            r = r * 10.0 ** rng.integers(-150, 120)
        load_rates(kmc, r)
        tokens = list(range(len(r)))
        for word in (0, M64, 1, M64 - 1, 1 << 11, (1 << 11) - 1, M64 - (1 << 11)):
            for kw in ({"first": word}, {"second": word}):
                kmc.rng = craft(rng=rng, **kw)
                for _ in range(3):
                    ctx.count("edge_draws")
                    try:
                        e, dt = kmc.propose(tokens)[:2]
                    except Exception as exc:
                        ctx.fail("edge-draw-error", f"{type(exc).__name__} {exc} rates {r[:8].tolist()} word {word} {list(kw)}")
                        continue
                    ctx.check(r[e] > 0, "edge-zero-rate-chosen", lambda: f"rates {r.tolist()[:12]} word {word} {list(kw)} chose {e}")
                    ctx.check(np.isfinite(dt) and dt >= 0, "edge-bad-dt", lambda: f"dt={dt} for extreme draw {word} {list(kw)}")
        ctx.sig("edge", len(r), int((r == 0).sum()))


def stuck(ctx, rng):
    """No possible event: an error, not an invalid step."""
    for k in range(8 if ctx.tier == "quick" else 60):
        toy = make_toy(rng)
        toy.write_cif("toy.cif")
        from ..toys import active_order, allowed_lists, VACS
        allowed = allowed_lists(active_order(toy))
        full = k % 2 == 0
        occ = []
        for a in allowed:
            vac = next((s for s, v in enumerate(a) if v in VACS), None)
            if toy.mobile in a and full:
                occ.append(a.index(toy.mobile))
            elif vac is not None and not full:
                occ.append(vac)
            else:
                occ.append(0)
        _, _, _, _, _, kmc = build_run(rng, toy=toy, occ=occ, equilibration_passes=k % 3 // 2, kmc_passes=1)
        rows = []
        kmc.attach(lambda s, step, t: rows.append(t), interval=1, name="vk_stuck", store=False)
        ctx.check(float(np.sum(kmc.prob_list)) == 0.0, "blocked-has-rate", lambda: f"{toy.name} {occ}")
        try:
            kmc.run()
            ctx.fail("advanced-without-event", f"{toy.name} full={full}: run finished, times {rows[:3]}")
        except Exception as exc:
            ctx.count("refused_" + type(exc).__name__)
        ctx.check(list(kmc.simulation_state.occupations) == list(occ), "state-changed-without-event", "")
        ctx.check(kmc.simulation_state.time == 0 and not rows, "time-advanced-without-event", "")
        ctx.sig("stuck", toy.name, full)


def trapped(ctx, rng):
    """One ion walks until it falls into a site it cannot leave: the run must stop with an error right there."""
    from ..toys import active_order, allowed_lists, VACS
    for k in range(10 if ctx.tier == "quick" else 80):
        toy = make_toy(rng, exclude=("twosub",))
        toy.write_cif("toy.cif")
        allowed = allowed_lists(active_order(toy))
        occ = [next((s for s, v in enumerate(a) if v in VACS), 0) for a in allowed]
        _, _, _, _, _, kmc = build_run(rng, toy=toy, occ=occ, spy=True, equilibration_passes=k % 2, kmc_passes=400)
        ends = [tuple(int(v) for v in e.mobile_ion_indices) for e in kmc.event_lib.events]
        start, trap = ends[int(rng.integers(len(ends)))]
        occ[start] = allowed[start].index(toy.mobile)
        _, _, _, _, _, kmc = build_run(rng, toy=toy, occ=occ, spy=True, equilibration_passes=k % 2, kmc_passes=400)
        spy = kmc.model
        code = allowed[trap].index(toy.mobile)
        full = spy.inner.compute_probability
        spy.rate_override = lambda event, rc, st: 0.0 if int(st.occupations[trap]) == code else full(event=event, runtime_config=rc, simulation_state=st)
        times = []
        kmc.attach(lambda s, step, t: times.append(t), interval=1, name="vk_trap", store=False)
        try:
            kmc.run()
            died = False
        except Exception as exc:
            died = True
            ctx.count("refused_" + type(exc).__name__)
        inside = [n for n, row in enumerate(spy.log) if row[3][trap] == code]
        if not inside:
            ctx.count("never_trapped")
            continue
        ctx.count("trapped")
        ctx.check(died and inside == [len(spy.log) - 1], "advanced-without-event", lambda: f"{toy.name}: {len(spy.log) - 1 - inside[0]} events after no event was possible (run {'ended in an error' if died else 'finished'})")
        ctx.check(all(np.isfinite(t) for t in times) and int(kmc.simulation_state.occupations[trap]) == code, "state-changed-without-event", "after falling into the trap")
        ctx.sig("trap", toy.name, len(spy.log))


def unbounded(ctx, rng):
    """Rates that are no numbers, or too large or small for a waiting time: an error, not an invalid step."""
    from ..toys import active_order, allowed_lists, VACS
    for k in range(12 if ctx.tier == "quick" else 90):
        toy = make_toy(rng, exclude=("twosub",))
        toy.write_cif("toy.cif")
        allowed = allowed_lists(active_order(toy))
        occ = [next((s for s, v in enumerate(a) if v in VACS), 0) for a in allowed]
        _, _, _, _, _, kmc = build_run(rng, toy=toy, occ=occ, spy=True, kmc_passes=1)
        ends = [tuple(int(v) for v in e.mobile_ion_indices) for e in kmc.event_lib.events]
        start, trap = ends[int(rng.integers(len(ends)))]
        occ[start] = allowed[start].index(toy.mobile)
        _, _, _, _, _, kmc = build_run(rng, toy=toy, occ=occ, spy=True, equilibration_passes=k % 2, kmc_passes=400)
        spy = kmc.model
        code = allowed[trap].index(toy.mobile)
        full = spy.inner.compute_probability
        what = [float("nan"), float("inf"), 1.6e308, 1e-321][k // 2 % 4]
        many = int(rng.integers(2)) or what in (1.6e308, 1e-321)

        def rate(event, rc, st):
            r = full(event=event, runtime_config=rc, simulation_state=st)
            if int(st.occupations[trap]) != code:
                return r
            ends_here = tuple(int(v) for v in event.mobile_ion_indices)
            if not (r > 0 and (many or ends_here in ((trap, start), (start, trap)))):
                return r
            hit.add(ends_here)
            return what

        hit = set()
        spy.rate_override = rate
        times = []
        kmc.attach(lambda s, step, t: times.append(t), interval=1, name="vk_unbounded", store=False)
        try:
            kmc.run()
            died = False
        except Exception as exc:
            died = True
            ctx.count("refused_" + type(exc).__name__)
        inside = [n for n, row in enumerate(spy.log) if row[3][trap] == code]
        if not inside or not hit or (what == 1.6e308 and len(hit) < 2):
            ctx.count("never_trapped")
            continue
        ctx.count("unbounded_totals")
        ctx.check(died and inside == [len(spy.log) - 1], "advanced-without-total", lambda: f"{toy.name}: {len(spy.log) - 1 - inside[0]} events after a rate of {what} (run {'ended in an error' if died else 'finished'})")
        ctx.check(all(np.isfinite(t) for t in times) and int(kmc.simulation_state.occupations[trap]) == code, "state-changed-without-total", f"after a rate of {what}")
        ctx.sig("unbounded", toy.name, str(what), len(spy.log))


NAMED = {"edge-draws": edges, "unbounded": unbounded, "no-possible-event": stuck, "trapped": trapped}


def case(ctx, rng, i):
    if i % 3 == 2:
        whole_run(ctx, rng, i, 30 if ctx.tier == "quick" else 60)
        return
    kmc = sim(rng)
    for _ in range(2):
        fixed_vector(ctx, rng, i, kmc, 4000)
