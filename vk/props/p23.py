"""P23: fits minimise the documented objective, and their reports are true."""
import json
import os

import numpy as np

from .. import lceoracle as L
from .p14 import evaluate
from .p24 import decorate, row, setting

TECHNIQUE = "runtime monitoring: every fit of a random data set is judged by an independent objective and a tight coordinate-descent minimiser, its reports are recomputed from the files, and the fitted model is evaluated on the structures it was fitted to"
LEVEL = ("exploration", "Random correlation matrices, targets, weights, penalties and normalisation; objective value, in-sample and leave-one-out errors, files, histories and the model's own predictions are recomputed independently.")
CASES = {"quick": 320, "thorough": 6000}
RULE = "matrix kind x size x weights x penalty x normalisation x file options; distinct by (kind, size, weights, penalty decade, normalisation)"
MIN = {"fits": 200, "optimality_checks": 200, "unscaled_fits": 80, "weighted_fits": 120, "exact_recoveries": 12, "loo_checks": 80, "histories": 40, "end_to_end": 15, "model_evaluations": 150, "refusals": 80, "single_cluster": 15, "zero_weights": 15}
ASSUMPTIONS = ["the solver may stop at a duality gap of 1e-4 of the squared targets (scikit-learn's default)", "leave-one-out errors are compared where the data determine the fit"]


def scaled(X, y, w, normalize):
    """Centred problem as documented: columns of unit length when normalising."""
    xo, yo = np.average(X, axis=0, weights=w), np.average(y, weights=w)
    Xc, yc = X - xo, y - yo
    s = np.sqrt((Xc ** 2).sum(0)) if normalize else np.ones(X.shape[1])
    s = np.where(s == 0, 1.0, s)
    return Xc / s, yc, s, xo, yo


def objective(Z, yc, w, alpha, b):
    return float((w * (yc - Z @ b) ** 2).sum() / (2 * len(yc)) + alpha * np.abs(b).sum())


def solve(Z, yc, w, alpha, sweeps=1500):
    n, p = Z.shape
    b, r = np.zeros(p), yc.copy()
    a = (w[:, None] * Z ** 2).sum(0) / n
    for _ in range(sweeps):
        big = 0.0
        for j in range(p):
            if a[j] <= 1e-14:
                continue
            g = (w * Z[:, j] * r).sum() / n + a[j] * b[j]
            new = np.sign(g) * max(abs(g) - alpha, 0.0) / a[j]
            d = new - b[j]
            if d:
                r -= d * Z[:, j]
                b[j] = new
                big = max(big, abs(d) * np.sqrt(a[j]))
        if big < 1e-9:
            break
    return b


def design(rng, m, n):
    k = int(rng.integers(4))
    if k == 0:
        X = rng.choice([-1.0, 1.0], (m, n))
    elif k == 1:
        X = rng.integers(-3, 4, (m, n)).astype(float)
    elif k == 2:  # orbit sums of different multiplicity
        mult = rng.integers(1, 13, n)
        X = np.stack([rng.choice([-1.0, 1.0], (m, q)).sum(1) for q in mult], 1)
    else:
        X = rng.normal(size=(m, n)) * rng.uniform(0.1, 5, n)
    if n > 2 and rng.random() < 0.15:
        X[:, int(rng.integers(n))] = float(rng.choice([0.0, 1.0, -2.0]))
    return X, k


def weights(rng, m):
    r = rng.random()
    if r < 0.3:
        return np.ones(m), "unit"
    if r < 0.45:
        return np.full(m, float(rng.uniform(0.1, 8))), "uniform"
    w = rng.uniform(0.1, 6, m)
    if r < 0.6 and m > 4:
        w[rng.choice(m, int(rng.integers(1, max(2, m // 4 + 1))), replace=False)] = 0.0
        return w, "zeros"
    return w, "random"


def write(X, y, w):
    np.savetxt("c.txt", X, fmt="%.18e")
    np.savetxt("y.txt", y, fmt="%.18e")
    np.savetxt("w.txt", w, fmt="%.18e")
    return {"corr_fname": "c.txt", "ekra_fname": "y.txt", "weight_fname": "w.txt"}


def judge(ctx, note, X, y, w, alpha, normalize, keci, empty, rmse, y_pred, y_true):
    """Optimality and truth of the reports. Returns the objective scale."""
    m, n = X.shape
    wn = w * m / w.sum()
    ctx.check(np.asarray(keci).shape == (n,), "coefficient-count", f"{note}: {np.shape(keci)} for {n}")
    if np.asarray(keci).shape != (n,):
        return
    ctx.check(np.array_equal(np.asarray(y_true), y), "targets", note)
    spread = float(np.abs(y).max() + 1)
    ctx.check(np.allclose(y_pred, X @ keci + empty, rtol=0, atol=1e-8 * spread), "predictions", lambda: f"{note}: {np.abs(y_pred - X @ keci - empty).max()}")
    ctx.check(abs(rmse - np.sqrt(np.mean((y - X @ keci - empty) ** 2))) < 1e-8 * spread, "rmse", lambda: f"{note}: {rmse} for {np.sqrt(np.mean((y - X @ keci - empty) ** 2))}")
    Z, yc, s, xo, yo = scaled(X, y, wn, normalize)
    b = np.asarray(keci) * s
    # the constant must balance the weighted residuals
    ctx.check(abs((wn * (y - X @ keci - empty)).sum() / m) < 1e-7 * spread, "constant", lambda: f"{note}: mean residual {(wn * (y - X @ keci - empty)).sum() / m}")
    mine = solve(Z, yc, wn, alpha)
    got, best = objective(Z, yc, wn, alpha, b), objective(Z, yc, wn, alpha, mine)
    slack = 2.5e-4 * float((wn * yc ** 2).sum()) / (2 * m) * 2 + 1e-10
    ctx.count("optimality_checks")
    ctx.check(got <= best + slack, "not-minimal", lambda: f"{note}: objective {got} against {best} (slack {slack}), coefficients {list(keci)} against {(mine / s).tolist()}")


def loo(X, y, alpha, normalize):
    e = []
    for k in range(len(y)):
        t = np.arange(len(y)) != k
        Z, yc, s, xo, yo = scaled(X[t], y[t], np.ones(len(y) - 1), normalize)
        c = solve(Z, yc, np.ones(len(y) - 1), alpha) / s
        e.append((y[k] - (X[k] - xo) @ c - yo) ** 2)
    return float(np.sqrt(np.mean(e)))


def case(ctx, rng, i):
    from kmcpy.models.fitting.fitter import LCEFitter
    from kmcpy.models.parameters import LCEModelParameters, LCEModelParamHistory

    if i % 7 == 6:
        return whole(ctx, rng)
    n = 1 if rng.random() < 0.08 else int(rng.integers(1, 9))
    m = int(rng.integers(4, 31)) if n > 1 else int(rng.integers(3, 12))
    X, kind = design(rng, m, n)
    true = rng.normal(0, 40, n) * (rng.random(n) < 0.8)
    const = float(rng.uniform(100, 400))
    noise = 0.0 if rng.random() < 0.35 else float(rng.uniform(1, 40))
    y = X @ true + const + rng.normal(0, 1, m) * noise
    w, wk = weights(rng, m)
    alpha = float(10.0 ** (rng.uniform(-8, -5) if noise == 0 and rng.random() < 0.7 else rng.uniform(-4, 1.2)))
    normalize = bool(rng.random() < 0.6)
    note = f"{m}x{n} kind {kind} weights {wk} alpha {alpha:.3g} normalize {normalize} noise {noise:.3g}"
    ctx.count("fits")
    ctx.count("single_cluster", int(n == 1))
    ctx.count("weighted_fits", int(wk in ("random", "zeros")))
    ctx.count("zero_weights", int(wk == "zeros"))
    ctx.count("unscaled_fits", int(not normalize))
    files = write(X, y, w)
    opt = {}
    if rng.random() < 0.3:
        opt["fit_results_fname"] = "results.json"
    opt["lce_params_fname"] = None if rng.random() < 0.15 else str(rng.choice(["p.json", "p.yaml"]))
    opt["lce_params_history_fname"] = None if rng.random() < 0.3 else str(rng.choice(["h.json", "h.yaml"]))
    if rng.random() < 0.3:
        opt["orbit_fingerprints"] = [f"o{k}" for k in range(n)]
        opt["local_environment_hash"] = f"h{i}"
    if not (normalize and rng.random() < 0.3):
        opt["normalize"] = normalize
    before = sorted(os.listdir("."))
    fitter = LCEFitter()
    p, y_pred, y_true = fitter.fit(alpha=alpha, keci_fname="k.txt", **files, **opt)
    judge(ctx, note, X, y, w, alpha, normalize, p.keci, p.empty_cluster, p.rmse, y_pred, y_true)
    ctx.check(p.alpha == alpha and list(p.weight) == w.tolist() and p.normalize == normalize and p.orbit_fingerprints == opt.get("orbit_fingerprints")
              and p.local_environment_hash == opt.get("local_environment_hash"), "record", lambda: f"{note}: {p.as_dict()}")
    ctx.check(np.allclose(np.loadtxt("k.txt", ndmin=1), p.keci, rtol=0, atol=6e-9), "coefficient-file", note)
    if opt["lce_params_fname"]:
        q = LCEModelParameters.from_file(opt["lce_params_fname"])
        tol = dict(rtol=1e-14, atol=0)
        ctx.check(np.allclose(q.keci, p.keci, **tol) and np.isclose(q.empty_cluster, p.empty_cluster, **tol) and np.isclose(q.rmse, p.rmse, **tol)
                  and np.isclose(q.loocv, p.loocv, **tol) and np.allclose(q.weight, p.weight, **tol) and np.isclose(q.alpha, p.alpha, **tol) and q.orbit_fingerprints == p.orbit_fingerprints, "parameter-file", note)
    Z, yc, s, _, _ = scaled(X, y, np.ones(m), normalize)
    determined = m >= 2 * n + 2 and np.linalg.svd(Z, compute_uv=False)[-1] > 0.15 * np.linalg.svd(Z, compute_uv=False)[0]
    if noise == 0 and alpha < 1e-5 and wk != "zeros" and determined:
        ctx.count("exact_recoveries")
        spread = float(y.max() - y.min())
        err = float(np.abs(y - np.asarray(p.keci) @ X.T - p.empty_cluster).max())
        ctx.check(err <= 0.05 * spread + 1e-6, "not-recovered", lambda: f"{note}: worst deviation {err} of a spread of {spread}")
    if determined and all(np.ptp(np.delete(X[:, j], k)) > 0 for j in range(n) for k in range(m)):
        ctx.count("loo_checks")
        mine = loo(X, y, alpha, normalize)
        ctx.check(abs(p.loocv - mine) <= 0.04 * y.std() + 1e-6, "loocv", lambda: f"{note}: {p.loocv} for {mine} (spread {y.std()})")
    # repeated fits append to the histories in order
    if opt["lce_params_history_fname"] and rng.random() < 0.6:
        ctx.count("histories")
        seen = [p]
        many = m <= 12 and rng.random() < 0.25
        for _ in range(11 if many else int(rng.integers(1, 4))):
            a = seen[int(rng.integers(len(seen)))].alpha if rng.random() < 0.4 else float(10.0 ** rng.uniform(-4, 1))   # also the same penalty again
            (LCEFitter() if rng.random() < 0.5 else fitter).fit(alpha=a, keci_fname="k.txt", **files, **opt)
            h = LCEModelParamHistory.from_file(opt["lce_params_history_fname"]).history
            ctx.check(len(h) == len(seen) + 1 and all(np.allclose(u.keci, v.keci, rtol=1e-14) and abs(u.alpha - v.alpha) < 1e-12 * v.alpha for u, v in zip(h, seen)) and abs(h[-1].alpha - a) < 1e-12 * a, "history", note)
            seen = h
        if "fit_results_fname" in opt:
            d = json.load(open("results.json"))
            ctx.check([d[k]["alpha"] for k in sorted(d, key=int)] and len(d) == len(seen) and all(abs(d[str(k)]["alpha"] - u.alpha) < 1e-9 and np.allclose(d[str(k)]["keci"], u.keci, rtol=0, atol=1e-8) for k, u in enumerate(seen)), "results-file", lambda: f"{note}: {len(d)} for {len(seen)}")
            g = LCEFitter.from_file("results.json").model_parameters
            ctx.check(np.allclose(g.keci, seen[-1].keci, rtol=0, atol=1e-8) and abs(g.alpha - seen[-1].alpha) < 1e-9, "latest-result", note)
    # inconsistent inputs
    for k in range(3):
        Xb, yb, wb = X, y, w
        if k == 0:
            Xb = np.vstack([X, X[:1]])
        elif k == 1:
            yb = y[:-1]
        else:
            wb = np.append(w, 1.0)
        bad = write(Xb, yb, wb)
        ctx.count("refusals")
        ctx.expect_raises(lambda: LCEFitter().fit(alpha=alpha, keci_fname="k2.txt", lce_params_fname="p2.json", lce_params_history_fname=None, normalize=normalize, **bad), ValueError, "lengths", f"{note}: change {k}")
    write(X, y, w)
    ctx.expect_raises(lambda: LCEFitter().fit(alpha=alpha, keci_fname="k2.txt", lce_params_fname="p2.json", lce_params_history_fname=None, orbit_fingerprints=["a"] * (n + 1), **files), ValueError, "fingerprints", note)
    ctx.check(not os.path.exists("p2.json") and not os.path.exists("k2.txt"), "refused-fit-wrote", note)
    ctx.sig(kind, m, n, wk, round(np.log10(alpha)), normalize)
    ctx.sample({"rows": m, "clusters": n, "weights": wk, "alpha": alpha, "normalize": normalize, "rmse": p.rmse})


def whole(ctx, rng):
    """Structures -> correlations -> fit -> model -> energies of the same structures."""
    from kmcpy.io.neb import NEBDataLoader
    from kmcpy.models.parameters import LCEModelParameters

    for _ in range(40):
        toy, lls, lce, st, act, basis = setting(rng)
        if len(lce.cluster_site_indices):
            break
    S, X, O = [], [], []
    for _ in range(int(rng.integers(6, 18))):
        s, occ = decorate(rng, toy, st, act)
        if s is not None:
            S.append(s)
            O.append(occ)
            X.append(row(lls, lce, toy, occ, act, st, basis))
    X = np.array(X)
    y = X @ rng.normal(0, 30, X.shape[1]) + 250 + rng.normal(0, 1, len(S)) * float(rng.choice([0.0, 10.0]))
    w = rng.uniform(0.2, 4, len(S))
    loader = NEBDataLoader.from_structures(S, y.tolist(), lce)
    files = loader.write_fitting_inputs(output_dir="fit", weight=w)
    alpha = float(10.0 ** rng.uniform(-6, 1))
    normalize = bool(rng.random() < 0.6)
    note = f"{toy.name} {X.shape} {basis} alpha {alpha:.3g} normalize {normalize}"
    ctx.count("end_to_end")
    ctx.count("fits")
    params, y_pred, y_true = lce.fit(alpha=alpha, keci_fname="k.txt", lce_params_fname="p.json", lce_params_history_fname=None, normalize=normalize, **files)
    judge(ctx, note, X, y, w, alpha, normalize, params.keci, params.empty_cluster, params.rmse, y_pred, y_true)
    how = int(rng.integers(3))
    if how == 0:
        lce.set_parameters(params)
    elif how == 1:
        lce.load_parameters_from_file("p.json")
    else:
        lce.set_parameters(LCEModelParameters.from_file("p.json"))
    scale = float(np.abs(X).sum(1).max() * (np.abs(params.keci).max() + 1) + 500)
    counts = [len(toy.site_mapping[q.species_string]) for q in lls.structure]
    for k, occ in enumerate(O):
        got, same = evaluate(rng, lce, [occ[int(j)] for j in lls.site_indices], counts)
        ctx.count("model_evaluations")
        ctx.check(same and abs(got - y_pred[k]) < 1e-9 * scale, "fitted-model", lambda: f"{note} row {k}: {got} for {y_pred[k]}")
    ctx.sig("whole", toy.name, X.shape, normalize)
