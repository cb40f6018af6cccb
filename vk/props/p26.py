"""P26: site bases and occupation vectors against an independent model."""
import random

import numpy as np

TECHNIQUE = "runtime monitoring: model-based monitor running random operation sequences on occupation vectors beside a plain-list model, and algebraic oracles on every basis"
LEVEL = ("exploration", "All species counts up to 12 per basis, and random operation histories on occupation vectors compared step by step with an independent list model.")
CASES = {"quick": 400, "thorough": 8000}
RULE = "basis x number of states, and random operation sequences on vectors; distinct by (basis, states, length, operation sequence)"
MIN = {"operations": 1200, "bases": 30}
ASSUMPTIONS = ["the occupation basis is binary by documentation; conversion between bases keeps only template/non-template"]


def cheb(k, x):
    a, b = 1.0, x
    for _ in range(k - 1):
        a, b = b, 2 * x * b - a
    return b


def bases(ctx, rng):
    from kmcpy.structure.basis import BasisFunction, ChebyshevBasis, get_basis

    for q in range(2, 13):
        ctx.count("bases", 3)
        for b in (get_basis("chebyshev"), ChebyshevBasis(max_states=q), get_basis("chebyshev", max_states=q)):
            v = np.asarray(b.site_basis_values(q), float)
            want = np.array([[cheb(k, -1 + 2 * s / (q - 1)) for k in range(1, q)] for s in range(q)])
            ctx.check(v.shape == (q, q - 1) and np.allclose(v, want, atol=1e-10), "chebyshev-values", lambda: f"q={q}: {v.tolist()}")
            ctx.check(len({tuple(np.round(r, 9)) for r in v}) == q, "states-not-distinct", f"q={q}")
            full = np.hstack([np.ones((q, 1)), v])
            ctx.check(np.linalg.matrix_rank(full) == q, "not-spanning", f"q={q}")
            ctx.check(b.num_site_basis_functions(q) == q - 1 == v.shape[1], "count", f"q={q}")
            ctx.check([b.state_value(s, q) for s in range(q)] == list(range(q)), "state-value", f"q={q}")
            ctx.sig("cheb", q)
        b = ChebyshevBasis(max_states=q)
        ctx.check(set(b.valid_values) == set(range(q)), "valid-values", f"q={q}: {b.valid_values}")
        for r in (BasisFunction.from_dict(b.as_dict()), ChebyshevBasis.from_dict(b.as_dict())):
            ctx.check(type(r) is ChebyshevBasis and set(r.valid_values) == set(range(q)) and np.allclose(r.site_basis_values(q), b.site_basis_values(q)),
                      "basis-save-load", f"q={q}: {r.as_dict()}")
    o = get_basis("occupation")
    v = np.asarray(o.site_basis_values(2), float)
    ctx.check(v.tolist() == [[1.0], [0.0]], "occupation-values", f"{v.tolist()}")
    ctx.check(o.match_value == 1 and o.mismatch_value == 0 and set(o.valid_values) == {0, 1}, "occupation-codes", "")
    c = get_basis("chebyshev")
    ctx.check(np.allclose(np.asarray(c.site_basis_values(2)).ravel(), [-1, 1]), "binary-chebyshev", "")
    ctx.check(type(BasisFunction.from_dict(o.as_dict())) is type(o), "basis-save-load", "occupation")
    for val in (0, 1):
        ctx.check(o.from_chebyshev(o.to_chebyshev(val)) == val and c.from_occupation(c.to_occupation(val)) == val, "convert-pair", f"{val}")
        ctx.check(c.convert_to(o.convert_to(val, c), o) == val, "convert-pair", f"{val}")
        ctx.check(o.convert_to(val, c) == o.to_chebyshev(val) and c.convert_to(val, o) == c.to_occupation(val), "convert-consistent", f"{val}")
    ctx.expect_raises(lambda: get_basis("nonsense"), ValueError, "unknown-basis")
    ctx.expect_raises(lambda: ChebyshevBasis(max_states=1), ValueError, "one-state-basis")


def vec(o):
    return [int(v) for v in o.values]


def part(ctx, p, q):
    """A piece of a vector allows exactly the states the vector allowed."""
    if not len(p):
        return
    w = vec(p)
    try:
        p[0] = q - 1
        ok = vec(p) == [q - 1] + w[1:]
    except ValueError:
        ok = False
    ctx.check(ok, "part-loses-states", lambda: f"state {q - 1} refused after taking a part of a vector with {q} states")
    ctx.expect_raises(lambda: p.__setitem__(0, q), ValueError, "part-accepts-invalid", f"state {q} of {q}")


def case(ctx, rng, i):
    from kmcpy.structure.basis import ChebyshevBasis, Occupation, get_basis

    kind = ["chebyshev", "occupation", "multi"][int(rng.integers(3))]
    q = 2 if kind != "multi" else int(rng.integers(3, 7))
    basis = kind if kind != "multi" else ChebyshevBasis(max_states=q)
    match = 1 if kind == "occupation" else 0
    n = int(rng.integers(1, 14))
    model = [int(v) for v in rng.integers(0, q, n)]
    src = [list(model), tuple(model), np.array(model)][int(rng.integers(3))]
    o = Occupation(src, basis=basis)
    ctx.check(vec(o) == model and len(o) == n and [int(v) for v in o] == model, "construct", "")
    for bad in (q, -1, 17):
        m2 = list(model)
        m2[int(rng.integers(n))] = bad
        ctx.expect_raises(lambda: Occupation(m2, basis=basis), ValueError, "invalid-accepted", f"value {bad} in {kind} with {q} states")
    ops = []
    for _ in range(int(rng.integers(4, 14))):
        ctx.count("operations")
        op = ["flip", "flip_inplace", "set", "badset", "slice", "fancy", "copy", "convert", "counts", "data", "eq", "getitem", "iter"][int(rng.integers(13))]
        ops.append(op)
        before = list(model)
        if op in ("flip", "flip_inplace"):
            idx = [int(v) for v in rng.integers(0, n, int(rng.integers(1, 4)))]
            # a flipped site leaves the template species, or returns to it from any other state
            arg = idx[0] if len(idx) == 1 and rng.random() < 0.5 else idx
            want = list(model)
            for k in idx:
                want[k] = 1 - match if want[k] == match else match
            if op == "flip":
                p = o.flip(arg)
                ctx.check(vec(p) == want, "flip", lambda: f"{before} flip {arg} -> {vec(p)}")
                ctx.check(vec(o) == model, "flip-changes-original", "")
                ctx.check(max(model) > 1 or vec(p.flip(arg)) == model, "flip-twice", "")
            else:
                o.flip_inplace(arg)
                model = want
                ctx.check(vec(o) == model, "flip-inplace", lambda: f"{before} flip {arg} -> {vec(o)}")
        elif op == "set":
            k, v = int(rng.integers(n)), int(rng.integers(q))
            o[k] = v
            model[k] = v
            ctx.check(vec(o) == model, "set", "")
        elif op == "badset":
            p = o.copy()
            for key, v in ((0, q + 3), (n - 1, -1), (int(rng.integers(n)), 0.5), (slice(0, n), [0] * (n - 1) + [q]), (slice(0, n), [0] * (n - 1) + [0.25])):
                ctx.expect_raises(lambda: p.__setitem__(key, v), ValueError, "invalid-set-accepted", f"{v} in {kind} with {q} states")
                ctx.check(vec(p) == model and vec(o) == model, "refused-set-kept", lambda: f"{model} after the refused assignment of {v}: {vec(p)}")
            ctx.expect_raises(lambda: Occupation([0] * (n - 1) + [0.5], basis=basis), ValueError, "invalid-accepted", f"0.5 in {kind}")
        elif op == "slice":
            a, b = sorted(int(v) for v in rng.integers(0, n + 1, 2))
            part(ctx, o[a:b], q)
            ctx.check(vec(o[a:b]) == model[a:b] and o[a:b].basis == o.basis, "slice", "")
            ctx.check(vec(o[::-1]) == model[::-1] and vec(o[a::2]) == model[a::2] and vec(o[-b:]) == model[-b:], "slice", "step")
            v = [int(x) for x in rng.integers(0, q, b - a)]
            o[a:b] = v
            model[a:b] = v
            ctx.check(vec(o) == model, "slice-set", "")
        elif op == "fancy":
            idx = [int(v) for v in rng.integers(0, n, 3)]
            part(ctx, o[idx], q)
            ctx.check(vec(o[idx]) == [model[k] for k in idx] and vec(o[np.array(idx)]) == [model[k] for k in idx], "fancy", "")
        elif op == "copy":
            p = o.copy()
            part(ctx, o.copy(), q)
            p[0] = (model[0] + 1) % q
            ctx.check(vec(o) == model, "copy-shares-data", "")
            ctx.check(p != o and o == o.copy(), "copy-equality", "")
        elif op == "data":
            d = o.data
            d[0] = 1 - match if d[0] == match else match
            ctx.check(vec(o) == model, "data-exposes-state", "")
        elif op == "convert":
            tgt = "occupation" if kind != "occupation" else "chebyshev"
            tm = 1 if tgt == "occupation" else 0
            p = o.to_basis(tgt)
            ctx.check([v == tm for v in vec(p)] == [v == match for v in model], "convert", lambda: f"{model} ({kind}) -> {vec(p)} ({tgt})")
            ctx.check(all(v in (0, 1) for v in vec(p)), "convert-range", "")
            ctx.check(vec(o) == model, "convert-changes-original", "")
            back = p.to_basis(kind if kind != "multi" else "chebyshev")
            ctx.check([v == match for v in vec(back)] == [v == match for v in model], "convert-back", "")
            if q == 2:
                ctx.check(vec(back) == model and o.equivalent_to(p) and p.equivalent_to(o), "convert-lossless", "")
                other = p.flip(int(rng.integers(n)))
                ctx.check(not o.equivalent_to(other), "equivalent-wrong", "")
        elif op == "counts":
            m = [k for k, v in enumerate(model) if v == match]
            ctx.check(o.count_match() == len(m) and o.get_match_indices() == m, "count-match", "")
            ctx.check(o.count_occupied() == len(m) and o.get_occupied_indices() == m, "count-occupied", "")
            if q == 2:
                r = [k for k in range(n) if k not in m]
                ctx.check(o.count_mismatch() == len(r) and o.get_mismatch_indices() == r, "count-mismatch", "")
                ctx.check(o.count_vacant() == len(r) and o.get_vacant_indices() == r, "count-vacant", "")
        elif op == "eq":
            p = Occupation(list(model), basis=basis)
            ctx.check(o == p and not (o != p) and o.array_equal(model), "equality", "")
            m2 = list(model)
            m2[-1] = (m2[-1] + 1) % q
            ctx.check(o != Occupation(m2, basis=basis) and not o.array_equal(m2), "inequality", "")
            ctx.check(not o.equivalent_to("x") and o != "x" and not o.array_equal(model + [0]) and not o.array_equal(model[:-1]), "inequality-kind", "")
        elif op == "getitem":
            k = int(rng.integers(-n, n))
            ctx.check(o[k] == model[k], "getitem", "")
        else:
            ctx.check([int(v) for v in o] == model, "iterate", "")
    if isinstance(src, (list, np.ndarray)):
        pass
    # factories
    b2 = kind if kind != "multi" else "chebyshev"
    vac, occd = (0, 1) if kind == "occupation" else (1, 0)
    ctx.check(vec(Occupation.zeros(n, b2)) == [vac] * n and vec(Occupation.ones(n, b2)) == [occd] * n, "factories", "")
    seed = int(rng.integers(2**31)) if i % 4 else i % 8 // 4
    np.random.seed(5)
    random.seed(5)
    g = np.random.get_state()
    r1 = Occupation.random(40, b2, fill_fraction=0.4, seed=seed)
    g2 = np.random.get_state()
    ctx.check((g[1] == g2[1]).all() and g[2] == g2[2], "random-disturbs-generator", "")
    np.random.seed(99)
    r2 = Occupation.random(40, b2, fill_fraction=0.4, seed=seed)
    ctx.check(vec(r1) == vec(r2), "random-not-reproducible", "")
    ctx.check(vec(Occupation.random(9, b2, fill_fraction=0.0, seed=1)) == [vac] * 9, "random-fraction", "0")
    ctx.check(vec(Occupation.random(9, b2, fill_fraction=1.0, seed=1)) == [occd] * 9, "random-fraction", "1")
    if i % 40 == 0:
        big = Occupation.random(20000, b2, fill_fraction=0.3, seed=seed)
        ctx.check(abs(big.count_occupied() / 20000 - 0.3) < 0.03, "random-fraction", f"{big.count_occupied()}")
    ctx.sig(kind, q, n, ops)
    ctx.sample({"basis": kind, "states": q, "sites": n, "operations": ops})


NAMED = {"bases": bases}
