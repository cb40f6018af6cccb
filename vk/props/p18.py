"""P18: structures <-> occupation vectors, judged by positions and species alone."""
import re

import numpy as np

from ..geom import lattice

TECHNIQUE = "runtime monitoring: round-trip monitor between structures and occupation vectors with an independent position/species oracle, and fault injection on structures (extra, missing, displaced, substituted atoms, wrong cells)"
LEVEL = ("exploration", "Random templates, site lists, bases and supercell matrices (diagonal and not); every structure built from an occupation is compared atom by atom with the occupation, and read back after permuting, translating and displacing its atoms; damaged structures must be refused.")
CASES = {"quick": 450, "thorough": 9000}
RULE = "template x site lists x supercell matrix x disturbance; distinct by (lists, matrix, disturbances)"
MIN = {"round_trips": 1500, "atoms_checked": 5000, "supercells": 120, "nondiagonal": 70, "refusals": 1000, "active_reads": 250, "vacant_sites": 1500, "displaced_reads": 300, "local_reads": 80}
ASSUMPTIONS = ["species allowed on one site differ by element", "displacements smaller than the tolerance and than half the site separation", "fixed (single-species) sites may be absent from an input structure", "a structure without any atom stands for no matching atom anywhere (pinned by an existing test), also on sites without a vacancy state"]

POOL = ["Na", "Li", "Si", "P", "O", "Cl", "Zr", "Sb", "W", "N", "K", "S", "Sn", "V", "Xe"]
VAC = ["X", "Va", "Vacancy", "vacancy", "VA"]


def symbol(s):
    s = str(s)
    if s in VAC or s.startswith("X0"):
        return "X"
    return re.match(r"[A-Za-z]+", s).group(0)


def frac_sep(fr):
    d = fr[:, None, :] - fr[None, :, :]
    d -= np.round(d)
    d = np.linalg.norm(d, axis=2)
    np.fill_diagonal(d, 9)
    return d.min() if len(fr) > 1 else 9.0


def template(rng, occupation=False):
    from pymatgen.core import Lattice, Structure

    kind = rng.integers(4)
    if kind == 0:
        m = lattice([float(rng.uniform(4, 7))] * 3, [90, 90, 90])
    elif kind == 1:
        m = lattice(rng.uniform(4, 8, 3), [90, 90, 90])
    elif kind == 2:
        a = float(rng.uniform(4, 7))
        m = lattice([a, a, float(rng.uniform(4, 8))], [90, 90, 120])
    else:
        m = lattice(rng.uniform(4, 8, 3), rng.uniform(70, 110, 3))
    n = int(rng.integers(1, 7))
    fr = []
    grid = [0.0, 0.25, 0.5, 0.75, 1 / 3, 2 / 3]
    while len(fr) < n:
        f = rng.choice(grid, 3) if rng.random() < 0.5 else rng.random(3)
        if frac_sep(np.array(fr + [f])) > 0.2:
            fr.append(f)
    k = int(rng.integers(1, min(4, n) + 1))
    els = [str(e) for e in rng.choice(POOL, k, replace=False)]
    sp = [els[i % k] for i in range(n)]
    rng.shuffle(sp)
    mapping = {}
    others = [x for x in POOL if x not in els]
    for j, e in enumerate(els):
        r = rng.random()
        v = str(rng.choice(VAC))
        if r < 0.15 and j:
            lst = [e] if rng.random() < 0.5 else e
        elif r < 0.55 or occupation:
            lst = [e, v] if rng.random() < 0.6 else [e, str(rng.choice(others))]
        elif r < 0.7:
            lst = [v, e]
        else:
            lst = [e, v] + list(rng.choice(others, int(rng.integers(1, 3)), replace=False))
            lst = [str(x) for x in rng.permutation(lst)]
        mapping[e] = lst
    s = Structure(Lattice(m), [str(x) for x in sp], np.array(fr))
    if rng.random() < 0.2:
        s.add_oxidation_state_by_element({e: int(rng.integers(1, 5)) for e in els})
    lists = [[symbol(x) for x in (mapping[str(e)] if isinstance(mapping[str(e)], list) else [mapping[str(e)]])] for e in sp]
    return s, mapping, lists


def matrix(rng):
    r = rng.random()
    if r < 0.4:
        return np.eye(3, dtype=int)
    if r < 0.7:
        return np.diag(rng.integers(1, 4, 3))
    while True:
        m = rng.integers(-2, 3, (3, 3))
        if 1 <= round(np.linalg.det(m)) <= 5:
            return m


def code(basis, state):
    """Documented encoding: chebyshev stores state indices; the occupation basis 1 for the first species."""
    return state if basis == "chebyshev" else (1 if state == 0 else 0)


def find(cart, lat, prim):
    """Primitive site whose lattice translate lies at this position."""
    f = cart @ np.linalg.inv(lat) - prim
    f -= np.round(f)
    k = int(np.argmin(np.linalg.norm(f, axis=1)))
    return k if np.linalg.norm(f[k]) < 1e-6 else None


def atoms(structure):
    return [(symbol(s.specie), np.mod(s.frac_coords + 1e-9, 1.0)) for s in structure]


def same_atoms(structure, want):
    """Multiset equality of (symbol, position), positions modulo the cell."""
    got = atoms(structure)
    if len(got) != len(want):
        return False
    left = list(want)
    for sy, f in got:
        for k, (sy2, f2) in enumerate(left):
            d = f - f2
            if sy == sy2 and np.abs(d - np.round(d)).max() < 1e-6:
                left.pop(k)
                break
        else:
            return False
    return True


def disturb(rng, s, tol, sep):
    """Same crystal: other atom order, lattice translations, displacements within tolerance (fractional)."""
    from pymatgen.core import Structure

    p = rng.permutation(len(s))
    fr = s.frac_coords.reshape(-1, 3)[p].copy()
    moved = rng.random() < 0.5 and len(fr) > 0
    if moved:
        amp = min(tol * 0.8, sep * 0.35)
        v = rng.normal(size=fr.shape)
        fr += v / np.linalg.norm(v, axis=1, keepdims=True) * amp * rng.random((len(fr), 1))
    if rng.random() < 0.5:
        fr += rng.integers(-2, 3, fr.shape)
    return Structure(s.lattice, [s[i].specie for i in p], fr), p, moved


def refuse(ctx, fn, key, msg=""):
    ctx.count("refusals")
    ctx.expect_raises(fn, ValueError, key, msg)


def case(ctx, rng, i):
    from pymatgen.core import Structure
    from kmcpy.structure import LatticeStructure
    from kmcpy.structure.basis import Occupation, get_basis

    basis = "occupation" if rng.random() < 0.2 else "chebyshev"
    t, mapping, lists = template(rng, basis == "occupation")
    before = (t.frac_coords.copy(), [str(x.specie) for x in t])
    ls = LatticeStructure(t.copy(), mapping, basis)
    q = [len(a) for a in lists]
    ctx.check([[symbol(x) for x in a] for a in ls.allowed_species] == lists, "allowed-lists", lambda: f"{ls.allowed_species} for {lists}")
    for k, a in enumerate(lists):
        for st, sp in enumerate(a):
            c = code(basis, st)
            ctx.check(symbol(ls.species_for_occupation_value(k, c)) == sp, "code-to-species", f"site {k} {a} code {c}")
            ctx.check(ls.occupation_value_for_species(k, sp) == c, "species-to-code", f"site {k} {a} {sp}")
        bad = next(x for x in POOL if x not in a)
        ctx.expect_raises(lambda: ls.occupation_value_for_species(k, bad), ValueError, "disallowed-code", f"{bad} at {a}")

    M = matrix(rng)
    sc = t.copy()
    sc.make_supercell(M)
    n = len(sc)
    if n != len(t):
        ctx.count("supercells")
    if np.count_nonzero(M - np.diag(np.diag(M))):
        ctx.count("nondiagonal")
    al = [lists[find(x.coords, t.lattice.matrix, t.frac_coords)] for x in sc]
    sep = frac_sep(sc.frac_coords)
    be = get_basis(basis, max_states=max(2, max(q))) if basis == "chebyshev" else get_basis(basis)
    shifts = []

    for rep in range(3):
        st = [int(rng.integers(len(a))) for a in al]
        if rep == 1:  # as empty as the lists allow
            st = [a.index("X") if "X" in a else s for a, s in zip(al, st)]
        occ = [code(basis, s) for s in st]
        o = Occupation(list(occ), basis=be, validate=False)
        try:
            s = ls.get_structure_from_occ(o, sc_matrix=M) if n != len(t) or rng.random() < 0.5 else ls.get_structure_from_occ(o)
        except Exception as e:
            ctx.fail("build-refused", f"{type(e).__name__} {e}: {occ} of {al}")
            continue
        if n == len(t) and not np.array_equal(M, np.eye(3)):
            s = ls.get_structure_from_occ(o, sc_matrix=M)
        want = [(a[k], np.mod(x.frac_coords + 1e-9, 1.0)) for x, a, k in zip(sc, al, st) if a[k] != "X"]
        ctx.count("atoms_checked", len(want))
        ctx.count("vacant_sites", n - len(want))
        ctx.check(same_atoms(s, want), "structure-content", lambda: f"lists {al} states {st} matrix {M.tolist()}: built {atoms(s)}")
        ctx.check(np.allclose(s.lattice.matrix, sc.lattice.matrix, atol=1e-8), "structure-lattice", f"{M.tolist()}")
        ctx.check([int(v) for v in o.values] == occ, "input-changed", "occupation changed by building")

        tol = float(rng.choice([0.1, 0.05, 1e-2]))
        d, perm, moved = disturb(rng, s, tol, sep)
        if rng.random() < 0.2 and len(d):
            d.add_oxidation_state_by_element({e: int(rng.integers(1, 4)) for e in {symbol(x.specie) for x in d}})
        keep = (d.frac_coords.copy(), [str(x.specie) for x in d])
        kw = {} if rng.random() < 0.6 else {"sc_matrix": M}
        if tol != 0.1 or rng.random() < 0.5:
            kw["tol"] = tol
        if moved:
            ctx.count("displaced_reads")
        shifts.append((tol, bool(moved), sorted(kw)))
        try:
            r = ls.get_occ_from_structure(d, **kw)
            got = [int(v) for v in r.values]
        except Exception as e:
            ctx.fail("read-refused", f"{type(e).__name__} {e}: states {st} of {al}, matrix {M.tolist()}, options {list(kw)}, moved {moved}")
            continue
        ctx.count("round_trips")
        ctx.check(got == occ, "round-trip", lambda: f"lists {al}, matrix {M.tolist()}, options {list(kw)}, moved {moved}: wrote {occ}, read {got}")
        ctx.check(np.array_equal(d.frac_coords, keep[0]) and [str(x.specie) for x in d] == keep[1], "input-changed", "structure changed by reading")
        # the vector read builds the same crystal again
        s2 = ls.get_structure_from_occ(r, sc_matrix=M)
        ctx.check(same_atoms(s2, want), "second-trip", lambda: f"{al} {occ}")
        # explicit mapping: positions no longer matter
        if len(s):
            full = [k for k in range(n) if al[k][st[k]] != "X"]
            pm = [full[j] for j in perm]
            far = Structure(s.lattice, [s[j].specie for j in perm], rng.random((len(s), 3)))
            rd = lambda m: ls.get_occ_from_structure(far, sc_matrix=M, structure_site_mapping=m)
            try:
                got = [int(v) for v in rd(pm).values]
                ctx.check(got == occ, "explicit-mapping", lambda: f"{al} wrote {occ} read {got}")
                ctx.count("round_trips")
            except Exception as e:
                ctx.fail("explicit-mapping-refused", f"{type(e).__name__} {e}")
            if len(pm) > 1:
                refuse(ctx, lambda: rd([pm[0]] * len(pm)), "mapping-duplicate")
                refuse(ctx, lambda: rd(pm[:-1]), "mapping-length")
            refuse(ctx, lambda: rd([n] + pm[1:]), "mapping-range")
            refuse(ctx, lambda: rd([-1] + pm[1:]), "mapping-range")
        faults(ctx, rng, ls, s, sc, al, st, M, tol, sep, kw)
    for bad in (list(occ)[:-1], list(occ) + [occ[0]]):
        if len(bad):
            refuse(ctx, lambda: ls.get_structure_from_occ(Occupation(list(bad), basis=be, validate=False), sc_matrix=M), "wrong-length")
    worst = list(occ)
    k = int(rng.integers(n))
    worst[k] = len(al[k]) if basis == "chebyshev" else 2
    refuse(ctx, lambda: ls.get_structure_from_occ(Occupation(worst, basis=be, validate=False), sc_matrix=M), "undefined-state")
    if any(len(a) > 1 for a in lists):
        active(ctx, rng, ls, t, mapping, lists, basis)
    ctx.check(np.array_equal(ls.template_structure.frac_coords, before[0]) and [str(x.specie) for x in ls.template_structure] == before[1]
              and [[symbol(x) for x in a] for a in ls.allowed_species] == lists, "template-changed", "template changed by conversions")
    ctx.sig(sorted(map(tuple, lists)), M.tolist(), basis, shifts)
    ctx.sample({"lists": lists, "matrix": M.tolist(), "occupation": occ})


def faults(ctx, rng, ls, s, sc, al, st, M, tol, sep, kw):
    """Damaged structures must not be read."""
    from pymatgen.core import Lattice, Structure

    read = lambda x: ls.get_occ_from_structure(x, **kw)
    tol = kw.get("tol", 0.1)
    sp, fr = [x.specie for x in s], s.frac_coords.reshape(-1, 3)
    full = [j for j in range(len(sc)) if al[j][st[j]] != "X"]
    if len(s):
        k = int(rng.integers(len(s)))
        refuse(ctx, lambda: read(Structure(s.lattice, sp + [sp[k]], np.vstack([fr, fr[k] + rng.integers(-1, 2, 3)]))), "duplicate-atom", f"{al}")
        bad = next(x for x in POOL if x not in al[full[k]])
        refuse(ctx, lambda: read(Structure(s.lattice, sp[:k] + [bad] + sp[k + 1:], fr)), "disallowed-species", f"{bad} at {al[full[k]]}")
        # a second atom within tolerance of an occupied site
        near = fr[k] + np.array([min(tol, sep) * 0.3, 0, 0])
        refuse(ctx, lambda: read(Structure(s.lattice, sp + [sp[k]], np.vstack([fr, near]))), "two-atoms-one-site", f"{al}")
    # an atom far from every site, extra or displaced
    for _ in range(40):
        p = rng.random(3)
        d = sc.frac_coords - p
        d -= np.round(d)
        near = int(np.argmin(np.linalg.norm(d, axis=1)))
        if np.linalg.norm(d[near]) > tol * 1.3:
            like = next((x for x in al[near] if x != "X"), "Na")
            refuse(ctx, lambda: read(Structure(s.lattice, sp + [like], np.vstack([fr, p]))), "extra-atom", f"{al}")
            if len(s):
                g = fr.copy()
                g[k] = p
                refuse(ctx, lambda: read(Structure(s.lattice, sp, g)), "misplaced-atom", f"{al}")
            break
    need = [j for j, a in enumerate(al) if len(a) > 1 and "X" not in a]
    if need and len(s) > 1:
        j = int(rng.choice(need))
        r = full.index(j)
        refuse(ctx, lambda: read(Structure(s.lattice, sp[:r] + sp[r + 1:], np.delete(fr, r, axis=0))), "missing-atom", f"{al[j]}")
    if rng.random() < 0.3:
        refuse(ctx, lambda: read(Structure(Lattice(s.lattice.matrix * 1.3), [], [])), "empty-wrong-cell", f"{M.tolist()}")
    if len(s):
        big = Structure(Lattice(s.lattice.matrix * float(rng.choice([0.7, 1.3, 1.45]))), sp, fr)
        refuse(ctx, lambda: read(big), "wrong-cell", f"{M.tolist()}")
        m = s.lattice.matrix.copy()
        m[0] = m[0] + 0.3 * m[1]
        refuse(ctx, lambda: read(Structure(Lattice(m), sp, fr)), "wrong-cell", "sheared")


def active(ctx, rng, ls, t, mapping, lists, basis):
    """Full structures to compact active-site vectors, for supercells of the simulation."""
    from pymatgen.core import Structure
    from kmcpy.structure import LocalLatticeStructure

    shape = tuple(int(v) for v in rng.integers(1, 4, 3)) if rng.random() < 0.6 else (1, 1, 1)
    aso = ls.get_active_site_order(shape)
    act = ls.get_active_lattice_structure(shape)
    pos = act.template_structure
    full = aso.full_structure_with_properties()
    where = lambda x: find(x.coords, t.lattice.matrix, t.frac_coords)
    prim, aprim = [where(x) for x in full], [where(x) for x in pos]
    n_act = sum(len(a) > 1 for a in lists) * int(np.prod(shape))
    if not ctx.check(len(pos) == n_act == aso.active_site_count and len(full) == len(lists) * int(np.prod(shape)), "active-count", f"{len(pos)} of {n_act}"):
        return
    if not ctx.check(None not in prim + aprim, "site-off-template", f"{shape}"):
        return
    ctx.check(all(len(lists[k]) > 1 for k in aprim), "fixed-site-active", f"{lists}")
    rows, fr, sp = [], [], []
    for x, k in zip(full, prim):
        a = lists[k]
        s = int(rng.integers(len(a))) if rng.random() < 0.8 else (a.index("X") if "X" in a else 0)
        rows.append(s)
        if a[s] != "X":
            fr.append(x.frac_coords)
            sp.append(a[s])
    vals = [code(basis, s) for s in rows]
    # value expected at each active site, by position
    want = []
    for x in pos:
        d = full.frac_coords - x.frac_coords
        d -= np.round(d)
        want.append(vals[int(np.argmin(np.linalg.norm(d, axis=1)))])
    ctx.check(list(aso.select_active_values(vals)) == want, "full-to-active", f"{lists} {shape}")
    ctx.check(list(aso.select_active_values(want)) == want, "active-to-active", f"{lists} {shape}")
    for bad in (vals + [0], want[:-1]):
        if len(bad) not in (len(vals), len(want)):
            refuse(ctx, lambda: aso.select_active_values(bad), "wrong-length")
    if not fr:
        return
    perm = rng.permutation(len(fr))
    s = Structure(full.lattice, [sp[j] for j in perm], np.array(fr)[perm] + rng.integers(-1, 2, (len(fr), 3)))
    try:
        f = aso.filter_active_structure(s)
        got = [int(v) for v in act.get_occ_from_structure(f, tol=1e-2).values]
    except Exception as e:
        ctx.fail("active-read-refused", f"{type(e).__name__} {e}: lists {lists} shape {shape} {len(s)} atoms")
        return
    ctx.count("active_reads")
    ctx.check(got == want, "active-read", lambda: f"lists {lists} shape {shape}: wrote {want} read {got}")
    ctx.check(all(len(lists[where(x)]) > 1 for x in f), "filter-keeps-fixed", f"{lists}")
    # the same through a local environment's own template (primitive cell)
    if shape == (1, 1, 1):
        act_ids = [k for k, a in enumerate(lists) if len(a) > 1]
        loc = LocalLatticeStructure(t.copy(), center=[float(v) for v in t.frac_coords[act_ids[0]]], cutoff=3.0, site_mapping=mapping, basis_type=basis, exclude_center_site=False)
        try:
            got = [int(v) for v in loc.get_occ_from_structure(loc.active_site_order.filter_active_structure(s), tol=1e-2).values]
        except Exception as e:
            ctx.fail("active-read-refused", f"local: {type(e).__name__} {e}: lists {lists}")
            return
        ctx.count("local_reads")
        ctx.check(got == want, "local-read", lambda: f"lists {lists}: wrote {want} read {got}")
