"""P24: NEB data sets - every row belongs to one structure, target, weight and note."""
import json
import os

import numpy as np

from .. import lceoracle as L
from ..models import build_lce, lce_toy, local_structure
from ..toys import VACS

TECHNIQUE = "runtime monitoring: a plain-list model of the data set runs beside the real loader through random operation histories (objects, files, batches, refused additions, exports); every row is recomputed independently from the decoration it came from"
LEVEL = ("exploration", "Random crystals, expansions, decorations and histories of additions; after every operation the matrices, targets, metadata and exported files are compared row by row with an independent evaluation of the decoration each row came from.")
CASES = {"quick": 130, "thorough": 2500}
RULE = "crystal x expansion x history of additions and exports; distinct by (crystal, operations, rows)"
MIN = {"rows": 350, "row_checks": 800, "file_rows": 80, "refused_additions": 80, "exports": 120, "vacant_decorations": 100, "other_models": 30}
ASSUMPTIONS = ["structures in the cell of the reference lattice"]


def rich(rng, binary, basis, order):
    """A cell with several active sites beside a fixed framework."""
    from types import SimpleNamespace

    from pymatgen.core import Lattice, Structure
    from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

    from ..geom import lattice
    from .p18 import frac_sep

    while True:
        m = lattice(rng.uniform(4.5, 7, 3), [90, 90, 90] if rng.random() < 0.5 else rng.uniform(75, 105, 3))
        na, nf = int(rng.integers(2, 6)), int(rng.integers(0, 3))
        fr = []
        while len(fr) < na + nf:
            f = rng.choice([0.0, 0.25, 0.5, 0.75], 3) if rng.random() < 0.6 else rng.random(3)
            if frac_sep(np.array(fr + [f])) > 0.22:
                fr.append(f)
        mobile = [["Na", "X"], ["Si", "P"], ["K", "Va", "Li"]]
        if binary:
            mobile = mobile[:2]
        sp, mapping = [], {"O": "O"}
        for _ in range(na):
            lst = mobile[int(rng.integers(len(mobile)))]
            sp.append(lst[0])
            mapping[lst[0]] = list(lst)
        sp += ["O"] * nf
        perm = rng.permutation(len(sp))
        lat = Lattice(m)  # in the orientation a CIF file keeps
        st = Structure(Lattice.from_parameters(*lat.abc, *lat.angles), [sp[j] for j in perm], [fr[j] for j in perm])
        act = [k for k, s in enumerate(st) if s.species_string != "O"]
        center = act[int(rng.integers(na))]
        for cutoff in np.linspace(5.0, 2.0, 13):
            d = [n.nn_distance for n in st.get_neighbors(st[center], cutoff) if n.species_string != "O"]
            if len(d) <= (7 if binary else 5):
                break
        if not d:
            continue
        lls = LocalLatticeStructure(template_structure=st, center=center, cutoff=float(cutoff), site_mapping=mapping, basis_type=basis, local_site_order=order)
        try:
            lce = build_lce(rng, lls, [float(v) for v in rng.uniform(2.0, 6.5, 3)])
        except ValueError:  # pymatgen cannot classify an accidentally near-symmetric cluster
            continue
        return SimpleNamespace(name="rich", site_mapping=mapping), lls, lce, st, act, basis


def setting(rng, binary=None):
    """(toy, lls, lce, template, active template indices, basis)"""
    from kmcpy.io.cif import load_labeled_structure_from_cif

    binary = rng.random() < 0.6 if binary is None else binary
    basis = "occupation" if binary and rng.random() < 0.3 else "chebyshev"
    order = "nasicon_nat_commun_2022" if rng.random() < 0.5 else "kmcpy_default"
    if rng.random() < 0.7:
        return rich(rng, binary, basis, "kmcpy_default")
    toy = lce_toy(rng, max_env=7 if binary else 5, binary=binary)
    toy.write_cif("toy.cif")
    st = load_labeled_structure_from_cif(toy.cif)
    lls = local_structure(toy, order=order, basis=basis)
    lce = build_lce(rng, lls, [float(v) for v in rng.uniform(2.0, 5.5, 3)])
    act = [k for k, s in enumerate(st) if isinstance(toy.site_mapping[s.species_string], list) and len(toy.site_mapping[s.species_string]) > 1]
    return toy, lls, lce, st, act, basis


def decorate(rng, toy, st, act, states=None):
    """A decorated crystal with atoms in random order, and the states of the active sites."""
    from pymatgen.core import Structure

    lists = [toy.site_mapping[st[k].species_string] for k in act]
    for _ in range(50):
        occ = [int(rng.integers(len(a))) for a in lists] if states is None else list(states)
        by = dict(zip(act, occ))
        sp, fr = [], []
        for k, s in enumerate(st):
            name = toy.site_mapping[s.species_string]
            name = name[by[k]] if k in by else s.species_string
            if name in VACS:
                continue
            sp.append(name)
            fr.append(s.frac_coords)
        if sp:
            break
    else:
        return None, occ
    p = rng.permutation(len(sp))
    return Structure(st.lattice, [sp[j] for j in p], [np.asarray(fr[j]) + rng.integers(-1, 2, 3) for j in p]), occ


def row(lls, lce, toy, occ, act, st, basis):
    """Independent correlation row of a decoration."""
    local = [occ[int(j)] for j in lls.site_indices]
    counts = [len(toy.site_mapping[s.species_string]) for s in lls.structure]
    out = []
    for clusters, deco in L.model_features(lce):
        out.append(sum(np.prod([L.phi(basis, counts[s], local[s], 0 if deco is None else deco[c][p]) for p, s in enumerate(cl)])
                       for c, cl in enumerate(clusters)))
    return np.array(out, float)


def enc(basis, occ):
    return [o if basis == "chebyshev" else 1 - min(o, 1) for o in occ]


def compare(ctx, loader, model, note):
    """Everything the loader shows against the plain-list model."""
    n = len(model)
    if not ctx.check(len(loader) == n == len(loader.neb_entries), "entry-count", f"{note}: {len(loader)} of {n}"):
        return False
    if n == 0:
        for f in (loader.get_correlation_matrix, loader.get_properties, loader.get_occupation_matrix):
            ctx.expect_raises(f, ValueError, "empty-export", note)
        return True
    X, y, O = loader.get_correlation_matrix(), loader.get_properties(), loader.get_occupation_matrix()
    ok = ctx.check(X.shape[0] == len(y) == O.shape[0] == n, "row-count", f"{note}: {X.shape} {y.shape} {O.shape}")
    for k, (corr, occ, val, meta) in enumerate(model):
        ctx.count("row_checks")
        ctx.check(X[k].shape == corr.shape and np.allclose(X[k], corr, atol=1e-9), "correlation-row", lambda: f"{note} row {k}: {X[k].tolist()} for {corr.tolist()}")
        ctx.check([int(v) for v in O[k]] == occ, "occupation-row", lambda: f"{note} row {k}: {O[k].tolist()} for {occ}")
        ctx.check(float(y[k]) == val, "target-row", lambda: f"{note} row {k}: {y[k]} for {val}")
        e = loader.neb_entries[k]
        ctx.check(float(e.property_value) == val and np.allclose(e.correlation, corr, atol=1e-9), "entry", f"{note} row {k}")
        ctx.check(all((e.metadata or {}).get(a) == b for a, b in meta.items()), "metadata-row", lambda: f"{note} row {k}: {e.metadata} for {meta}")
    return ok


def export(ctx, rng, loader, model, note):
    n = len(model)
    ctx.count("exports")
    w = float(rng.uniform(0.5, 3)) if rng.random() < 0.4 else [float(v) for v in rng.uniform(0.1, 5, n)]
    if isinstance(w, list) and rng.random() < 0.3:
        w = np.array(w)
    names = {} if rng.random() < 0.5 else {"corr_fname": "c.dat", "ekra_fname": "t.dat", "weight_fname": "w.dat"}
    out = loader.write_fitting_inputs(output_dir=os.path.join("out", str(rng.integers(1e9))), weight=w, **names)
    if not ctx.check(set(out) == {"corr_fname", "ekra_fname", "weight_fname"} and all(os.path.exists(v) for v in out.values()), "export-files", f"{note}: {out}"):
        return None
    X, y, ww = np.loadtxt(out["corr_fname"], ndmin=2), np.loadtxt(out["ekra_fname"], ndmin=1), np.loadtxt(out["weight_fname"], ndmin=1)
    want_w = np.full(n, w) if np.isscalar(w) else np.asarray(w)
    ctx.check(X.shape == (n, len(model[0][0])) and np.allclose(X, [m[0] for m in model], atol=1e-9), "exported-correlation", f"{note}")
    ctx.check(y.tolist() == [m[2] for m in model], "exported-targets", lambda: f"{note}: {y.tolist()} for {[m[2] for m in model]}")
    ctx.check(ww.tolist() == want_w.tolist(), "exported-weights", lambda: f"{note}: {ww.tolist()} for {want_w.tolist()}")
    path = loader.to(output_dir="out", prefix=f"d{rng.integers(1e9)}")
    d = json.load(open(path))
    ctx.check(d["n_structures"] == n and d["properties"] == [m[2] for m in model] and [list(map(int, r)) for r in d["occupation_matrix"]] == [m[1] for m in model]
              and np.allclose(d["correlation_matrix"], [m[0] for m in model], atol=1e-9), "saved-json", f"{note}")
    ctx.check(all(all(a.get(k) == v for k, v in m[3].items()) for a, m in zip(d["metadata"], model)), "saved-metadata", f"{note}")
    for bad in ([1.0] * (n + 1), [1.0] * (n - 1) if n > 1 else [1.0, 1.0], [[1.0] * n]):
        ctx.expect_raises(lambda: loader.write_fitting_inputs(output_dir="out/bad", weight=bad), ValueError, "weight-length", f"{note}: {len(bad)} weights for {n}")
    return out


def target(rng):
    r = rng.random()
    if r < 0.6:
        return float(rng.uniform(50, 900))
    if r < 0.8:
        return float(np.round(rng.uniform(50, 900), 2))
    return float(rng.choice([0.0, -12.5, 1e-12, 123456.789012345, 1 / 3]))


def case(ctx, rng, i):
    from pymatgen.core import Structure
    from kmcpy.io.neb import NEBDataLoader, NEBEntry

    for _ in range(20):
        toy, lls, lce, st, act, basis = setting(rng)
        if len(lce.cluster_site_indices):
            break
    model = []
    r = rng.random()
    if r < 0.4:
        loader = NEBDataLoader(model=lce)
    elif r < 0.7:
        loader = NEBDataLoader(model=lce, reference_local_lattice_structure=lls)
    else:
        loader = NEBDataLoader()
    need = {} if r < 0.7 else {"model": lce}
    ops = []
    lce2 = None  # another expansion of the same neighbourhood, with other features
    for _ in range(6):
        try:
            other = build_lce(rng, lls, [float(v) for v in rng.uniform(1.8, 6.5, 3)])
        except ValueError:
            continue
        if len(other.cluster_site_indices) not in (0, len(lce.cluster_site_indices)):
            lce2 = other
            break

    def new():
        s, occ = decorate(rng, toy, st, act)
        if s is None:
            return None
        if any(toy.site_mapping[st[k].species_string][o] in VACS for k, o in zip(act, occ)):
            ctx.count("vacant_decorations")
        meta = {"id": int(rng.integers(1e6)), "tag": str(rng.choice(["a", "b"]))} if rng.random() < 0.7 else {}
        return s, (row(lls, lce, toy, occ, act, st, basis), enc(basis, occ), target(rng), meta)

    def as_source(s):
        if rng.random() < 0.25:
            ext = str(rng.choice(["json", "cif", "vasp"]))
            name = f"s{rng.integers(1e9)}.{ext}"
            s = Structure(s.lattice, s.species, np.mod(s.frac_coords, 1.0))
            s.to(filename=("POSCAR_" + name) if ext == "vasp" else name)
            ctx.count("file_rows")
            return ("POSCAR_" + name) if ext == "vasp" else name
        return s

    for step in range(int(rng.integers(3, 8))):
        op = str(rng.choice(["entry", "one", "batch", "bad", "bad_batch", "export", "build", "other"]))
        ops.append(op)
        note = f"{toy.name} {ops}"
        if op in ("entry", "one"):
            d = new()
            if d is None:
                continue
            s, m = d
            kept = None if isinstance(s, str) else (s.frac_coords.copy(), [str(x.specie) for x in s])
            try:
                if op == "one":
                    e = loader.add_structure(as_source(s), m[2], metadata=m[3] or None, **need)
                    ctx.check(e is loader.neb_entries[-1], "returned-entry", note)
                else:
                    e = NEBEntry.from_structure(as_source(s), m[2], metadata=m[3] or None)
                    loader.add(e, **need)
            except Exception as exc:
                ctx.fail("addition-refused", f"{note}: {type(exc).__name__} {exc}: {s}")
                return
            ctx.check(np.array_equal(s.frac_coords, kept[0]) and [str(x.specie) for x in s] == kept[1], "input-changed", note)
            model.append(m)
            ctx.count("rows")
        elif op in ("batch", "build"):
            ds = [d for d in (new() for _ in range(int(rng.integers(1, 7)))) if d]
            if not ds:
                continue
            S, V, M = [as_source(d[0]) for d in ds], [d[1][2] for d in ds], [d[1][3] for d in ds]
            mk = {"metadata": M} if rng.random() < 0.6 else {}
            if not mk:
                ds = [(s, m[:3] + ({},)) for s, m in ds]
            V = np.array(V) if rng.random() < 0.3 else V
            try:
                if op == "batch":
                    loader.add_structures(S, V, **mk, **need)
                    model += [d[1] for d in ds]
                else:
                    fresh = NEBDataLoader.from_structures(S, V, lce, **mk)
                    compare(ctx, fresh, [d[1] for d in ds], note + " built")
                    export(ctx, rng, fresh, [d[1] for d in ds], note + " built")
            except Exception as exc:
                ctx.fail("addition-refused", f"{note}: {type(exc).__name__} {exc}")
                return
            ctx.count("rows", len(ds))
        elif op == "bad":
            d = new()
            if d is None:
                continue
            ctx.count("refused_additions")
            s = d[0]
            kind = int(rng.integers(4))
            if kind == 0:  # not an allowed species anywhere
                k = int(rng.integers(len(s)))
                t = Structure(s.lattice, [x if j != k else "Xe" for j, x in enumerate(s.species)], s.frac_coords)
                known = [j for j in act if np.abs((st[j].frac_coords - s.frac_coords[k]) - np.round(st[j].frac_coords - s.frac_coords[k])).max() < 1e-5]
                if not known:
                    continue
            elif kind == 1:  # an atom off every site
                t = Structure(s.lattice, list(s.species) + ["Na"], np.vstack([s.frac_coords, [0.137, 0.371, 0.713]]))
                far = t.lattice.get_all_distances([[0.137, 0.371, 0.713]], st.frac_coords).min()
                if far < 0.2:
                    continue
            elif kind == 2:
                t = Structure(s.lattice.matrix * 1.25, s.species, s.frac_coords)
                if not any(np.abs((st[j].frac_coords - f) - np.round(st[j].frac_coords - f)).max() < 1e-5 for j in act for f in s.frac_coords):
                    continue
            else:
                t = 17
            ctx.expect_raises(lambda: loader.add_structure(t, 100.0, **need), Exception, "bad-structure-accepted", f"{note} kind {kind}")
        elif op == "bad_batch":
            ds = [d for d in (new() for _ in range(3)) if d]
            ctx.count("refused_additions")
            S, V = [d[0] for d in ds], [d[1][2] for d in ds]
            ctx.expect_raises(lambda: loader.add_structures(S, V + [1.0], **need), ValueError, "length-mismatch", note)
            ctx.expect_raises(lambda: loader.add_structures(S, V, metadata=[{}] * (len(S) + 1), **need), ValueError, "metadata-length", note)
            ctx.expect_raises(lambda: loader.add("entry", **need), ValueError, "not-an-entry", note)
            # good structures before and after one that is refused: none of them is kept
            at = int(rng.integers(len(S) + 1))
            bad = [17, "no_such_file.cif"][int(rng.integers(2))]
            ctx.expect_raises(lambda: loader.add_structures(S[:at] + [bad] + S[at:], [1.0] * (len(S) + 1), **need), Exception, "bad-batch-accepted", note)
            ctx.count("refused_batches")
        elif op == "other" and lce2 is not None:
            s, occ = decorate(rng, toy, st, act)
            if s is None:
                continue
            ctx.count("other_models")
            val = target(rng)
            mine = (row(lls, lce, toy, occ, act, st, basis), enc(basis, occ), val, {})
            theirs = (row(lls, lce2, toy, occ, act, st, basis), enc(basis, occ), val, {})
            # a data set takes the expansion it is told to use, whatever it holds already
            empty = NEBDataLoader(model=lce, reference_local_lattice_structure=lls)
            empty.add_structure(s, val, model=lce2)
            compare(ctx, empty, [theirs], note + " told another model")
            empty.add_structure(s, val)
            compare(ctx, empty, [theirs, theirs], note + " told another model, then nothing")
            # and the reference it is told to use
            if toy.name == "rich":
                from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
                away = LocalLatticeStructure(template_structure=st, center=act[int(rng.integers(len(act)))], cutoff=lls.cutoff, site_mapping=toy.site_mapping, basis_type=basis)
                told = NEBDataLoader(model=lce, reference_local_lattice_structure=away)
                told.add_structure(s, val, reference_local_lattice_structure=lls)
                compare(ctx, told, [mine], note + " told another reference")
                ctx.count("other_references")
            # rows of another length are refused and nothing about the data set moves
            if model:
                ctx.count("refused_additions")
                ctx.expect_raises(lambda: loader.add_structure(s, val, model=lce2), ValueError, "mixed-lengths", f"{note}: {len(theirs[0])} into {len(mine[0])}")
                if not compare(ctx, loader, model, note + " after a refused model"):
                    return
            # vectors an entry carries from another expansion are not the ones stored
            e = NEBEntry.from_structure(s, val)
            e.compute_occ_corr(lce2)
            ctx.check(np.allclose(e.correlation, theirs[0], atol=1e-9), "entry-vectors", note)
            loader.add(e, **(need if rng.random() < 0.5 or not model else {}))
            model.append(mine)
            ctx.count("rows")
        elif op == "export" and model:
            export(ctx, rng, loader, model, note)
        if not compare(ctx, loader, model, note):
            return
    if model:
        export(ctx, rng, loader, model, f"{toy.name} {ops} end")
    ctx.sig(toy.name, ops, len(model), basis)
    ctx.sample({"crystal": toy.name, "operations": ops, "rows": len(model)})
