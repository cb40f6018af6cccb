"""P25: CIF files against an independent expansion of their asymmetric units."""
import itertools
from collections import Counter

import numpy as np

from ..geom import lattice

TECHNIQUE = "runtime monitoring: generated CIF files (symmetry operations, settings, labels, shared and partial sites, number formats, faults) are loaded by the real reader and compared site by site with an independent expansion of the asymmetric unit"
LEVEL = ("exploration", "Random cells, operation groups, special and general positions, label schemes, mixed and partial occupancies and file styles; every site, species, label and sequence number is compared with an independent group expansion; primitive reduction is compared through lattice translations.")
CASES = {"quick": 700, "thorough": 12000}
RULE = "symmetry group x positions x labels x occupancy x file style; distinct by (group, multiplicities, style)"
MIN = {"files": 500, "sites": 4000, "special_positions": 300, "shared_sites": 80, "equivalent_shared_sites": 25, "primitive_cells": 100, "reduced_cells": 40, "partial_sites": 80, "named_groups": 60, "refusals": 200, "oxidation_states": 60, "two_blocks": 15}
ASSUMPTIONS = ["coordinates to four decimals or better, atoms at least 0.9 angstrom apart unless they share a site", "atom labels unique in a file, as CIF requires", "primitive cells within pymatgen's matching tolerance of 0.25 angstrom"]

# generators as (rotation, translation); every group is closed by the oracle itself
M = {
    "x,y,z": np.eye(3, dtype=int), "inv": -np.eye(3, dtype=int),
    "2z": np.diag([-1, -1, 1]), "2y": np.diag([-1, 1, -1]), "mz": np.diag([1, 1, -1]), "my": np.diag([1, -1, 1]),
    "4z": np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), "3xyz": np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]),
    "3z": np.array([[0, -1, 0], [1, -1, 0], [0, 0, 1]]),
}
H = 0.5
T0 = (0, 0, 0)
GROUPS = {  # name: (cell kind, generators)
    "P1": ("tri", []),
    "P-1": ("tri", [("inv", T0)]),
    "P2": ("mono", [("2y", T0)]),
    "P21/c": ("mono", [("2y", (0, H, H)), ("inv", T0)]),
    "Pmmm": ("ortho", [("2z", T0), ("2y", T0), ("inv", T0)]),
    "Cmmm": ("ortho", [("2z", T0), ("2y", T0), ("inv", T0), ("x,y,z", (H, H, 0))]),
    "Immm": ("ortho", [("2z", T0), ("2y", T0), ("inv", T0), ("x,y,z", (H, H, H))]),
    "Fmmm": ("ortho", [("2z", T0), ("2y", T0), ("inv", T0), ("x,y,z", (H, H, 0)), ("x,y,z", (0, H, H))]),
    "P4/m": ("tetra", [("4z", T0), ("inv", T0)]),
    "P42": ("tetra", [("4z", (0, 0, H))]),
    "I4/m": ("tetra", [("4z", T0), ("inv", T0), ("x,y,z", (H, H, H))]),
    "P3": ("hex", [("3z", T0)]),
    "R3": ("hex", [("3z", T0), ("x,y,z", (2 / 3, 1 / 3, 1 / 3))]),
    "P-3": ("hex", [("3z", T0), ("inv", T0)]),
    "Pm-3": ("cubic", [("2z", T0), ("2y", T0), ("inv", T0), ("3xyz", T0)]),
    "Fm-3": ("cubic", [("2z", T0), ("2y", T0), ("inv", T0), ("3xyz", T0), ("x,y,z", (H, H, 0)), ("x,y,z", (0, H, H))]),
}
ELEMENTS = ["Na", "Li", "Si", "P", "O", "Cl", "Zr", "S", "K", "F", "Mg"]


def close(gens):
    key = lambda R, t: (tuple(R.ravel()), tuple(np.round(np.mod(t + 1e-9, 1.0), 5)))
    ops = {key(M["x,y,z"], np.zeros(3)): (M["x,y,z"], np.zeros(3))}
    gens = [(M[a], np.array(t, float)) for a, t in gens]
    todo = list(ops.values())
    while todo:
        R, t = todo.pop()
        for R2, t2 in gens:
            n = (R2 @ R, np.mod(R2 @ t + t2, 1.0))
            if key(*n) not in ops:
                ops[key(*n)] = n
                todo.append(n)
    return list(ops.values())


def text(R, t):
    from fractions import Fraction

    out = []
    for r, c in zip(R, t):
        s = "".join(("+" if v > 0 else "-") + "xyz"[k] for k, v in enumerate(r) if v)
        s = s[1:] if s.startswith("+") else s
        f = Fraction(float(c)).limit_denominator(12)
        out.append(s + (f"+{f}" if f else ""))
    return ",".join(out)


def cell(rng, kind):
    a, b, c = (float(np.round(v, 4)) for v in rng.uniform(5.5, 11, 3))
    if kind == "tri":
        al = [float(np.round(v, 3)) for v in rng.uniform(75, 105, 3)]
        return [a, b, c], al
    if kind == "mono":
        return [a, b, c], [90.0, float(np.round(rng.uniform(80, 110), 3)), 90.0]
    if kind == "ortho":
        return [a, b, c], [90.0] * 3
    if kind == "tetra":
        return [a, a, c], [90.0] * 3
    if kind == "hex":
        return [a, a, c], [90.0, 90.0, 120.0]
    return [a, a, a], [90.0] * 3


def orbit(f, ops):
    out = []
    for R, t in ops:
        g = np.mod(R @ f + t + 1e-6, 1.0) - 1e-6
        if not any(np.abs((g - h) - np.round(g - h)).max() < 6e-5 for h in out):
            out.append(g)
    return out


def mindist(fr, m):
    fr = np.array(fr)
    im = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
    d = np.linalg.norm((fr[:, None, None, :] - fr[None, :, None, :] + im[None, None]) @ m, axis=3)
    for k in range(len(fr)):
        d[k, k][d[k, k] < 1e-3] = 99
    return d.min()


def position(rng):
    r = rng.random()
    if r < 0.45:
        f = rng.choice([0.0, 0.25, 0.5, 0.75, 0.5, 0.0], 3)
    elif r < 0.6:
        f = rng.choice([0.0, 1 / 3, 2 / 3, 0.5], 3)
    elif r < 0.75:
        f = rng.random(3)
        f[rng.integers(3)] = rng.choice([0.0, 0.5, 0.25])
        f[rng.integers(3)] = rng.choice([0.0, 0.5])
    else:
        f = rng.random(3)
    return np.array([round(float(v), 5) for v in f])


def number(rng, v, style):
    d = 4 if abs(v * 3 - round(v * 3)) < 1e-4 and abs(v - round(v)) > 1e-3 and style % 2 else 5
    s = f"{v:.{d}f}"
    if style >= 2 and rng.random() < 0.3:
        s += f"({int(rng.integers(1, 20))})"
    return s


def crystal(rng):
    """A random asymmetric unit: rows (label, type symbol, element, oxidation, frac, occupancy) and its expansion."""
    while True:
        name = list(GROUPS)[int(rng.integers(len(GROUPS)))]
        kind, gens = GROUPS[name]
        abc, ang = cell(rng, kind)
        m = lattice(abc, ang)
        ops = close(gens)
        rows, sites = [], []
        n = int(rng.integers(1, 5))
        counter = Counter()
        fr = []
        oxi = rng.random() < 0.25
        bad = False
        scheme = int(rng.integers(4))
        for _ in range(n):
            for _ in range(30):
                f = position(rng)
                o = orbit(f, ops)
                if len(fr) + len(o) > 120:
                    continue
                if mindist(fr + o, m) > 0.9:
                    break
            else:
                bad = True
                break
            fr += o
            els = [str(e) for e in rng.choice(ELEMENTS, 2, replace=False)]
            els = els if rng.random() < 0.25 else els[:1]
            occ = [1.0] if len(els) == 1 else [0.5, 0.5]
            if len(els) == 1 and rng.random() < 0.25:
                occ = [float(np.round(rng.uniform(0.2, 0.9), 2)) if rng.random() < 0.6 else float(np.round(rng.uniform(5e-4, 2e-2), 4))]
            elif len(els) == 2:
                x = float(np.round(rng.uniform(0.1, 0.8), 2)) if rng.random() < 0.7 else float(np.round(rng.uniform(5e-4, 2e-2), 4))
                occ = [x, round(1 - x, 4) if rng.random() < 0.6 else round((1 - x) * 0.5, 3)]
            comp, labels = Counter(), []
            for k, (e, x) in enumerate(zip(els, occ)):
                counter[e] += 1
                label = f"{e}{counter[e]}" if scheme else (e if counter[e] == 1 and e not in [r[0] for r in rows] else f"{e}{counter[e]}A")
                if scheme == 3:  # labels that name something else than the element
                    counter["any"] += 1
                    label = f"{str(rng.choice(['M', 'T', 'Cat', 'K', 'Zr', 'A_']))}{counter['any']}"
                labels.append(label)
                g = f if k == 0 or rng.random() < 0.5 else np.round(o[int(rng.integers(len(o)))], 5)
                rows.append([label, e, g, x])
                comp[e] += x
            sites.append((labels, comp, o, [g for *_, g, _ in rows[-len(els):]]))
        if not bad and len(set(r[0] for r in rows)) == len(rows):
            return name, abc, ang, m, ops, rows, sites, oxi


OXI = {"Na": 1, "Li": 1, "Si": 4, "P": 5, "O": -2, "Cl": -1, "Zr": 4, "S": -2, "K": 1, "F": -1, "Mg": 2}


def render(rng, c):
    name, abc, ang, m, ops, rows, sites, oxi = c
    style = int(rng.integers(4))
    out = [f"data_{name.replace('/', '')}"]
    out += [f"_cell_length_{k} {v}" for k, v in zip("abc", abc)]
    out += [f"_cell_angle_{k} {v}" for k, v in zip(["alpha", "beta", "gamma"], ang)]
    tag = str(rng.choice(["_symmetry_equiv_pos_as_xyz", "_space_group_symop_operation_xyz"]))
    order = [0] + [int(k) + 1 for k in rng.permutation(len(ops) - 1)] if len(ops) > 1 else [0]
    out += ["loop_", " " + tag] + [f" '{text(*ops[k])}'" for k in order]
    typed = oxi or any(not r[0].startswith(r[1]) for r in rows) or any(r[0][len(r[1]):][:1].islower() for r in rows) or rng.random() < 0.7
    sym = lambda e: f"{e}{abs(OXI[e])}{'+' if OXI[e] > 0 else '-'}" if oxi else e
    if oxi:
        out += ["loop_", " _atom_type_symbol", " _atom_type_oxidation_number"] + [f" {sym(e)} {OXI[e]}" for e in sorted({r[1] for r in rows})]
    cols = ["_atom_site_label"] + (["_atom_site_type_symbol"] if typed else []) + ["_atom_site_fract_x", "_atom_site_fract_y", "_atom_site_fract_z"]
    occ = any(r[3] != 1 for r in rows) or rng.random() < 0.5
    if occ:
        cols.append("_atom_site_occupancy")
    perm = rng.permutation(len(cols)) if rng.random() < 0.4 else range(len(cols))
    out += ["loop_"] + [" " + cols[k] for k in perm]
    for label, e, f, x in rows:
        v = [label] + ([sym(e)] if typed else []) + [number(rng, q, style) for q in f] + ([f"{x:g}"] if occ else [])
        out.append(" ".join(v[k] for k in perm))
    if rng.random() < 0.2:
        out.insert(1, "# comment line")
    return "\n".join(out) + "\n", style


def plain(sp):
    return {s.symbol: 0.0 for s in sp} if False else {getattr(s, "symbol", str(s)): float(v) for s, v in sp.items()}


def label_of(s):
    return str(s.properties["label"])


def compare(ctx, note, st, m, sites, ops, oxi):
    ctx.count("sites", len(st))
    g = st.lattice.matrix @ st.lattice.matrix.T
    ctx.check(np.allclose(g, m @ m.T, atol=2e-3), "lattice", lambda: f"{note}: {st.lattice}")
    want = [(labels, comp, f, k) for k, (labels, comp, o, _) in enumerate(sites) for f in o]
    if not ctx.check(len(st) == len(want), "site-count", lambda: f"{note}: {len(st)} sites for {len(want)}"):
        return
    taken, seq = set(), {}
    for s in st:
        d = [np.abs((s.frac_coords - w[2]) - np.round(s.frac_coords - w[2])).max() for w in want]
        j = int(np.argmin(d))
        if not ctx.check(d[j] < 2e-4 and j not in taken, "site-position", lambda: f"{note}: {s} is not a site of the file"):
            return
        taken.add(j)
        labels, comp, _, k = want[j]
        sp = plain(s.species)
        ctx.check(set(sp) == set(comp) and all(abs(sp[e] - comp[e]) < 1e-6 for e in comp), "site-species", lambda: f"{note}: {sp} for {dict(comp)}")
        if oxi:
            ctx.check(all(abs(x.oxi_state - OXI[x.symbol]) < 1e-9 for x in s.species), "oxidation-state", lambda: f"{note}: {s.species}")
        ctx.check(label_of(s) == "".join(labels), "site-label", lambda: f"{note}: {label_of(s)} for {labels}")
        seq.setdefault(k, []).append(int(s.properties["wyckoff_sequence"]))
    for k, v in seq.items():
        ctx.check(sorted(v) == list(range(len(v))), "sequence-numbers", lambda: f"{note}: {v} for label {sites[k][0]}")
    idx = [int(s.properties["local_index"]) for s in st]
    ctx.check(sorted(idx) == list(range(len(idx))), "local-index", lambda: f"{note}: {idx}")


def same(a, b):
    return (np.allclose(a.lattice.matrix, b.lattice.matrix, atol=1e-9) and len(a) == len(b)
            and all(x.species == y.species and np.allclose(x.frac_coords, y.frac_coords, atol=1e-12) and x.properties == y.properties for x, y in zip(a, b)))


def primitive(ctx, note, full, prim, centring=1):
    """A primitive cell is the same crystal with labels in place."""
    ctx.count("primitive_cells")
    ratio = full.volume / prim.volume
    q = round(ratio)
    if not ctx.check(q >= 1 and abs(ratio - q) < 1e-3 and len(full) == q * len(prim), "primitive-size", lambda: f"{note}: {len(full)} sites {full.volume} against {len(prim)} {prim.volume}"):
        return
    ctx.count("reduced_cells", int(q > 1))
    ctx.check(q % centring == 0, "not-primitive", lambda: f"{note}: cell with {centring} lattice points reduced by {q}")
    h = full.lattice.matrix @ np.linalg.inv(prim.lattice.matrix)
    if not ctx.check(np.allclose(h, np.round(h), atol=5e-3), "primitive-lattice", lambda: f"{note}: {h.tolist()}"):
        return
    seen = Counter()
    for s in full:
        f = s.coords @ np.linalg.inv(prim.lattice.matrix)
        d = [np.linalg.norm(((f - p.frac_coords) - np.round(f - p.frac_coords)) @ prim.lattice.matrix) for p in prim]
        j = int(np.argmin(d))
        if not ctx.check(d[j] < 0.3, "primitive-position", lambda: f"{note}: no primitive site for {s}"):
            return
        seen[j] += 1
        ctx.check(prim[j].species == s.species, "primitive-species", lambda: f"{note}: {prim[j].species} for {s.species}")
        prim[j].properties.setdefault("_labels", set()).add(label_of(s))
    ctx.check(all(seen[j] == q for j in range(len(prim))), "primitive-multiplicity", lambda: f"{note}: {dict(seen)} for {q}")
    for p in prim:
        lab = p.properties.pop("_labels", set())
        ctx.check(p.properties.get("label") is not None and label_of(p) in lab, "primitive-label", lambda: f"{note}: {p.properties} for {lab}")


def case(ctx, rng, i):
    from kmcpy.io.cif import load_labeled_structure_from_cif, load_labeled_structure_from_string, load_labeled_structures_from_cif

    if i % 7 == 5:
        return named(ctx, rng)
    if i % 7 == 6:
        return broken(ctx, rng)
    c = crystal(rng)
    name, abc, ang, m, ops, rows, sites, oxi = c
    body, style = render(rng, c)
    fname = "a.cif"
    open(fname, "w").write(body)
    note = f"{name} {[(r[0], r[2].tolist(), r[3]) for r in rows]} style {style}"
    ctx.count("files")
    ctx.count("oxidation_states", int(oxi))
    ctx.count("special_positions", sum(len(o) < len(ops) for _, _, o, _ in sites))
    ctx.count("shared_sites", sum(len(l) > 1 for l, *_ in sites))
    ctx.count("equivalent_shared_sites", sum(len(g) > 1 and not np.allclose(g[0], g[1]) for *_, g in sites))
    ctx.count("partial_sites", sum(sum(cc.values()) < 0.99 for _, cc, *_ in sites))
    try:
        st = load_labeled_structure_from_cif(fname)
    except Exception as e:
        ctx.fail("not-loaded", f"{note}: {type(e).__name__} {e}")
        return
    compare(ctx, note, st, m, sites, ops, oxi)
    ctx.check(same(st, load_labeled_structure_from_string(body)) and same(st, load_labeled_structures_from_cif(fname)[0]) and same(st, load_labeled_structure_from_cif(fname, primitive=False)), "readers-differ", note)
    if len(st) > 40:
        ctx.sig(name, [len(o) for _, _, o, _ in sites], style, [len(l) for l, *_ in sites])
        return
    try:
        prim = load_labeled_structure_from_cif(fname, primitive=True)
        again = load_labeled_structure_from_cif(fname, primitive=True) if rng.random() < 0.3 else prim
    except Exception as e:
        ctx.fail("primitive-not-loaded", f"{note}: {type(e).__name__} {e}")
        return
    ctx.check(same(prim, again), "primitive-not-repeatable", note)
    primitive(ctx, note, st, prim, sum(np.array_equal(R, np.eye(3)) for R, _ in ops))
    if rng.random() < 0.2:  # several blocks in one file
        ctx.count("two_blocks")
        c2 = crystal(rng)
        b2, _ = render(rng, c2)
        open("b.cif", "w").write(body.replace("data_", "data_first_", 1) + b2.replace("data_", "data_second_", 1))
        both = load_labeled_structures_from_cif("b.cif")
        if ctx.check(len(both) == 2, "block-count", f"{note}: {len(both)}"):
            compare(ctx, note + " first of two", both[0], m, sites, ops, oxi)
            compare(ctx, "second " + c2[0], both[1], c2[3], c2[6], c2[4], c2[7])
    ctx.sig(name, [len(o) for _, _, o, _ in sites], style, [len(l) for l, *_ in sites])
    ctx.sample({"group": name, "rows": len(rows), "sites": len(st)})


NAMED_GROUPS = [("Fm-3m", 225, "cubic"), ("P4/mmm", 123, "tetra"), ("P6/mmm", 191, "hex"), ("R-3c", 167, "hex"), ("Pnma", 62, "ortho"), ("Im-3m", 229, "cubic"), ("Fd-3m", 227, "cubic")]


def named(ctx, rng):
    """Files that name their group instead of listing operations."""
    from pymatgen.symmetry.groups import SpaceGroup
    from kmcpy.io.cif import load_labeled_structure_from_cif

    sym, num, kind = NAMED_GROUPS[int(rng.integers(len(NAMED_GROUPS)))]
    ops = [(np.array(o.rotation_matrix), np.array(o.translation_vector)) for o in SpaceGroup(sym).symmetry_ops]
    abc, ang = cell(rng, kind)
    m = lattice(abc, ang)
    sites, fr, rows = [], [], []
    for k in range(int(rng.integers(1, 4))):
        for _ in range(40):
            f = np.array([round(float(v), 5) for v in rng.choice([0.0, 0.25, 0.5, 0.125, 0.3], 3)])
            o = orbit(f, ops)
            if len(fr) + len(o) <= 110 and mindist(fr + o, m) > 0.9:
                break
        else:
            continue
        fr += o
        e = ["Na", "Zr", "O"][k]
        sites.append(([f"{e}{k + 1}"], Counter({e: 1.0}), o, [f]))
        rows.append((f"{e}{k + 1}", e, f))
    if not rows:
        return
    ctx.count("named_groups")
    ctx.count("files")
    tag = str(rng.choice(["_symmetry_space_group_name_H-M", "_space_group_name_H-M_alt"]))
    body = "\n".join(["data_n"] + [f"_cell_length_{k} {v}" for k, v in zip("abc", abc)] + [f"_cell_angle_{k} {v}" for k, v in zip(["alpha", "beta", "gamma"], ang)]
                     + [f"{tag} '{sym}'", "loop_", " _atom_site_label", " _atom_site_type_symbol", " _atom_site_fract_x", " _atom_site_fract_y", " _atom_site_fract_z"]
                     + [f" {a} {b} " + " ".join(f"{v:.5f}" for v in f) for a, b, f in rows]) + "\n"
    open("n.cif", "w").write(body)
    try:
        st = load_labeled_structure_from_cif("n.cif")
    except Exception as e:
        ctx.fail("not-loaded", f"{type(e).__name__} {e}: {body}")
        return
    note = f"named {sym} {[(a, f.tolist()) for a, _, f in rows]}"
    compare(ctx, note, st, m, sites, ops, False)
    if len(st) <= 40:
        primitive(ctx, note, st, load_labeled_structure_from_cif("n.cif", primitive=True), sum(np.allclose(R, np.eye(3)) for R, _ in ops))
    ctx.sig("named", sym, [len(o) for _, _, o, _ in sites])


def broken(ctx, rng):
    """Files without a crystal must be refused."""
    from kmcpy.io.cif import load_labeled_structure_from_cif, load_labeled_structure_from_string

    c = crystal(rng)
    body, _ = render(rng, c)
    lines = body.splitlines()
    for k in range(4):
        ctx.count("refusals")
        if k == 0:
            bad = "\n".join(l for l in lines if "_cell_length_b" not in l)
        elif k == 1:
            bad = "data_none\n_cell_length_a 5\n"
        elif k == 2:
            row = c[5][0]
            bad = body.replace(f"_cell_angle_beta {c[2][1]}", "_cell_angle_beta wide")
        else:
            bad = ""
        open("bad.cif", "w").write(bad)
        fn = (lambda: load_labeled_structure_from_cif("bad.cif")) if rng.random() < 0.5 else (lambda: load_labeled_structure_from_string(bad))
        ctx.expect_raises(fn, Exception, "broken-file-accepted", f"{c[0]} fault {k}")
    ctx.expect_raises(lambda: load_labeled_structure_from_cif("missing.cif"), Exception, "missing-file", c[0])
    # positions that are no numbers, and more atoms than a site can hold
    a = float(np.round(rng.uniform(5.5, 9), 3))
    head = ["data_x"] + [f"_cell_length_{k} {a}" for k in "abc"] + [f"_cell_angle_{k} 90" for k in ("alpha", "beta", "gamma")] + ["loop_", " _symmetry_equiv_pos_as_xyz", " 'x,y,z'"]
    cols = ["loop_", " _atom_site_label", " _atom_site_type_symbol", " _atom_site_fract_x", " _atom_site_fract_y", " _atom_site_fract_z", " _atom_site_occupancy"]
    f = [f"{v:.4f}" for v in rng.uniform(0.1, 0.9, 3)]
    k = int(rng.integers(3))
    word = str(rng.choice(["abc", "?", "0.2x", "one"]))
    g = [word if q == k else v for q, v in enumerate(f)]
    over = float(np.round(rng.uniform(1.02, 1.9), 3))
    x = float(np.round(rng.uniform(0.3, 0.7) * over, 3))
    for what, rows in (("position", [["Na1", "Na"] + g + ["1"], ["O1", "O", "0.0", "0.0", "0.0", "1"]]),
                       ("overfull", [["Na1", "Na"] + f + [f"{x:g}"], ["K1", "K"] + f + [f"{over - x:g}"], ["O1", "O", "0.0", "0.0", "0.0", "1"]]),
                       ("overfull-one", [["Na1", "Na"] + f + [f"{over:g}"], ["O1", "O", "0.0", "0.0", "0.0", "1"]])):
        bad = "\n".join(head + cols + [" ".join(r) for r in rows]) + "\n"
        open("bad.cif", "w").write(bad)
        ctx.count("refusals")
        ctx.expect_raises(lambda: load_labeled_structure_from_cif("bad.cif"), Exception, f"broken-file-accepted-{what}", f"{rows}")
    ctx.sig("broken", c[0])
