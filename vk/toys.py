"""Random and hostile toy crystals, models and runs, built through kMCpy's public API."""
from __future__ import annotations

import json
import math
import os
from dataclasses import dataclass, field

import numpy as np

VACS = {"X", "Vacancy", "vacancy", "Va", "VA"}
KB = 8.617333262145e-2  # meV / K


# --------------------------------------------------------------------------
# crystals
# --------------------------------------------------------------------------
@dataclass
class Toy:
    name: str
    abc: tuple
    angles: tuple
    sites: list  # (label, element, (x, y, z))
    site_mapping: dict
    shape: tuple
    cutoff: float
    mobile: str = "Na"
    identifiers: tuple | None = None
    mobile_species: tuple | None = None
    cif: str = ""
    extra: dict = field(default_factory=dict)

    def write_cif(self, path):
        a, b, c = self.abc
        al, be, ga = self.angles
        lines = [
            "data_toy",
            "_symmetry_space_group_name_H-M   'P 1'",
            f"_cell_length_a   {a:.8f}",
            f"_cell_length_b   {b:.8f}",
            f"_cell_length_c   {c:.8f}",
            f"_cell_angle_alpha   {al:.8f}",
            f"_cell_angle_beta   {be:.8f}",
            f"_cell_angle_gamma   {ga:.8f}",
            "_symmetry_Int_Tables_number   1",
            "loop_",
            " _symmetry_equiv_pos_site_id",
            " _symmetry_equiv_pos_as_xyz",
            "  1  'x, y, z'",
            "loop_",
            " _atom_site_type_symbol",
            " _atom_site_label",
            " _atom_site_fract_x",
            " _atom_site_fract_y",
            " _atom_site_fract_z",
            " _atom_site_occupancy",
        ]
        for label, el, (x, y, z) in self.sites:
            lines.append(f"  {el}  {label}  {x:.10f}  {y:.10f}  {z:.10f}  1")
        with open(path, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        self.cif = os.path.abspath(path)
        return self.cif

    def lattice_matrix(self):
        from pymatgen.core import Lattice

        return Lattice.from_parameters(*self.abc, *self.angles).matrix


def perp_heights(matrix):
    vol = abs(np.linalg.det(matrix))
    return [
        vol / np.linalg.norm(np.cross(matrix[(i + 1) % 3], matrix[(i + 2) % 3]))
        for i in range(3)
    ]


def safe_shape(matrix, cutoff, rng=None, extra=0):
    """Supercell large enough that a neighbour within cutoff has one image."""
    shape = []
    for h in perp_heights(matrix):
        n = int(math.floor(2 * cutoff / h)) + 1
        shape.append(n + (int(rng.integers(0, extra + 1)) if extra else 0))
    return tuple(shape)


def min_image_distances(frac_a, frac_b, matrix, reach=2):
    """All periodic distances between two points (brute force images)."""
    rng = range(-reach, reach + 1)
    images = np.array([(i, j, k) for i in rng for j in rng for k in rng], float)
    d = (np.asarray(frac_b) - np.asarray(frac_a) + images) @ matrix
    return images.astype(int), np.linalg.norm(d, axis=1)


MOBILE_LISTS = [
    ["Na", "X"],
    ["X", "Na"],
    ["Na", "X", "K"],
    ["K", "Na", "X"],
    ["Na", "K", "Vacancy"],
    ["Va", "Na"],
]
FRAME_LISTS = [["Si", "P"], ["P", "Si"], ["Si", "P", "Al"], ["Al", "Si", "P", "Ge"], ["V", "Si"]]


def _far_enough(cands, matrix, dmin):
    for i in range(len(cands)):
        for j in range(i, len(cands)):
            img, d = min_image_distances(cands[i], cands[j], matrix, 1)
            if i == j:
                d = d[~np.all(img == 0, axis=1)]
            if d.min() < dmin:
                return False
    return True


def gap_cutoff(fracs_c, fracs_n, matrix, lo, hi, rng):
    """A cutoff in [lo, hi] sitting in the middle of a gap between shells."""
    ds = []
    for a in fracs_c:
        for b in fracs_n:
            _, d = min_image_distances(a, b, matrix, 3)
            ds.extend(d[(d > 0.05) & (d < hi + 2)])
    ds = np.unique(np.round(ds, 6))
    edges = np.concatenate([[max(lo - 1, 0.1)], ds, [hi + 1]])
    best = []
    for a, b in zip(edges[:-1], edges[1:]):
        m = 0.5 * (a + b)
        if b - a > 0.06 and lo <= m <= hi and (ds < m).any():
            best.append(m)
    if not best:
        return None
    return float(best[int(rng.integers(len(best)))])


def endpoint_labels(toy):
    """Labels of the allowed starting and target sites."""
    def expand(ident):
        toks = [ident] if isinstance(ident, str) else list(ident)
        return {l for l, el, _ in toy.sites if l in toks or el in toks}

    if toy.identifiers is None:
        mob = toy.mobile_species or [k for k, v in toy.site_mapping.items() if isinstance(v, (list, tuple)) and any(x in VACS for x in v)]
        return expand(list(mob)), expand(list(mob))
    return expand(toy.identifiers[0]), expand(toy.identifiers[1])


def _has_target(toy, m):
    a, b = endpoint_labels(toy)
    for la, _, fa in toy.sites:
        for lb, _, fb in toy.sites:
            if la in a and lb in b:
                _, d = min_image_distances(fa, fb, m, 2)
                if ((d > 0.05) & (d < toy.cutoff)).any():
                    return True
    return False


def make_toy(rng, family=None, *, binary=False, exclude=(), framework=None, mobile_list=None, max_sites=70):
    fams = ["chain", "twosub", "square", "cubic", "bcc2", "tri", "tri", "hex", "layer", "two_na"]
    for _ in range(200):
        fam = family or fams[int(rng.integers(len(fams)))]
        if fam in exclude or (binary and fam == "twosub" and family is None):
            continue
        ml = mobile_list or (["Na", "X"] if binary else MOBILE_LISTS[int(rng.integers(len(MOBILE_LISTS)))])
        fl = ["Si", "P"] if binary else FRAME_LISTS[int(rng.integers(len(FRAME_LISTS)))]
        ident = None
        angles = (90.0, 90.0, 90.0)
        sites = []
        if fam == "chain":
            a = float(rng.uniform(2.5, 4.0))
            abc = (a, float(rng.uniform(11, 14)), float(rng.uniform(11, 14)))
            sites = [("Na1", "Na", (0.1, 0.2, 0.3))]
            cut = a * float(rng.choice([1.3, 2.2]))
        elif fam == "square":
            a, b = rng.uniform(2.6, 3.6, 2)
            abc = (float(a), float(b), 12.0)
            sites = [("Na1", "Na", (0.0, 0.0, 0.5))]
            cut = float(max(a, b) * 1.1)
        elif fam == "cubic":
            a = float(rng.uniform(3.0, 4.0))
            abc = (a, a, a)
            sites = [("Na1", "Na", (0.0, 0.0, 0.0))]
            cut = a * 1.2
        elif fam == "bcc2":
            a = float(rng.uniform(3.5, 4.5))
            abc = (a, a * 1.03, a * 1.07)
            sites = [("Na1", "Na", (0, 0, 0)), ("Na2", "Na", (0.5, 0.5, 0.5))]
            ident = ("Na1", "Na2") if rng.random() < 0.7 else None
            cut = a * 0.98
        elif fam == "hex":
            a = float(rng.uniform(3.0, 4.0))
            abc = (a, a, float(rng.uniform(9, 11)))
            angles = (90.0, 90.0, 120.0)
            sites = [("Na1", "Na", (0, 0, 0.1)), ("Si1", "Si", (1 / 3, 2 / 3, 0.35)), ("O1", "O", (0.5, 0.1, 0.8))]
            cut = None
        elif fam == "twosub":
            # two sublattices whose allowed-species lists differ in order or content
            a = float(rng.uniform(3.6, 4.4))
            abc = (a, a * 1.02, a * 1.05)
            sites = [("Na1", "Na", (0, 0, 0)), ("Li1", "Li", (0.5, 0.5, 0.5))]
            ident = [("Na1", "Li1"), None][int(rng.integers(2))]
            cut = a * 0.97
        elif fam == "layer":
            a = float(rng.uniform(3.2, 4.2))
            abc = (a, a * 1.1, float(rng.uniform(8, 10)))
            sites = [
                ("O1", "O", (0.5, 0.5, 0.0)),
                ("Na1", "Na", (0.0, 0.0, 0.5)),
                ("Na2", "Na", (0.5, 0.48, 0.52)),
                ("Si1", "Si", (0.25, 0.7, 0.75)),
            ]
            ident = [("Na1", "Na2"), None, ("Na1", "Na1")][int(rng.integers(3))]
            cut = None
        else:  # tri / two_na
            abc = tuple(float(v) for v in rng.uniform(4.5, 6.5, 3))
            angles = tuple(float(v) for v in rng.uniform(72, 112, 3)) if fam == "tri" else angles
            n_na = int(rng.integers(2, 4))
            n_si = int(rng.integers(0, 2)) if framework is None else int(framework)
            sites = []
            for k in range(n_na):
                sites.append((f"Na{k + 1}", "Na", tuple(float(v) for v in rng.random(3))))
            for k in range(n_si):
                sites.append((f"Si{k + 1}", "Si", tuple(float(v) for v in rng.random(3))))
            sites.append(("O1", "O", tuple(float(v) for v in rng.random(3))))
            order = rng.permutation(len(sites))
            sites = [sites[int(k)] for k in order]
            ident = [None, ("Na1", "Na2"), (["Na1", "Na2"], ["Na2"])][int(rng.integers(3))]
            cut = None
        els = {el for _, el, _ in sites}
        mapping = {"Na": list(ml)}
        if "Li" in els:
            mapping["Li"] = [["X", "Na"], ["Na", "X"], ["K", "X", "Na"], ["Vacancy", "K", "Na"]][int(rng.integers(4))]
            if ident is None and not any(v in ("X", "Vacancy") for v in ml):
                continue
        if "Si" in els:
            mapping["Si"] = list(fl)
        if "O" in els:
            mapping["O"] = "O"
        toy = Toy(fam, abc, angles, sites, mapping, (1, 1, 1), 0.0, identifiers=ident)
        if ml[0] in ("Va", "VA") or ml[-1] in ("Va", "VA") or rng.random() < 0.3:
            toy.mobile_species = ("Na", "Li") if "Li" in els else ("Na",)
        m = toy.lattice_matrix()
        if abs(np.linalg.det(m)) < 20:
            continue
        fr = [s[2] for s in sites]
        if not _far_enough(fr, m, 1.7):
            continue
        na = [s[2] for s in sites if s[1] == "Na"]
        act = [s[2] for s in sites if s[1] in ("Na", "Si", "Li")]
        if cut is None:
            cut = gap_cutoff(na, act, m, 2.6, 4.6, rng)
            if cut is None:
                continue
        toy.cutoff = float(cut)
        toy.shape = safe_shape(m, toy.cutoff, rng, extra=1 if rng.random() < 0.3 else 0)
        if fam == "chain":
            toy.shape = (max(toy.shape[0], int(rng.integers(4, 9))), toy.shape[1], toy.shape[2])
        if not _has_target(toy, m):
            continue
        n_act = len(act) * int(np.prod(toy.shape))
        if n_act > max_sites:
            continue
        return toy
    raise RuntimeError("toy generation failed")


def narrow_toy(rng):
    """An oblique cell barely wide enough: one image of a neighbour within the cutoff, which
    need not be the one that rounding fractional coordinates gives."""
    from .geom import lattice

    while True:
        abc = rng.uniform(4.0, 8.0, 3)
        ang = rng.choice([45.0, 60.0, 120.0, 135.0, 90.0], 3) if rng.random() < 0.5 else rng.uniform(45, 135, 3)
        m = lattice(abc, ang)
        if not np.isfinite(m).all() or abs(np.linalg.det(m)) < 40:
            continue
        if rng.random() < 0.4:  # the same kind of crystal in a long, unreduced cell: neighbours several cells away
            i, j = (int(v) for v in rng.permutation(3)[:2])
            m = m.copy()
            m[i] += int(rng.choice([-3, -2, -1, 1, 2, 3])) * m[j]
            abc = np.linalg.norm(m, axis=1)
            ang = np.degrees([np.arccos(m[(k + 1) % 3] @ m[(k + 2) % 3] / abc[(k + 1) % 3] / abc[(k + 2) % 3]) for k in range(3)])
            if ang.min() < 20 or ang.max() > 160:
                continue
            abc, ang = np.round(abc, 4), np.round(ang, 3)
            m = lattice(abc, ang)
        n = int(rng.integers(2, 5))
        fr = [tuple(np.round(v, 4)) for v in rng.random((n, 3))]
        shape = tuple(int(v) for v in rng.integers(1, 3, 3))
        big = m * np.array(shape)[:, None]
        cells = [np.array(c) for c in np.ndindex(*shape)]
        sites = [(np.array(f) + c) / shape for f in fr for c in cells]
        if len(sites) > 24:
            continue
        near, far = [], []
        for a in range(len(sites)):
            for b in range(a, len(sites)):
                d = np.sort(min_image_distances(sites[a], sites[b], big, 5)[1])
                if a == b:
                    far.append(d[1])
                else:
                    near.append(d[0])
                    far.append(d[1])
        limit = min(min(far) - 0.05, 5.0)
        inside = sorted(d for d in near if d < limit)
        if not inside or inside[0] < 1.2:
            continue
        cut = 0.5 * (inside[-1] + limit)
        if min(abs(cut - d) for d in near) < 0.02:
            continue
        return Toy("narrow", tuple(float(v) for v in abc), tuple(float(v) for v in ang), [(f"Na{k + 1}", "Na", tuple(map(float, f))) for k, f in enumerate(fr)],
                   {"Na": ["Na", "X"]}, shape, float(cut))


def active_order(toy):
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    return ActiveSiteOrder.from_structure_and_mapping(
        load_labeled_structure_from_cif(toy.cif), toy.site_mapping, supercell_shape=toy.shape
    )


def allowed_lists(aso):
    return [list(aso.allowed_species_by_primitive_site[int(p)]) for p in aso.active_to_primitive]


def random_occupations(rng, allowed, mobile="Na", fill=None):
    """Random valid occupation with at least one mobile ion next to vacancies."""
    fill = float(rng.uniform(0.15, 0.85)) if fill is None else fill
    occ = []
    msites = [i for i, a in enumerate(allowed) if mobile in a and any(v in VACS for v in a)]
    for i, a in enumerate(allowed):
        if i in msites:
            mob = a.index(mobile)
            vac = next(k for k, v in enumerate(a) if v in VACS)
            others = [k for k in range(len(a)) if k not in (mob, vac)]
            u = rng.random()
            if others and u < 0.12:
                occ.append(int(others[int(rng.integers(len(others)))]))
            else:
                occ.append(mob if rng.random() < fill else vac)
        else:
            occ.append(int(rng.integers(len(a))))
    mobs = [i for i in msites if allowed[i][occ[i]] == mobile]
    vacs = [i for i in msites if allowed[i][occ[i]] in VACS]
    pick = [int(v) for v in rng.permutation(msites)]
    if not mobs:
        i = pick[0]
        occ[i] = allowed[i].index(mobile)
    if not vacs:
        i = pick[-1]
        occ[i] = next(k for k, v in enumerate(allowed[i]) if v in VACS)
    return occ


def generate_events(toy, path="events.json", **kw):
    from kmcpy.event import EventGenerator

    args = dict(
        structure_file=toy.cif,
        site_mapping=toy.site_mapping,
        supercell_shape=list(toy.shape),
        local_env_cutoff=toy.cutoff,
        event_file=path,
    )
    if toy.identifiers is not None:
        args["mobile_ion_identifiers"] = toy.identifiers
    if toy.mobile_species is not None:
        args["mobile_species"] = list(toy.mobile_species)
    args.update(kw)
    gen = EventGenerator()
    gen.generate_events(**args)
    return gen


# --------------------------------------------------------------------------
# models
# --------------------------------------------------------------------------
def random_barrier_payload(rng, allowed, n_rules=None, local_only=True):
    """A random LocalBarrierModel payload whose rules look only at event-local sites."""
    n_rules = int(rng.integers(0, 5)) if n_rules is None else n_rules
    smax = max(len(a) for a in allowed)
    site_species = {
        i: {k: ("Vacancy" if v in VACS else v) for k, v in enumerate(a)} for i, a in enumerate(allowed)
    }
    rules = []
    for r in range(n_rules):
        kind = ["state_count", "species_count", "pattern"][int(rng.integers(3))]
        barrier = float(rng.uniform(50, 400))
        sel = ["local_env", "mobile_ion", "canonical", "from", "to"][int(rng.integers(5))]
        if kind == "state_count":
            rule = {"type": kind, "sites": sel, "state": int(rng.integers(smax))}
        elif kind == "species_count":
            names = sorted({v for d in site_species.values() for v in d.values()})
            sp = [names[int(k)] for k in rng.permutation(len(names))[: int(rng.integers(1, 3))]]
            rule = {"type": kind, "sites": sel, "species": sp if rng.random() < 0.6 else sp[0]}
        else:
            rule = {
                "type": kind,
                "sites": "mobile_ion",
                "pattern": [["*", "occupied", "vacant", 2][int(rng.integers(4))] for _ in range(2)],
            }
        if kind != "pattern":
            hi = {"from": 1, "to": 1, "mobile_ion": 2}.get(sel, 6)
            lo = int(rng.integers(0, hi + 1))
            mode = int(rng.integers(3))
            if mode == 0:
                rule["count"] = lo
            elif mode == 1:
                rule["min_count"] = lo
            else:
                rule["min_count"], rule["max_count"] = lo, lo + int(rng.integers(0, 3))
        rule["name"] = f"r{r}"
        rule["properties"] = {"barrier": barrier}
        rules.append(rule)
    from kmcpy.models import LocalBarrierModel

    model = LocalBarrierModel(
        rules=rules, default_barrier=float(rng.uniform(100, 300)), site_species=site_species
    )
    return model.as_dict()


def pair_energy(occ, J, h):
    """Global lattice energy in meV: fields h[i][s] and couplings J[(i, j)][s, t]."""
    e = sum(h[i][s] for i, s in enumerate(occ))
    for (i, j), m in J.items():
        e += m[occ[i], occ[j]]
    return float(e)


# --------------------------------------------------------------------------
# runs
# --------------------------------------------------------------------------
def spy_file(inner_payload, path="model_spy.json"):
    json.dump(
        {"@module": "vk.spymodel", "@class": "SpyModel", "inner": inner_payload},
        open(path, "w"),
        default=lambda o: o.tolist() if hasattr(o, "tolist") else str(o),
    )
    return path


def make_config(toy, occ, model_file, event_file="events.json", **kw):
    from kmcpy.simulator.config import Configuration

    args = dict(
        structure_file=toy.cif,
        model_file=model_file,
        event_file=event_file,
        initial_occupations=list(occ),
        supercell_shape=tuple(toy.shape),
        dimension=3,
        mobile_ion_specie=toy.mobile,
        mobile_ion_charge=1.0,
        elementary_hop_distance=3.0,
        site_mapping=toy.site_mapping,
        convert_to_primitive_cell=False,
        temperature=300.0,
        attempt_frequency=1e12,
        equilibration_passes=0,
        kmc_passes=2,
        random_seed=7,
        name="toy",
    )
    args.update(kw)
    return Configuration(**args)


def any_available(kmc):
    return float(np.sum(kmc.prob_list)) > 0


def event_pairs(path="events.json"):
    with open(path) as fh:
        return [tuple(int(v) for v in e["mobile_ion_indices"]) for e in json.load(fh)["events"]]


def movable_occupations(rng, allowed, mobile="Na", path="events.json"):
    """Random occupation in which at least one listed hop is possible.

    Runs may still lock up later when inert ions block every path, so keep the
    network connected enough: retry until two different ions could move, or one.
    """
    pairs = event_pairs(path)
    best = None
    for _ in range(30):
        occ = random_occupations(rng, allowed, mobile)
        sp = [a[s] for a, s in zip(allowed, occ)]
        n = sum(1 for i, j in pairs if (sp[i] == mobile and sp[j] in VACS) or (sp[j] == mobile and sp[i] in VACS))
        if n:
            return occ
        best = occ
    i, j = pairs[0]
    occ = list(best)
    occ[i] = allowed[i].index(mobile)
    occ[j] = next(k for k, v in enumerate(allowed[j]) if v in VACS)
    return occ


def build_run(rng, *, toy=None, model_payload=None, spy=True, occ=None, **cfg):
    """A complete KMC through CIF -> events -> model file -> Configuration."""
    from kmcpy.simulator.kmc import KMC

    toy = toy or make_toy(rng)
    toy.write_cif("toy.cif")
    generate_events(toy)
    aso = active_order(toy)
    allowed = allowed_lists(aso)
    occ = occ if occ is not None else movable_occupations(rng, allowed, toy.mobile)
    payload = model_payload(rng, toy, aso, allowed) if callable(model_payload) else model_payload
    if payload is None:
        payload = random_barrier_payload(rng, allowed)
    mfile = spy_file(payload) if spy else "model.json"
    if not spy:
        json.dump(payload, open(mfile, "w"))
    cfg.setdefault("random_seed", int(rng.integers(1, 2**31)))
    cfg.setdefault("temperature", float(rng.uniform(250, 1200)))
    cfg.setdefault("attempt_frequency", float(10 ** rng.uniform(11, 13.5)))
    config = make_config(toy, occ, mfile, **cfg)
    kmc = KMC.from_config(config)
    return toy, aso, allowed, occ, config, kmc
