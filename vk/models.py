"""Cluster-expansion model builders over toy crystals (public API only)."""
from __future__ import annotations

import numpy as np

from .toys import endpoint_labels, make_toy


def start_index(toy):
    """Primitive index (file order) of the single starting-site class, or None."""
    a, _ = endpoint_labels(toy)
    if len(a) != 1:
        return None
    lab = next(iter(a))
    return [l for l, _, _ in toy.sites].index(lab)


def lce_toy(rng, *, max_env=10, families=("chain", "square", "cubic", "bcc2", "hex", "layer"), **kw):
    """A toy with one class of starting site and a small local environment."""
    from pymatgen.core import Lattice

    for _ in range(400):
        toy = make_toy(rng, families[int(rng.integers(len(families)))], **kw)
        k = start_index(toy)
        if k is None:
            continue
        m = toy.lattice_matrix()
        n = 0
        for l, el, f in toy.sites:
            if not isinstance(toy.site_mapping[el], list) or len(toy.site_mapping[el]) < 2:
                continue
            r = np.arange(-3, 4)
            im = np.array(np.meshgrid(r, r, r)).reshape(3, -1).T
            d = np.linalg.norm((np.array(f) - np.array(toy.sites[k][2]) + im) @ m, axis=1)
            n += int(((d < toy.cutoff) & (d > 1e-3)).sum())
        if 1 <= n <= max_env:
            return toy
    raise RuntimeError("no LCE toy")


def local_structure(toy, order="nasicon_nat_commun_2022", basis="chebyshev", center=None, cutoff=None, **kw):
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

    st = load_labeled_structure_from_cif(toy.cif)
    if center is None:  # the loader may reorder sites
        lab = toy.sites[start_index(toy)][0]
        center = [str(x.properties.get("label", getattr(x, "label", ""))) for x in st].index(lab)
    return LocalLatticeStructure(
        template_structure=st, center=center,
        cutoff=toy.cutoff if cutoff is None else cutoff, site_mapping=toy.site_mapping,
        basis_type=basis, local_site_order=order, **kw,
    )


def build_lce(rng, lls, cutoffs=None):
    from kmcpy.models import LocalClusterExpansion

    lce = LocalClusterExpansion()
    cutoffs = cutoffs or [float(v) for v in sorted(rng.uniform(2.5, 7.0, 3), reverse=True)]
    lce.build(lls, cutoff_cluster=list(cutoffs))
    return lce


def random_parameters(rng, lce, scale=60.0, base=None):
    n = len(lce.cluster_site_indices)
    lce.set_parameters({
        "keci": [float(v) for v in rng.normal(0, scale / max(1, n), n)],
        "empty_cluster": float(rng.uniform(150, 300)) if base is None else float(base),
        "orbit_fingerprints": lce.get_orbit_fingerprints(),
        "local_environment_hash": lce.local_environment_hash,
    })
    return lce


def composite_payload(rng, toy, aso, allowed, site=True):
    from kmcpy.models import CompositeLCEModel

    kra = random_parameters(rng, build_lce(rng, local_structure(toy)))
    sm = None
    if site:
        sm = random_parameters(rng, build_lce(rng, local_structure(toy)), base=float(rng.normal(0, 40)))
    return CompositeLCEModel(site_model=sm, kra_model=kra).as_dict()
