"""Brute-force periodic geometry, independent of kMCpy and of pymatgen's neighbour lists."""
from __future__ import annotations

import numpy as np


def lattice(abc, angles):
    a, b, c = abc
    al, be, ga = np.radians(angles)
    cx = np.cos(be)
    cy = (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    cz = np.sqrt(max(0.0, 1 - cx * cx - cy * cy))
    return np.array([[a, 0, 0], [b * np.cos(ga), b * np.sin(ga), 0], [c * cx, c * cy, c * cz]])


def heights(m):
    vol = abs(np.linalg.det(m))
    return [vol / np.linalg.norm(np.cross(m[(i + 1) % 3], m[(i + 2) % 3])) for i in range(3)]


def images(m, cutoff):
    r = [int(np.ceil(cutoff / h)) + 1 for h in heights(m)]
    g = np.meshgrid(*[np.arange(-k, k + 1) for k in r], indexing="ij")
    return np.stack([x.ravel() for x in g], axis=1)


def neighbours(frac, m, i, cutoff_of):
    """[(j, image, distance)] of sites j with 0 < distance < cutoff_of(j), by enumeration of images."""
    fr = np.asarray(frac, float)
    cmax = max(cutoff_of(j) for j in range(len(fr)))
    im = images(m, cmax + 0.5)
    out = []
    for j in range(len(fr)):
        d = np.linalg.norm((fr[j] - fr[i] + im) @ m, axis=1)
        for k in np.nonzero((d > 1e-3) & (d < cutoff_of(j)))[0]:
            out.append((j, tuple(int(v) for v in im[k]), float(d[k])))
    return out


def locate(frac_super, shape, frac_prim, elements_super, elements_prim, tol=2e-4):
    """Map each supercell site to (primitive site, cell) from its position alone; None where none fits."""
    shape = np.array(shape, float)
    out = []
    fp = np.asarray(frac_prim, float)
    for f, el in zip(np.asarray(frac_super, float), elements_super):
        p = f * shape
        hit = None
        for j in range(len(fp)):
            if elements_prim[j] != el:
                continue
            d = p - fp[j]
            r = np.rint(d)
            if np.all(np.abs(d - r) < tol * shape.max()):
                hit = (j, tuple(int(v) for v in np.mod(r, shape)))
                break
        out.append(hit)
    return out
