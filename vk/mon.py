"""Shared run-time monitors over a live simulation."""
from __future__ import annotations

from collections import Counter

from .toys import VACS, build_run


def species(allowed, occ):
    out = []
    for a, s in zip(allowed, occ):
        s = int(s)
        out.append(a[s] if 0 <= s < len(a) else f"?{s}")
    return ["X" if v in VACS else v for v in out]


def census(allowed, occ):
    return Counter(species(allowed, occ))


class Recorder:
    """Per-step observer attached through the documented callback interface."""

    def __init__(self, kmc, store=True):
        self.rows = []
        self.kmc = kmc
        kmc.attach(self, interval=1, name="vk_recorder", store=store)

    def __call__(self, state, step, sim_time):
        self.rows.append((int(step), float(sim_time), tuple(int(v) for v in state.occupations),
                          int(state.step), float(state.time)))
        return len(self.rows)


def random_model(rng, toy, aso, allowed):
    """Local barrier, pairwise-external-energy, or composite payload (see models.py)."""
    from .toys import random_barrier_payload

    return random_barrier_payload(rng, allowed)


def monitored(rng, **kw):
    toy, aso, allowed, occ, config, kmc = build_run(rng, **kw)
    rec = Recorder(kmc)
    return toy, aso, allowed, occ, config, kmc, rec
