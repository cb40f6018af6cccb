"""Full event trace of a real run plus an independent replay of it.

The trace comes from the model's documented apply_event hook (every accepted
event) and a per-step property callback (production events only).
"""
from __future__ import annotations

import numpy as np

from .mon import Recorder, species
from .toys import build_run

_IM = np.array(list(np.ndindex(9, 9, 9)), float) - 4


def shortest(frac_a, frac_b, matrix):
    """Cartesian vector a -> b over the periodic image that makes it shortest."""
    v = (np.asarray(frac_b) - np.asarray(frac_a) + _IM) @ matrix
    return v[int(np.argmin(np.einsum("ij,ij->i", v, v)))]


class Shadow:
    """Per-ion displacement, hop count and location replayed from the trace."""

    def __init__(self, positions, matrix, allowed, mobile, occ):
        self.pos, self.m, self.allowed, self.mobile = positions, matrix, allowed, mobile
        sp = species(allowed, occ)
        self.sp = sp
        self.ions = {k: site for k, site in enumerate([i for i, s in enumerate(sp) if s == mobile])}
        self.at = {site: k for k, site in self.ions.items()}
        n = len(self.ions)
        self.disp = np.zeros((n, 3))
        self.hops = np.zeros(n, int)
        self.vec = {}

    def step(self, occ_after):
        """Work out who moved from the change of species alone; returns (ion, source, target) or None."""
        now = species(self.allowed, occ_after)
        left = [i for i in range(len(now)) if self.sp[i] == self.mobile and now[i] != self.mobile]
        came = [i for i in range(len(now)) if now[i] == self.mobile and self.sp[i] != self.mobile]
        self.sp = now
        if len(left) != 1 or len(came) != 1:
            return None
        a, b = left[0], came[0]
        ion = self.at.pop(a)
        self.at[b] = ion
        self.ions[ion] = b
        if (a, b) not in self.vec:
            self.vec[(a, b)] = shortest(self.pos[a], self.pos[b], self.m)
        self.disp[ion] += self.vec[(a, b)]
        self.hops[ion] += 1
        return ion, a, b


class Trace:
    pass


def traced_run(rng, *, run_label=None, shadow_rows=True, **kw):
    toy, aso, allowed, occ, config, kmc = build_run(rng, **kw)
    t = Trace()
    t.toy, t.aso, t.allowed, t.occ, t.config, t.kmc = toy, aso, allowed, occ, config, kmc
    act = aso.active_structure()
    t.pos = np.array([s.frac_coords for s in act])
    t.matrix = np.array(act.lattice.matrix)
    t.volume = abs(float(np.linalg.det(t.matrix)))
    t.t0 = float(kmc.simulation_state.time)
    t.step0 = int(kmc.simulation_state.step)
    t.rec = Recorder(kmc, store=False)
    t.tracker = kmc.run(label=run_label) if run_label is not None else kmc.run()
    finish(t)
    return t


def finish(t):
    t.log = list(t.kmc.model.log)                 # every accepted event
    t.rows = list(t.rec.rows)                     # production events
    t.n_eq = len(t.log) - len(t.rows)
    start = t.log[t.n_eq - 1][3] if t.n_eq > 0 else tuple(t.occ)
    t.start = start
    sh = Shadow(t.pos, t.matrix, t.allowed, t.toy.mobile, start)
    t.shadow_rows = []                            # (step, time, disp copy, hops copy)
    t.moves = []
    for (step, time, occ, sstep, stime) in t.rows:
        t.moves.append(sh.step(occ))
        t.shadow_rows.append((step, time, sh.disp.copy(), sh.hops.copy()))
    t.shadow = sh
    return t
