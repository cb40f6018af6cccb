"""P04: unwrapped per-ion trajectories against an independent replay."""
import numpy as np

from ..mon import species
from ..toys import VACS, Toy, build_run, make_toy, narrow_toy
from ..trace import Shadow, traced_run

TECHNIQUE = "runtime monitoring: offline replay of the recorded event trace (independent per-ion bookkeeping with brute-force periodic images) against the tracker"
LEVEL = ("exploration", "Every hop of every run is replayed from the observed change of species; final arrays are compared ion by ion, intermediate ones through per-step samples and a tracker driven step by step.")
CASES = {"quick": 130, "thorough": 1300}
RULE = "random crystal (skewed and two-sublattice cells included) x supercell x occupation x equilibration x seed; distinct by (crystal, ions, equilibration, hops, boundary crossings)"
MIN = {"hops": 4000, "boundary_crossings": 300, "backward": 300, "narrow_hops": 300, "skew_images": 20}
ASSUMPTIONS = ["supercell wide enough that the short image of a hop is unique"]


def compare(ctx, where, locs, disp, hops, sh):
    locs = [int(v) for v in locs]
    ctx.check(len(set(locs)) == len(locs), "ions-share-site", lambda: f"{where}: {locs}")
    want = sorted(i for i, s in enumerate(sh.sp) if s == sh.mobile)
    if not ctx.check(sorted(locs) == want, "location", lambda: f"{where}: tracker has ions at {sorted(locs)}, occupations say {want}"):
        return
    disp, hops = np.asarray(disp, float), np.asarray(hops)
    ctx.check(disp.shape == (len(locs), 3) and hops.shape == (len(locs),), "shape", where)
    for row, site in enumerate(locs):
        ion = sh.at[site]
        ctx.check(np.allclose(disp[row], sh.disp[ion], rtol=0, atol=1e-6 * (1 + sh.hops[ion])), "displacement",
                  lambda: f"{where}: ion now at site {site}: reported {disp[row]}, its hops sum to {sh.disp[ion]}")
        ctx.check(int(hops[row]) == int(sh.hops[ion]), "hop-count", lambda: f"{where}: ion at {site}: {hops[row]} vs {sh.hops[ion]}")


def whole(ctx, rng, i):
    eq = int(rng.integers(0, 4))
    t = traced_run(rng, equilibration_passes=eq, kmc_passes=int(rng.integers(1, 8)), property_sampling_interval=1)
    ctx.check(all(m is not None for m in t.moves), "not-a-hop", "a production event was not a single mobile-ion hop")
    tr = t.tracker
    compare(ctx, "end of run", tr.mobile_ion_specie_locations, tr.displacement, tr.hop_counter, t.shadow)
    # per-step view through the sampled table
    msd = tr.results["msd"]
    if ctx.check(len(msd) == len(t.shadow_rows), "samples", lambda: f"{len(msd)} samples for {len(t.shadow_rows)} events"):
        for (step, time, d, h), v in zip(t.shadow_rows, msd):
            ctx.check(np.isclose(v, np.mean((d ** 2).sum(1)), rtol=1e-6, atol=1e-9), "step-displacement",
                      lambda: f"step {step}: msd {v} vs {np.mean((d ** 2).sum(1))}")
    cross = sum(1 for m in t.moves if m and np.abs(np.round(t.pos[m[2]] - t.pos[m[1]])).any())
    ctx.count("hops", len(t.moves))
    ctx.count("boundary_crossings", cross)
    ctx.count("equilibration_hops", t.n_eq)
    log = t.log[t.n_eq:]
    for (e, *_), m in zip(log, t.moves):
        if m:
            ctx.count("forward" if m[1] == int(e.mobile_ion_indices[0]) else "backward")
    ctx.sig(t.toy.name, len(t.shadow.hops), eq, len(t.moves), cross)
    ctx.sample({"case": i, "crystal": t.toy.name, "angles": t.toy.angles, "hops": len(t.moves), "crossings": cross,
                "first_moves": t.moves[:4]})


def driven(ctx, rng, i):
    """A tracker of its own driven through arbitrary (also improbable) hops, checked after each."""
    from kmcpy.simulator.tracker import Tracker

    toy, aso, allowed, occ, config, kmc = build_run(rng, **({"toy": narrow_toy(rng)} if i % 8 == 3 else {}))
    act = aso.active_structure()
    sh = Shadow(np.array([s.frac_coords for s in act]), np.array(act.lattice.matrix), allowed, toy.mobile, occ)
    tr = Tracker(config=config, structure=kmc.structure, initial_state=kmc.simulation_state,
                 hop_state_lookup=kmc.hop_state_lookup)
    for k in range(60):
        avail = np.flatnonzero(np.array(kmc.prob_list) > 0)
        e = kmc.event_lib.events[int(avail[int(rng.integers(len(avail)))])]
        tr.update(e, 1.0)
        kmc.update(e, dt=1.0)
        m = sh.step(kmc.simulation_state.occupations)
        if not ctx.check(m is not None, "not-a-hop", ""):
            return
        ctx.count("hops")
        ctx.count("boundary_crossings", int(np.abs(np.round(sh.pos[m[2]] - sh.pos[m[1]])).any()))
        if toy.name == "narrow":
            d = sh.pos[m[2]] - sh.pos[m[1]]
            ctx.count("narrow_hops")
            ctx.count("skew_images", int(np.linalg.norm((d - np.round(d)) @ sh.m) > np.linalg.norm(sh.vec[m[1:]]) + 1e-6))
        compare(ctx, f"hop {k}", tr.mobile_ion_specie_locations, tr.displacement, tr.hop_counter, sh)
    ctx.sig("driven", toy.name, sh.hops.tolist())


def ring(ctx, rng):
    """An ion going round the cell winds up a full lattice vector, not zero."""
    toy = Toy("ring", (3.0, 12.0, 12.0), (90, 90, 90), [("Na1", "Na", (0.2, 0.3, 0.4))], {"Na": ["Na", "X"]}, (5, 1, 1), 3.9)
    from kmcpy.simulator.tracker import Tracker

    for sign in (1, -1):
        toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, occ=[0, 1, 1, 1, 1])
        act = aso.active_structure()
        order = np.argsort([s.coords[0] for s in act])
        rank = {int(s): r for r, s in enumerate(order)}
        tr = Tracker(config=config, structure=kmc.structure, initial_state=kmc.simulation_state,
                     hop_state_lookup=kmc.hop_state_lookup)
        cur = 0
        for k in range(15):
            nxt = int(order[(rank[cur] + sign) % 5])
            e = next(e for e in kmc.event_lib.events if set(map(int, e.mobile_ion_indices)) == {cur, nxt})
            tr.update(e, 1.0)
            kmc.update(e, dt=1.0)
            cur = nxt
            ctx.check(np.allclose(tr.displacement[0], [sign * 3.0 * (k + 1), 0, 0], atol=1e-6), "winding", lambda: f"{tr.displacement[0]} after {k + 1} hops")
        ctx.sig("ring", sign)


def long(ctx, rng):
    """Hundreds of hops of the same ions, beyond what a byte counts, with displacements that are no round numbers."""
    from kmcpy.simulator.tracker import Tracker

    toy = Toy("long", (3.1234567, 12.0, 12.0), (90, 90, 90), [("Na1", "Na", (0.2, 0.3, 0.4))], {"Na": ["Na", "X"]}, (5, 1, 1), 3.9)
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, occ=[0, 1, 0, 1, 1])
    act = aso.active_structure()
    sh = Shadow(np.array([s.frac_coords for s in act]), np.array(act.lattice.matrix), allowed, toy.mobile, occ)
    tr = Tracker(config=config, structure=kmc.structure, initial_state=kmc.simulation_state, hop_state_lookup=kmc.hop_state_lookup)
    for k in range(700):
        avail = np.flatnonzero(np.array(kmc.prob_list) > 0)
        e = kmc.event_lib.events[int(avail[int(rng.integers(len(avail)))])]
        tr.update(e, 1.0)
        kmc.update(e, dt=1.0)
        sh.step(kmc.simulation_state.occupations)
        ctx.count("long_hops")
        compare(ctx, f"long: hop {k}", tr.mobile_ion_specie_locations, tr.displacement, tr.hop_counter, sh)
        for row, site in enumerate(tr.mobile_ion_specie_locations):
            want = sh.disp[sh.at[int(site)]]
            ctx.check(np.allclose(tr.displacement[row], want, rtol=0, atol=1e-9 * (1 + k)), "long-displacement",
                      lambda: f"hop {k}: {tr.displacement[row]} vs {want}")
    ctx.sig("long", sh.hops.tolist())


def wide(ctx, rng):
    """More ions and sites than a byte can number."""
    from kmcpy.simulator.tracker import Tracker

    toy = Toy("wide", (3.1, 12.0, 12.0), (90, 90, 90), [("Na1", "Na", (0.2, 0.3, 0.4))], {"Na": ["Na", "X"]}, (530, 1, 1), 3.9)
    occ = [int(v) for v in rng.random(530) < 0.4]
    toy, aso, allowed, occ, config, kmc = build_run(rng, toy=toy, occ=occ)
    act = aso.active_structure()
    sh = Shadow(np.array([s.frac_coords for s in act]), np.array(act.lattice.matrix), allowed, toy.mobile, occ)
    tr = Tracker(config=config, structure=kmc.structure, initial_state=kmc.simulation_state, hop_state_lookup=kmc.hop_state_lookup)
    for k in range(60):
        avail = np.flatnonzero(np.array(kmc.prob_list) > 0)
        e = kmc.event_lib.events[int(avail[int(rng.integers(len(avail)))])]
        tr.update(e, 1.0)
        kmc.update(e, dt=1.0)
        sh.step(kmc.simulation_state.occupations)
        ctx.count("wide_hops")
        if k % 10 == 9:
            compare(ctx, f"wide: hop {k}", tr.mobile_ion_specie_locations, tr.displacement, tr.hop_counter, sh)
    ctx.sig("wide", int(sh.hops.sum()))


NAMED = {"ring": ring, "long": long, "wide": wide}


def case(ctx, rng, i):
    (driven if i % 4 == 3 else whole)(ctx, rng, i)
