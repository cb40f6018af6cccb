"""External energy engines in the three documented styles, with call logs.

Referenced from model files by name, as a user's own engine would be.
"""
import copy

BOX = {}   # key -> Engine, so that a check can reach the engine a loaded model uses


def name(v):
    """The same key for a value whether it is held as a whole number or a float."""
    return str(int(v)) if isinstance(v, float) and v == int(v) else str(v)


class Engine:
    """Lattice energy over external sites: fields and couplings keyed by external values."""

    def __init__(self, key, occ=None, h=None, J=None):
        self.key, self.occ = key, list(occ) if occ is not None else None
        self.h = {int(k): v for k, v in h.items()}
        self.J = [tuple(x) for x in J]
        self.by_site = {}
        for n, (a, b, m) in enumerate(self.J):
            self.by_site.setdefault(a, []).append(n)
            self.by_site.setdefault(b, []).append(n)
        self.computes, self.applies = [], []
        self.fail_at = None
        BOX[key] = self

    def local(self, occ, sites):
        e = sum(self.h[s][name(occ[s])] for s in sites if s in self.h)
        for n in sorted({n for s in sites for n in self.by_site.get(s, ())}):
            a, b, m = self.J[n]
            e += m[f"{name(occ[a])}|{name(occ[b])}"]
        return e

    def delta(self, occ, flips):
        after = list(occ)
        for s, v in flips:
            after[s] = v
        sites = [s for s, _ in flips]
        return self.local(after, sites) - self.local(occ, sites)


def make(key, occ=None, h=None, J=None):
    return Engine(key, occ, h, J)


def _note(runtime, kind, ext, changes, event, state):
    log = runtime.computes if kind == "c" else runtime.applies
    log.append((None if ext is None else [v.item() if hasattr(v, "item") else v for v in ext],
                [(c.kmcpy_site, c.external_site, c.old_state, c.new_state, c.old_value, c.new_value) for c in changes],
                None if event is None else tuple(int(v) for v in event.mobile_ion_indices),
                None if state is None else tuple(int(v) for v in state.occupations)))
    if kind == "c" and runtime.fail_at is not None and len(log) >= runtime.fail_at:
        raise RuntimeError("engine lost")


def occupation_style(runtime, external_occupation, changes):
    """smol: energy change from the mirrored occupation and a list of flips."""
    _note(runtime, "c", external_occupation, changes, None, None)
    return runtime.delta([v.item() if hasattr(v, "item") else v for v in external_occupation], [c.as_flip() for c in changes])


def live_style(runtime, changes, event, simulation_state, scale=1.0):
    """CLEASE: the engine holds its own configuration."""
    _note(runtime, "c", None, changes, event, simulation_state)
    for c in changes:
        s, old, new = c.as_system_change_tuple()
        if runtime.occ[s] != old:
            raise AssertionError(f"engine has {runtime.occ[s]!r} on {s}, told the old value is {old!r}")
    return scale * runtime.delta(runtime.occ, [c.as_flip() for c in changes])


def live_apply(runtime, external_occupation, changes):
    _note(runtime, "a", external_occupation, changes, None, None)
    for c in changes:
        runtime.occ[c.external_site] = c.new_value


def live_apply_all(runtime, external_occupation, changes, event, simulation_state, tag="t"):
    _note(runtime, "a", external_occupation, changes, event, simulation_state)
    for c in changes:
        runtime.occ[c.external_site] = c.new_value


def everything(**kw):
    rt = kw["runtime"]
    _note(rt, "c", kw["external_occupation"], kw["changes"], kw["event"], kw["simulation_state"])
    return rt.delta([v.item() if hasattr(v, "item") else v for v in kw["external_occupation"]], [c.as_flip() for c in kw["changes"]])


def note_apply(**kw):
    _note(kw["runtime"], "a", kw["external_occupation"], kw["changes"], kw["event"], kw["simulation_state"])
    kw["runtime"].occ = [v.item() if hasattr(v, "item") else v for v in kw["external_occupation"]]


def text_result(**kw):
    return "0.1"


def flag_result(**kw):
    return True


STYLES = {
    "occupation": ("vk.engines:occupation_style", None),
    "occupation_applied": ("vk.engines.occupation_style", "vk.engines:note_apply"),
    "live": ("vk.engines:live_style", "vk.engines:live_apply"),
    "live_all": ("vk.engines:live_style", "vk.engines:live_apply_all"),
    "everything": ("vk.engines:everything", "vk.engines:note_apply"),
}
