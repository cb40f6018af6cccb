"""Importable callbacks for configurations that name them by string."""
CALLS = []


def probe(state, step, sim_time):
    CALLS.append(("probe", int(step), float(sim_time), tuple(state.occupations)))
    return step


def other(state, step, sim_time):
    CALLS.append(("other", int(step), float(sim_time), tuple(state.occupations)))
    return {"t": sim_time}
