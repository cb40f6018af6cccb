P = 'P13'
NEEDS = 'a hop strongly downhill in site energy, so that the effective barrier is negative'
BREAKS = 'rates of such hops are capped at the attempt frequency, which breaks detailed balance'
EDITS = [('kmcpy/models/composite_lce_model.py', '        probability = v * np.exp(-e_barrier / (k * temperature))', '        probability = v * min(1.0, np.exp(-e_barrier / (k * temperature)))')]
DEMO = '''
from kmcpy.models import CompositeLCEModel, LocalClusterExpansion
from kmcpy.simulator.config import RuntimeConfig
from kmcpy.simulator.state import State
k = chain(6, occ=[0, 1] * 3)
class Kra(LocalClusterExpansion):
    def __init__(self): pass
    def compute(self, *a, **kw): return 40.0
class Site:
    def __init__(self, d): self.d = d
    def compute(self, *, simulation_state, event):
        i, j = event.mobile_ion_indices
        return self.d if simulation_state.occupations[i] == 0 else -self.d
rc = RuntimeConfig(temperature=300.0, attempt_frequency=1e12)
m = CompositeLCEModel(site_model=Site(-200.0), kra_model=Kra())
e = next(e for e in k.event_lib.events if k.simulation_state.occupations[e.mobile_ion_indices[0]] == 0 and k.simulation_state.occupations[e.mobile_ion_indices[1]] == 1)
s = State(list(k.simulation_state.occupations)); f = m.compute_probability(event=e, runtime_config=rc, simulation_state=s)
s.apply_event(e, 0.0); b = m.compute_probability(event=e, runtime_config=rc, simulation_state=s)
want = np.exp(200.0 / (8.617333262145e-2 * 300.0))
done(abs(f / b / want - 1) < 1e-9, (f, b, f / b, want))
'''
