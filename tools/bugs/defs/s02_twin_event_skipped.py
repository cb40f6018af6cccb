P = 'P02'
NEEDS = 'a library listing both (i, j) and (j, i), as generated when start and target sites are the same species'
BREAKS = 'the twin event of an executed hop keeps its old rate'
EDITS = [('kmcpy/simulator/kmc.py', '        for e_index in events_to_be_updated:\n            # Recalculate probability using configured model\n', '        for e_index in events_to_be_updated:\n            if e_index != event_index and set(self.event_lib.events[e_index].mobile_ion_indices) == set(event.mobile_ion_indices):\n                continue\n            # Recalculate probability using configured model\n')]
DEMO = '''
k = chain(6, rules=[{"type": "state_count", "sites": "local_env", "state": 0, "min_count": 1, "name": "a", "properties": {"barrier": 250.0}}])
from kmcpy.simulator.state import State
bad = 0
for n in range(30):
    on = [i for i, p in enumerate(k.prob_list) if p > 0]
    k.update(k.event_lib.events[on[n % len(on)]], 1e-12)
    fresh = [k.model.compute_probability(event=e, runtime_config=k.config.runtime_config, simulation_state=State(k.simulation_state.occupations)) for e in k.event_lib.events]
    bad += not np.allclose(fresh, k.prob_list)
done(bad == 0, f"{bad} stale rate vectors")
'''
