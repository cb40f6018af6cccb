P = 'P16'
NEEDS = 'a count rule with both a lower and an upper limit, in an environment above the upper one'
BREAKS = 'the upper limit of a two-sided count window is ignored, so the rule matches crowded environments'
EDITS = [('kmcpy/models/local_barrier_model.py', '''    if "max_count" in constraints and count > constraints["max_count"]:''', '''    if "min_count" not in constraints and "max_count" in constraints and count > constraints["max_count"]:''')]
DEMO = '''
from kmcpy.models import LocalBarrierModel
from kmcpy.simulator.config import RuntimeConfig
from kmcpy.simulator.state import State
k = chain(8, cutoff=8.5)
m = LocalBarrierModel(default_barrier=500.0)
m.add_state_count_rule(state=0, barrier=100.0, min_count=1, max_count=2)
rc = RuntimeConfig(temperature=300.0, attempt_frequency=1e12)
e = k.event_lib.events[0]
i, j = e.mobile_ion_indices
ok = True
for n in range(len(e.local_env_indices)):
    occ = [1] * 8
    others = [s for s in e.local_env_indices if s not in (i, j)]
    for s in others[:n]:
        occ[s] = 0
    occ[i], occ[j] = 0, 1
    c = sum(occ[s] == 0 for s in e.local_env_indices)
    b = 100.0 if 1 <= c <= 2 else 500.0
    r = m.compute_probability(event=e, runtime_config=rc, simulation_state=State(occ))
    want = 1e12 * np.exp(-b / (8.617333262145e-2 * 300.0))
    ok = ok and abs(r / want - 1) < 1e-9
done(ok, "the window rule applied outside its window")
'''
