P = 'P03'
NEEDS = 'a run whose last possible hop is used up, so that the total rate becomes zero'
BREAKS = 'the cumulative rates of the previous configuration are kept, so the simulation fires events that have become impossible instead of reporting an error'
EDITS = [('kmcpy/simulator/kmc.py', '        self.prob_cum_list = np.cumsum(self.prob_list)\n\n    def run', '        if np.any(self.prob_list):\n            self.prob_cum_list = np.cumsum(self.prob_list)\n\n    def run')]
DEMO = '''
k = chain(6, occ=[0, 1, 1, 1, 1, 1], kmc_passes=4)
model = k.model
real = model.compute_probability
hops = []
def once(event, runtime_config, simulation_state):
    return real(event=event, runtime_config=runtime_config, simulation_state=simulation_state) if simulation_state.step < 1 else 0.0
model.compute_probability = lambda **kw: once(**kw)
k.attach(lambda s, step, t: hops.append(step), interval=1, name="n", store=False)
try:
    k.run()
    bad = "no error"
except Exception:
    bad = None
done(bad is None and k.simulation_state.step <= 2, (bad, k.simulation_state.step))
'''
