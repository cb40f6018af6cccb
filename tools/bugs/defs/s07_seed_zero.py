P = 'P07'
NEEDS = 'the random seed 0'
BREAKS = 'a run with seed 0 is not reproducible: it is seeded from the operating system'
EDITS = [('kmcpy/simulator/kmc.py', '        if config.random_seed is not None:\n            self.rng', '        if config.random_seed:\n            self.rng')]
DEMO = '''
def go():
    k = chain(8, kmc_passes=4, random_seed=0)
    t = k.run()
    return k.simulation_state.time, t.displacement.tolist()
a, b = go(), go()
done(a == b, "two runs with seed 0 differ")
'''
