P = 'P28'
NEEDS = 'more equilibration than production passes'
BREAKS = 'equilibration stops after as many passes as production has'
EDITS = [('kmcpy/simulator/kmc.py', '        for _ in np.arange(config.equilibration_passes):\n', '        for _ in np.arange(min(config.equilibration_passes, config.kmc_passes)):\n')]
DEMO = '''
k = chain(8, equilibration_passes=5, kmc_passes=2)
n = 0
real = k.update
def update(*a, **kw):
    global n
    n += 1
    return real(*a, **kw)
k.update = update
k.run()
done(k.simulation_state.step == n == 7 * 8, (k.simulation_state.step, n))
'''
