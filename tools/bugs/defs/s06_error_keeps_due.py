P = 'P06'
NEEDS = 'a time-interval property whose callback fails with a handler that continues'
BREAKS = 'after a tolerated failure the property is called again at every step instead of waiting for its interval'
EDITS = [('kmcpy/simulator/tracker.py', '                spec.last_trigger_step = step\n                spec.last_trigger_time = sim_time\n                continue\n', '                spec.last_trigger_step = step\n                continue\n')]
DEMO = '''
k = chain(8, kmc_passes=10)
calls = []
def f(state, step, t):
    calls.append(t)
    raise ValueError("x")
k.run(label="warm")
T = k.simulation_state.time
k = chain(8, kmc_passes=10)
k.attach(f, time_interval=T / 6, name="f", on_error=lambda *a: True)
k.run()
gaps = np.diff(calls)
done(len(calls) > 1 and (gaps >= T / 6).all(), gaps[:5])
'''
