P = 'P05'
NEEDS = 'a run so slow (high barriers, low temperature) that the diffusivity is tiny but not zero'
BREAKS = 'the Haven ratio of slow systems is reported as not-a-number although it is defined'
EDITS = [('kmcpy/simulator/property.py', '        and jump_diffusivity_internal != 0\n', '        and jump_diffusivity_internal > 1e-18\n')]
DEMO = '''
k = chain(8, kmc_passes=3, temperature=60.0, attempt_frequency=1e2)
t = k.run()
d = t.displacement.sum(axis=0) @ t.displacement.sum(axis=0) / len(t.displacement)
h = t.results["havens_ratio"][-1]
done(d == 0 or abs(h - t.results["msd"][-1] / d) < 1e-9 * max(1, abs(h)), (d, h))
'''
