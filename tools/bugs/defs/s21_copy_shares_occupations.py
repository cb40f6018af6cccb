P = 'P21'
NEEDS = 'changing a copied state'
BREAKS = 'a copy of a state shares its occupation list with the original'
EDITS = [('kmcpy/simulator/state.py', '        self.occupations = list(occupations)\n', '        self.occupations = occupations if isinstance(occupations, list) else list(occupations)\n')]
DEMO = '''
k = chain(8)
c = k.simulation_state.copy()
before = list(c.occupations)
k.run()
done(c.occupations == before, "copy changed while the simulation ran")
'''
