P = 'P01'
NEEDS = 'a third, inert species at the first endpoint of a hop whose second endpoint holds the ion'
BREAKS = 'a mobile ion hops back into a site held by an inert ion, destroying it'
EDITS = [('kmcpy/event/hop.py', '    if from_occ == codes[2] and to_occ == codes[3]:\n', '    if from_occ != codes[0] and to_occ == codes[3]:\n')]
DEMO = '''
m = {"Na": ["Na", "X", "K"]}
k = chain(6, m, occ=[0, 2, 0, 1, 0, 1], kmc_passes=6)
before = sorted(k.simulation_state.occupations)
k.run()
done(sorted(k.simulation_state.occupations) == before, k.simulation_state.occupations)
'''
