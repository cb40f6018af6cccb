P = 'P04'
NEEDS = 'two sublattices listing the mobile ion at different positions of their allowed species'
BREAKS = 'ions starting on the sublattice with the other code are not tracked'
EDITS = [('kmcpy/simulator/tracker.py', '                & (initial_active_occ == mobile_states)\n', '                & (initial_active_occ == mobile_states[0])\n')]
DEMO = '''
m = {"Na": ["Na", "X"], "Li": ["X", "Na"]}
f = cif([("Na1", "Na", (0, 0, 0)), ("Li1", "Li", (0.5, 0.5, 0.5))], abc=(4.0, 4.1, 4.2))
events(f, m, (2, 2, 2), 3.7, mobile_ion_identifiers=("Na1", "Li1"), mobile_species=["Na", "Li"])
barrier_model()
from kmcpy.structure.active_site_order import ActiveSiteOrder
from kmcpy.io.cif import load_labeled_structure_from_cif
a = ActiveSiteOrder.from_structure_and_mapping(load_labeled_structure_from_cif(f), m, supercell_shape=(2, 2, 2))
allowed = [a.allowed_species_by_primitive_site[p] for p in a.active_to_primitive]
occ = [l.index("Na") if i % 3 == 0 else l.index("X") for i, l in enumerate(allowed)]
k = kmc(f, m, (2, 2, 2), occ)
try:
    t = k.run()
    now = sorted(i for i, l in enumerate(allowed) if l[k.simulation_state.occupations[i]] == "Na")
    done(sorted(int(x) for x in t.mobile_ion_specie_locations) == now, "tracked locations differ from the occupied sites")
except RuntimeError as e:
    done(False, e)
'''
