P = 'P10'
NEEDS = 'environments of at most eleven sites in a crystal with several starting sites whose neighbour distances differ by a few percent'
BREAKS = 'positions of slightly different distance are exchanged, so equivalent hops list their surroundings in different orders'
EDITS = [('kmcpy/structure/cluster.py', '''                rtol=self.rtol,
                atol=self.atol,
            ):
                return False''', '''                rtol=self.rtol,
                atol=self.atol if len(candidate.species) > 11 else max(self.atol, 0.02 * self.reference.distance_matrix.max()),
            ):
                return False''')]
DEMO = '''
# a zigzag chain along x: two mirror-related starting sites, left and right neighbours 3 percent apart
m = {"Na": ["Na", "X"]}
f = cif([("Na1", "Na", (0.245, 0.0, 0.0)), ("Na2", "Na", (0.755, 0.0, 0.0))], abc=(8.0, 4.2, 12.0))
events(f, m, (4, 4, 1), 6.2)
d = json.load(open("events.json"))["events"]
from kmcpy.structure.active_site_order import ActiveSiteOrder
from kmcpy.io.cif import load_labeled_structure_from_cif
st = load_labeled_structure_from_cif(f)
o = ActiveSiteOrder.from_structure_and_mapping(st, m, supercell_shape=(4, 4, 1)).active_structure()
rows = {}
for e in d:
    i = e["mobile_ion_indices"][0]
    env = e["local_env_indices"]
    D = np.array([[o.get_distance(a, b) for b in [i] + env] for a in [i] + env])
    rows.setdefault(len(env), []).append(D)
bad = [np.abs(D - r[0]).max() for r in rows.values() for D in r if np.abs(D - r[0]).max() > 0.02]
done(not bad, bad[:3])
'''
