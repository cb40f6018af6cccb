P = 'P19'
NEEDS = 'two clusters of equal size with the same kinds of sites in different numbers'
BREAKS = 'they are matched by assigning sites of one kind to another or crash instead of reporting a mismatch'
EDITS = [('kmcpy/structure/cluster.py', '        if self.reference.signature != candidate.signature:', '        if len(self.reference.species) != len(candidate.species) or set(\n            self.reference.labels\n        ) != set(candidate.labels):')]
DEMO = '''
from pymatgen.core import Lattice, Molecule
from kmcpy.structure.cluster import Cluster, ClusterMatcher
xyz = [[0, 0, 0], [3, 0, 0], [0, 3.3, 0], [0, 0, 3.6]]
a = Cluster.from_sites(list(Molecule(["Na", "Na", "Na", "K"], xyz)))
b = Cluster.from_sites(list(Molecule(["Na", "Na", "K", "K"], xyz)))
bad = []
for near in (False, True):
    try:
        r = ClusterMatcher(a).match(b, find_nearest_if_fail=near)
        bad.append((near, r))
    except ValueError:
        pass
done(not bad, bad)
'''
