P = 'P14'
NEEDS = 'triplets or quadruplets with one short and one long side, the cutoff in between'
BREAKS = 'clusters beyond their distance limit are kept because only the shortest side is compared'
EDITS = [('kmcpy/models/local_cluster_expansion.py', '            if cluster.max_length < cutoff[len(cluster.site_indices) - 1]:', '            length = cluster.max_length if len(cluster.site_indices) < 4 else cluster.min_length\n            if length < cutoff[len(cluster.site_indices) - 1]:')]
DEMO = '''
from kmcpy.models import LocalClusterExpansion
from kmcpy.structure import LocalLatticeStructure
from kmcpy.io.cif import load_labeled_structure_from_cif
m = {"Na": ["Na", "X"]}
f = cif([("Na1", "Na", (0.0, 0.0, 0.0))], abc=(4.0, 4.0, 12.0))
lls = LocalLatticeStructure(template_structure=load_labeled_structure_from_cif(f), center=0, cutoff=4.5, site_mapping=m, basis_type="chebyshev")
lce = LocalClusterExpansion()
lce.build(lls, cutoff_cluster=[6.0, 6.0, 6.0])
xyz = np.array([s.coords for s in lls.structure])
bad = [list(c) for orbit in lce.cluster_site_indices for c in orbit
       if len(c) > 1 and max(np.linalg.norm(xyz[a] - xyz[b]) for a in c for b in c) >= 6.0]
done(len(xyz) >= 4 and not bad, bad[:3])
'''
