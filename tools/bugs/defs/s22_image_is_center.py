P = 'P22'
NEEDS = 'an environment that reaches a periodic image of the centre site, in an enumeration that excludes the centre'
BREAKS = 'periodic images of the centre are dropped from the environment together with the centre itself'
EDITS = [('kmcpy/structure/local_environment_enumerator.py', '    return np.linalg.norm(site.coords - center_site.coords) <= order.center_match_tolerance', '    return site.distance(center_site) <= order.center_match_tolerance')]
DEMO = '''
from kmcpy.io.cif import load_labeled_structure_from_cif
from kmcpy.structure.lattice_structure import LatticeStructure
from kmcpy.structure.local_environment_enumerator import enumerate_local_environments
f = cif([("Na1", "Na", (0.0, 0.0, 0.0)), ("Na2", "Na", (0.5, 0.0, 0.0))], abc=(6.0, 12.0, 12.0))
ls = LatticeStructure(load_labeled_structure_from_cif(f), {"Na": ["Na", "X"]}, basis_type="chebyshev")
r = enumerate_local_environments(ls, center=0, cutoff=6.5, exclude_center_site=True)
got = sorted(r[0].local_site_indices)
done(got == [0, 0, 1, 1], f"sites of the environment: {got}, expected two images of the centre and two neighbours")
'''
