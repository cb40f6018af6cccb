P = 'P18'
NEEDS = 'a site with three allowed species whose vacancy is listed last'
BREAKS = 'an empty site is read back as the second species instead of as a vacancy'
EDITS = [('kmcpy/structure/lattice_structure.py', '''            if self._is_vacancy_species(specie):
                return self.basis.state_value(state_index, len(allowed_species))''', '''            if self._is_vacancy_species(specie):
                return self.basis.state_value(min(state_index, 1), len(allowed_species))''')]
DEMO = '''
from kmcpy.structure.lattice_structure import LatticeStructure
from kmcpy.io.cif import load_labeled_structure_from_cif
f = cif([("Na1", "Na", (0.0, 0.0, 0.0)), ("Na2", "Na", (0.5, 0.5, 0.5))], abc=(6.0, 6.0, 6.0))
bad = []
for lst in (["Na", "X"], ["X", "Na"], ["Na", "K", "X"], ["Na", "X", "K"]):
    l = LatticeStructure(load_labeled_structure_from_cif(f), {"Na": lst}, basis_type="chebyshev")
    for a in range(len(lst)):
        for b in range(len(lst)):
            from kmcpy.structure.basis import Occupation
            if lst[a] == lst[b] == "X":
                continue
            st = l.get_structure_from_occ(Occupation([a, b], basis=l.basis))
            back = [int(v) for v in l.get_occ_from_structure(st).values]
            if back != [a, b]:
                bad.append((lst, [a, b], back))
done(not bad, bad[:3])
'''
