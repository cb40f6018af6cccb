P = 'P24'
NEEDS = 'a data set in which some entries have metadata and some do not, saved'
BREAKS = 'saved metadata are no longer aligned with the entries'
EDITS = [('kmcpy/io/neb/data.py', '            "metadata": [entry.metadata or {} for entry in self.neb_entries],', '            "metadata": [entry.metadata for entry in self.neb_entries if entry.metadata],')]
DEMO = '''
from kmcpy.io.cif import load_labeled_structure_from_cif
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
from kmcpy.models import LocalClusterExpansion
from kmcpy.io.neb import NEBDataLoader
f = cif([("Na1", "Na", (0.0, 0.0, 0.0)), ("K1", "K", (0.5, 0.0, 0.0))], abc=(6.0, 9.0, 9.0))
st = load_labeled_structure_from_cif(f)
lls = LocalLatticeStructure(template_structure=st, center=0, cutoff=4.0, site_mapping={"Na": ["Na", "X"], "K": ["K", "Na"]}, basis_type="chebyshev")
lce = LocalClusterExpansion(); lce.build(lls, cutoff_cluster=[6.0, 5.0, 0.0])
L = NEBDataLoader(model=lce, reference_local_lattice_structure=lls)
for n, meta in enumerate([None, {"id": 1}, None, {"id": 3}]):
    L.add_structure(st, 100.0 + n, metadata=meta)
d = json.load(open(L.to(".", "set")))
m = d["metadata"]
done(len(m) == 4 and [x.get("id") for x in m] == [None, 1, None, 3], m)
'''
