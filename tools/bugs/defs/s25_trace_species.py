P = 'P25'
NEEDS = 'a CIF file with a site occupied to less than a few percent'
BREAKS = 'species of low occupancy are dropped from the crystal'
EDITS = [('kmcpy/io/cif.py', '            if occu > 0:', '            if occu > 1e-2:')]
DEMO = '''
from kmcpy.io.cif import load_labeled_structure_from_cif
f = cif([("Na1", "Na", (0.1, 0.2, 0.3)), ("K1", "K", (0.6, 0.5, 0.5))])
t = open(f).read().splitlines()
t = [l[:-1] + "0.005" if " K1 " in l else l for l in t]
open(f, "w").write("\\n".join(t) + "\\n")
s = load_labeled_structure_from_cif(f)
done(len(s) == 2 and abs(s.composition["K"] - 0.005) < 1e-9, s)
'''
