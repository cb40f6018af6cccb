P = 'P15'
NEEDS = 'a parameter set stored for the same orbits in another order'
BREAKS = 'the set is accepted and its coefficients are applied to the wrong orbits'
EDITS = [('kmcpy/models/local_cluster_expansion.py', '                and list(stored_orbit_fingerprints) != expected_orbit_fingerprints', '                and sorted(stored_orbit_fingerprints) != sorted(expected_orbit_fingerprints)')]
DEMO = '''
from kmcpy.models import LocalClusterExpansion
from kmcpy.structure import LocalLatticeStructure
from kmcpy.io.cif import load_labeled_structure_from_cif
m = {"Na": ["Na", "X"]}
f = cif([("Na1", "Na", (0.0, 0.0, 0.0))], abc=(4.0, 4.3, 12.0))
lls = LocalLatticeStructure(template_structure=load_labeled_structure_from_cif(f), center=0, cutoff=4.5, site_mapping=m, basis_type="chebyshev")
lce = LocalClusterExpansion()
lce.build(lls, cutoff_cluster=[9.0, 9.0, 9.0])
d = json.loads(json.dumps(lce.as_dict(), default=lambda o: o.tolist()))
fp = lce.get_orbit_fingerprints()
LocalClusterExpansion.from_dict(json.loads(json.dumps(d)))
bad = []
for way in ("parameters", "model"):
    turned = fp[1:] + fp[:1]
    try:
        if way == "parameters":
            lce.set_parameters({"keci": [float(k) for k in range(len(fp))], "empty_cluster": 0.0, "orbit_fingerprints": turned})
        else:
            LocalClusterExpansion.from_dict(dict(d, orbit_fingerprints=turned))
        bad.append(way)
    except Exception:
        pass
done(len(set(fp)) > 1 and not bad, bad)
'''
