P = 'P12'
NEEDS = 'an event library or configuration made with the same sites but with the species of a site listed in another order'
BREAKS = 'such a library is accepted and its state numbers reinterpreted'
EDITS = [('kmcpy/structure/active_site_order.py', '        if self.fingerprint != other_order.fingerprint:', '        if (\n            self.active_to_original != other_order.active_to_original\n            or self.species_by_primitive_site != other_order.species_by_primitive_site\n            or self.supercell_shape != other_order.supercell_shape\n        ):')]
DEMO = '''
m = {"Na": ["Na", "X"]}
f = cif([("Na1", "Na", (0.0, 0.0, 0.0))])
barrier_model()
events(f, {"Na": ["X", "Na"]}, (6, 1, 1), 4.5)
try:
    kmc(f, m, (6, 1, 1), [0, 1] * 3)
    bad = "events of another species order were accepted"
except Exception:
    bad = None
events(f, m, (6, 1, 1), 4.5)
kmc(f, m, (6, 1, 1), [0, 1] * 3)
done(bad is None, bad)
'''
