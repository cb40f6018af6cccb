P = 'P26'
NEEDS = 'a site with four or more allowed species'
BREAKS = 'the last basis function of sites with many species repeats another one'
EDITS = [('kmcpy/structure/basis.py', '        return np.polynomial.chebyshev.chebvander(encoded, n_states - 1)[:, 1:]\n', '        order = np.minimum(np.arange(1, n_states), 3)\n        return np.polynomial.chebyshev.chebvander(encoded, n_states - 1)[:, order]\n')]
DEMO = '''
from kmcpy.structure.basis import get_basis
b = get_basis("chebyshev", max_states=6)
ok = True
for q in range(2, 8):
    v = np.hstack([np.ones((q, 1)), b.site_basis_values(q)])
    ok &= np.linalg.matrix_rank(v) == q
done(ok, "basis does not span the functions of the state")
'''
