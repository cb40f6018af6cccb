P = 'P23'
NEEDS = 'a fit without normalisation'
BREAKS = 'its reported leave-one-out error is that of a normalised fit'
EDITS = [('kmcpy/models/fitting/fitter.py', '            max_iter=max_iter,\n            normalize=normalize,\n        )\n        logger.info("LOOCV', '            max_iter=max_iter,\n            normalize=True,\n        )\n        logger.info("LOOCV')]
DEMO = '''
from sklearn.linear_model import Lasso
from kmcpy.models.fitting.fitter import LCEFitter
r = np.random.default_rng(3)
x = r.normal(size=(12, 4)) * [1.0, 20.0, 0.1, 5.0]
y = x @ [3.0, -0.2, 10.0, 0.5] + 200.0 + r.normal(size=12)
for n, v in (("corr.txt", x), ("e.txt", y), ("w.txt", np.ones(12))):
    np.savetxt(n, v)
p = LCEFitter().fit(alpha=0.3, max_iter=1000000, ekra_fname="e.txt", weight_fname="w.txt", corr_fname="corr.txt", lce_params_fname="p.json", lce_params_history_fname="h.json", normalize=False)[0]
dev = []
for k in range(12):
    keep = [i for i in range(12) if i != k]
    e = Lasso(alpha=0.3, max_iter=1000000).fit(x[keep], y[keep])
    dev.append(float(e.predict(x[k:k + 1])[0]) - y[k])
want = float(np.sqrt(np.mean(np.square(dev))))
done(abs(p.loocv - want) < 1e-3 * want, (p.loocv, want))
'''
