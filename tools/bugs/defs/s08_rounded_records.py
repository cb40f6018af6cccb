P = 'P08'
NEEDS = 'a value of a numpy scalar type returned by a callback'
BREAKS = 'numbers returned as numpy scalars are rounded when written'
EDITS = [('kmcpy/simulator/results.py', '    if value is None or isinstance(value, (str, int, float, bool)):\n        return value\n', '    if value is None or isinstance(value, (str, int, bool)):\n        return value\n    if isinstance(value, (float, np.floating)):\n        return round(float(value), 12)\n')]
DEMO = '''
import gzip
k = chain(8)
vals = []
def f(state, step, t):
    vals.append(1.0 / 3.0 + step)
    return vals[-1]
k.attach(f, interval=1, name="f")
k.run(label="a")
got = [r["value"] for r in json.load(gzip.open("properties_a.json.gz"))]
done(got == vals, (got[:2], vals[:2]))
'''
