P = 'P09'
NEEDS = 'endpoints given as a negatively charged ion such as F-'
BREAKS = 'hops of mobile anions are not found although the crystal has them'
EDITS = [('kmcpy/event/generators.py', r'''r"([A-Z][a-z]?)(?:\d+[+-]|[+-])"''', r'''r"([A-Z][a-z]?)(?:\d*\+)"''')]
DEMO = '''
from kmcpy.event import EventLib
m = {"F": ["F", "X"], "K": ["K"]}
f = cif([("F1", "F", (0.0, 0.0, 0.0)), ("K1", "K", (0.5, 0.5, 0.5))])
want = None
bad = None
for ident in [("F", "F"), ("F-", "F-")]:
    try:
        events(f, m, (6, 1, 1), 4.5, mobile_ion_identifiers=ident, mobile_species=["F"])
        got = sorted(tuple(e["mobile_ion_indices"]) for e in json.load(open("events.json"))["events"])
    except Exception as e:
        got = repr(e)
    want = want or got
    if got != want:
        bad = (ident, got)
done(bad is None and len(want) >= 6, bad)
'''
