P = 'P11'
NEEDS = 'a library file whose environment list, not its endpoints, names a site outside the layout'
BREAKS = 'out-of-range environment indices are accepted on loading instead of refused'
EDITS = [('kmcpy/event/base.py', '                event.local_env_indices,\n                field_name=', '                event.mobile_ion_indices,\n                field_name=')]
DEMO = '''
from kmcpy.event import EventLib
m = {"Na": ["Na", "X"]}
f = cif([("Na1", "Na", (0.0, 0.0, 0.0))])
events(f, m, (6, 1, 1), 4.5)
d = json.load(open("events.json"))
ev = d["events"] if isinstance(d, dict) else d
ev[3]["local_env_indices"] = [0, 99]
json.dump(d, open("bad.json", "w"))
EventLib.from_file("events.json")
try:
    EventLib.from_file("bad.json")
    barrier_model()
    kmc(f, m, (6, 1, 1), [0, 1] * 3, event_file="bad.json")
    done(False, "an event with an environment site outside the crystal was accepted")
except SystemExit:
    raise
except Exception as e:
    done(True)
'''
