P = 'P20'
NEEDS = 'a configuration with the seed 0, saved and loaded again'
BREAKS = 'seed 0 is saved as no seed, so the reloaded simulation is not the same one'
EDITS = [('kmcpy/simulator/config.py', '            "random_seed": self.random_seed,', '            "random_seed": self.random_seed or None,')]
DEMO = '''
from kmcpy.simulator.config import Configuration
ok = True
for seed in (0, 1, None):
    c = Configuration(structure_file="a.cif", model_file="m.json", event_file="e.json", random_seed=seed)
    for f in ("c.json", "c.yaml"):
        c.to(f, include_loader_paths=True)
        ok = ok and Configuration.from_file(f).random_seed == seed
done(ok, "the seed changed on saving and loading")
'''
