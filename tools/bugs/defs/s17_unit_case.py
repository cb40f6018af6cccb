P = 'P17'
NEEDS = "an external engine whose unit is written in another case, such as 'mev'"
BREAKS = 'its energies are taken as eV, a thousand times too large'
EDITS = [('kmcpy/models/site_energy.py', '    return "meV" if token.lower() == "mev" else "eV"', '    return "meV" if token == "meV" else "eV"')]
DEMO = '''
from kmcpy.models import SiteEnergyModel
from kmcpy.simulator.state import State
k = chain(6, occ=[0, 1, 1, 1, 1, 1])
e = next(e for e in k.event_lib.events if e.mobile_ion_indices[0] == 0)
got = {u: SiteEnergyModel(compute_fn=lambda event, simulation_state: 2.5, units=u).compute(event=e, simulation_state=State([0, 1, 1, 1, 1, 1])) for u in ("meV", "mev", "MeV", "MEV", "eV", "EV")}
want = {"meV": 2.5, "mev": 2.5, "MeV": 2.5, "MEV": 2.5, "eV": 2500.0, "EV": 2500.0}
done(all(abs(got[u] - want[u]) < 1e-9 for u in want), got)
'''
