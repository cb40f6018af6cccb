"""Small self-contained helpers for the demonstrations."""
import json, logging, os, sys, tempfile, warnings
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
sys.path.insert(0, "/repo")
SCRATCH = tempfile.TemporaryDirectory(prefix="demo-")
os.chdir(SCRATCH.name)
import numpy as np


def cif(sites, abc=(4.0, 12.0, 12.0), angles=(90, 90, 90), path="c.cif"):
    """sites: [(label, element, (x, y, z))]"""
    a, b, c = abc
    al, be, ga = angles
    txt = ["data_x", "_symmetry_space_group_name_H-M 'P 1'", f"_cell_length_a {a}", f"_cell_length_b {b}",
           f"_cell_length_c {c}", f"_cell_angle_alpha {al}", f"_cell_angle_beta {be}", f"_cell_angle_gamma {ga}",
           "_symmetry_Int_Tables_number 1", "loop_", "_symmetry_equiv_pos_site_id", "_symmetry_equiv_pos_as_xyz",
           "1 'x, y, z'", "loop_", "_atom_site_type_symbol", "_atom_site_label", "_atom_site_fract_x",
           "_atom_site_fract_y", "_atom_site_fract_z", "_atom_site_occupancy"]
    txt += [f"{el} {lab} {x:.8f} {y:.8f} {z:.8f} 1" for lab, el, (x, y, z) in sites]
    open(path, "w").write("\n".join(txt) + "\n")
    return os.path.abspath(path)


def events(cif_file, mapping, shape, cutoff, path="events.json", **kw):
    from kmcpy.event import EventGenerator
    EventGenerator().generate_events(structure_file=cif_file, site_mapping=mapping, supercell_shape=list(shape),
                                     local_env_cutoff=cutoff, event_file=path, **kw)
    return path


def barrier_model(path="model.json", **kw):
    from kmcpy.models import LocalBarrierModel
    kw.setdefault("default_barrier", 100.0)
    json.dump(LocalBarrierModel(**kw).as_dict(), open(path, "w"))
    return path


def config(cif_file, mapping, shape, occ, **kw):
    from kmcpy.simulator.config import Configuration
    d = dict(structure_file=cif_file, model_file="model.json", event_file="events.json", initial_occupations=list(occ),
             supercell_shape=tuple(shape), dimension=3, mobile_ion_specie="Na", mobile_ion_charge=1.0,
             elementary_hop_distance=3.0, site_mapping=mapping, convert_to_primitive_cell=False, temperature=400.0,
             attempt_frequency=1e12, equilibration_passes=0, kmc_passes=2, random_seed=5, name="demo")
    d.update(kw)
    return Configuration(**d)


def kmc(*a, **kw):
    from kmcpy.simulator.kmc import KMC
    return KMC.from_config(config(*a, **kw))


def chain(n=8, mapping=None, a=4.0, cutoff=4.5, occ=None, rules=None, **kw):
    """A ring of n sites along x."""
    mapping = mapping or {"Na": ["Na", "X"]}
    f = cif([("Na1", "Na", (0.0, 0.0, 0.0))], abc=(a, 12.0, 12.0))
    events(f, mapping, (n, 1, 1), cutoff)
    barrier_model(rules=rules or [])
    occ = occ if occ is not None else [mapping["Na"].index("Na") if i % 2 else mapping["Na"].index("X") for i in range(n)]
    return kmc(f, mapping, (n, 1, 1), occ, **kw)


def done(ok, why=""):
    print("property holds" if ok else "PROPERTY BROKEN: " + str(why))
    SCRATCH.cleanup()
    sys.exit(0 if ok else 1)
