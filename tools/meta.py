"""Single source for properties.jsonl and MANIFEST.json: python tools/meta.py"""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
K = "kmcpy/"
P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [K + f for f in files],
            "state": [{"name": a, "meaning": b} for a, b in state],
            "mechanism": [{"name": a, "where": K + b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

p("P01", "Accepted hops move one mobile ion into a vacancy and conserve every species",
  "At every step of every run, the accepted event moves exactly one mobile ion from one endpoint of a generated hop into a vacancy at the other endpoint and changes no other site. The number of sites holding each species is therefore the same at every moment of the run, and every site always holds a state its own allowed-species list defines.",
  ["inputs", "histories", "configurations"],
  "every lattice, site mapping (any position of mobile ion and vacancy in the allowed lists, inert species, different lists on the two endpoints), initial occupation, model and seed, and every prefix of the run",
  "Tests run one or two NASICON trajectories with binary Na/X lists; they never check each intermediate state nor other state encodings.",
  ["simulator/state.py", "simulator/kmc.py", "event/hop.py", "models/site_energy.py"],
  [("state swap", "simulator/state.py:State.apply_event"), ("direction test", "event/hop.py:event_direction"), ("update", "simulator/kmc.py:KMC.update")],
  [("occupations", "allowed-species code per active site")], ["state after every accepted event, through the model's apply_event hook and per-step callbacks"])
p("P02", "After every event all stored rates equal a fresh evaluation of the current state",
  "Immediately before each event choice, the rate used for every event equals what the model returns for the current occupations, and the running total equals their sum. No history of accepted events leaves any rate stale, for any rate that depends on the event's endpoints and local environment.",
  ["inputs", "histories", "configurations"],
  "every event library, local model, occupation and every accepted-event history, including equilibration, repeated runs and libraries extended or reloaded",
  "Tests compare a handful of probabilities at step zero or final numbers of a fixed trajectory; a stale rate only shows on particular hop sequences.",
  ["simulator/kmc.py", "event/base.py"],
  [("local update", "simulator/kmc.py:KMC.update"), ("dependency lookup", "event/base.py:EventLib.get_dependent_events"), ("dependency construction", "event/base.py:EventLib.generate_event_dependencies")],
  [("rate vector and its cumulative sums", "one entry per event")], ["rate vector after every event"])
p("P03", "Events fire in proportion to their rates and the clock is exponential",
  "Each event is chosen with probability equal to its rate divided by the total rate, an event with zero rate is never chosen, and the waiting time is exponentially distributed with mean one over the total rate, independent of the choice. When no event is possible, or the total rate is not a finite number that gives a waiting time, the simulation reports an error instead of advancing with an invalid event or time.",
  ["inputs", "configurations", "histories"],
  "every rate vector (any length, zeros anywhere, values over many orders of magnitude), random stream and run",
  "Tests pin a few seeded trajectories; a biased or off-by-one selection keeps passing on other vectors, and edge draws have negligible probability.",
  ["simulator/kmc.py"],
  [("selection and clock", "simulator/kmc.py:_propose"), ("proposal", "simulator/kmc.py:KMC.propose")],
  [("random generator", "seeded per run")], ["chosen events and waiting times"])
p("P04", "Trajectories record the true unwrapped path of every mobile ion",
  "For every run the reported displacement of each ion is the sum of the Cartesian vectors of the hops that ion itself made after equilibration, with the periodic image that makes each hop short, and the hop counter is the number of those hops. The tracked location of every ion is the site it currently occupies, and no two ions share one.",
  ["inputs", "histories", "configurations"],
  "every crystal (skewed cells included), supercell, occupation, hop direction and run length, with and without equilibration",
  "Tests check one seeded final number; identity mix-ups, boundary crossings and direction signs depend on the hop sequence.",
  ["simulator/tracker.py", "event/hop.py"],
  [("hop accounting", "simulator/tracker.py:Tracker.update"), ("minimum image", "simulator/tracker.py:Tracker._wrapped_hop_displacement")],
  [("displacement", "per-ion Cartesian sum"), ("hop_counter", "per-ion hops"), ("mobile_ion_specie_locations", "per-ion site")], ["tracker arrays after every event"])
p("P05", "Reported transport properties follow from the trajectory and elapsed time",
  "Every reported mean squared displacement, jump and tracer diffusivity, conductivity, Haven ratio and correlation factor equals its documented formula evaluated on the displacements, hop counts and production time the run accumulated up to that sample, in the documented units. Quantities that are undefined (no elapsed time, no ions, zero collective displacement) or switched off are reported as not-a-number, never as a number.",
  ["inputs", "histories", "configurations"],
  "every trajectory, dimension, charge, temperature, volume, hop distance, initial clock and enable/disable combination",
  "Tests evaluate fixed arrays; they do not tie samples to the trajectory of arbitrary runs, nor to runs starting at a non-zero clock.",
  ["simulator/property.py", "simulator/tracker.py", "units.py"],
  [("formulas", "simulator/property.py:compute_transport_properties"), ("sampling", "simulator/tracker.py:Tracker._sample_transport_summary")],
  [("results", "sampled table")], ["result rows"])
p("P06", "Properties are sampled exactly when their schedule says",
  "Built-in rows and each attached callback are sampled exactly at the production steps that are multiples of the step interval in force, or once at least the time interval has passed since that property's last sample; a property's own interval replaces the global one. Each callback receives the state, step and time right after that event, disabled or detached properties are not called, stored records keep order and only the newest up to the cap, and a failing callback stops the run unless its handler says to continue.",
  ["schedules", "configurations", "histories", "fault_sequences"],
  "every combination of global and per-callback step/time intervals, enable flags, caps, attach/detach moments and callback failures over whole runs",
  "Tests try single intervals on short runs; interplay of global and own schedules, caps, errors and mid-run changes is unbounded.",
  ["simulator/tracker.py", "simulator/property.py", "simulator/kmc.py"],
  [("trigger", "simulator/property.py:should_trigger"), ("dispatch", "simulator/tracker.py:Tracker.sample_properties"), ("plan", "simulator/property.py:PropertyPlan")],
  [("last trigger time", "per property")], ["callback invocations and stored records"])
p("P07", "A seed fully determines a run and nothing else influences it",
  "Two runs built from equal configurations with the same random seed produce identical event sequences, times, results and files, whatever ran before in the process, whatever the process-wide random generators hold, and whatever observing callbacks are attached. A run never disturbs the process-wide random generators, its configuration, its input files or another simulation, and different seeds give different trajectories.",
  ["inputs", "histories", "configurations", "schedules"],
  "every configuration, seed, interleaving with other simulations in the same process and global random state",
  "Tests compare one seeded run against a stored number in a fresh process.",
  ["simulator/kmc.py", "simulator/state.py", "simulator/tracker.py", "structure/basis.py"],
  [("generator", "simulator/kmc.py:KMC.run"), ("state", "simulator/state.py:State")],
  [], ["event sequence, clock, result files, global generator states"])
p("P08", "Result files contain exactly the run's final and sampled data",
  "After every run the written displacement, hop-counter and occupation files reproduce the final trajectory and state, the results table reproduces every sampled row in order with its units file, and the custom-property file holds every stored record with its step, time and JSON-safe value. File names carry the run label, nothing else is written, and files of runs with other labels stay as they were.",
  ["inputs", "histories", "configurations"],
  "every run length, label, sampling schedule and callback return type",
  "Tests check that files exist for one run and a few value types.",
  ["simulator/results.py", "simulator/tracker.py"],
  [("writers", "simulator/results.py:write_tracker_results")], [], ["files in the working directory"])
p("P09", "Generated events are exactly the geometric hops of the crystal",
  "For every crystal, cutoff, endpoint selection and supercell wide enough for a neighbour within the cutoff to have a single image, the generated library holds one event for each ordered pair of an allowed starting site and an allowed target site whose separation is below the cutoff, and no other; its environment lists every active site within the cutoff of the starting site. All supercell images of a site get the same set of hops up to translation. The neighbour lists behind it name exactly the periodic sites nearer than the cutoff, or within the range, given for their pair of species.",
  ["inputs", "configurations"],
  "every cell shape, site arrangement, site mapping, species or label selection, scalar or per-pair cutoff and supercell wide enough that a neighbour within the cutoff has a single image",
  "Tests count environments for two bundled crystals.",
  ["event/generators.py", "structure/neighbors.py", "structure/sites.py"],
  [("generation", "event/generators.py:EventGenerator.generate_events"), ("neighbours", "structure/neighbors.py:get_cutoff_neighbor_info"), ("wrap", "event/generators.py:normalize_supercell_tuple")],
  [], ["event file"])
p("P10", "Equivalent hops list their surroundings in the same geometric order",
  "For any two events whose starting sites are equivalent, the environments are listed so that position k plays the same geometric role in both: same species, and the same distances (within the matching tolerance) to the migrating ion and to every other position. Under supercell translation the listed sites are exact translates, so a model fitted on one environment applies to all.",
  ["inputs", "configurations"],
  "every crystal, orientation, site order in the input file and supercell",
  "Tests check the distance matrix of one reference crystal.",
  ["event/generators.py", "structure/cluster.py", "structure/local_lattice_structure.py", "structure/local_site_order.py"],
  [("matching", "event/generators.py:EventGenerator._match_or_register_local_environment"), ("matcher", "structure/cluster.py:ClusterMatcher")],
  [], ["event local environments against the crystal geometry"])
p("P11", "Event libraries know every dependency and survive saving and loading",
  "An event's dependency list contains every event whose rate its execution can change through shared sites, and the site-to-event lookup lists exactly the events touching a site. Saving and loading a library preserves events, order, dependencies, lookup and site-order metadata; libraries without metadata, with out-of-range indices, or belonging to another site layout, supercell or mapping are refused.",
  ["inputs", "histories"],
  "every set of events, order of additions, and save/load history",
  "Tests use small hand-made libraries.",
  ["event/base.py"],
  [("dependency matrix", "event/base.py:_generate_event_dependency_matrix"), ("round trip", "event/base.py:EventLib.to")],
  [("event_dependencies", "affected events per event"), ("site_to_events", "events per site")], ["library contents before and after save/load"])
p("P12", "All parts agree on which site every index means",
  "Structure, occupation vector, events and simulation use one compact site numbering: index k denotes the same crystal position, with the same allowed species in the same order, everywhere. Occupations given for the full supercell or for the active sites select the same state, and any input of another length, supercell, mapping or site layout, or naming a state its site does not have, is refused instead of being reinterpreted.",
  ["inputs", "configurations"],
  "every crystal with fixed and active sites interleaved, every mapping and supercell shape",
  "Tests check one small template.",
  ["structure/active_site_order.py", "structure/sites.py", "simulator/state.py", "simulator/kmc.py"],
  [("order", "structure/active_site_order.py:ActiveSiteOrder.from_structure_and_mapping"), ("selection", "structure/active_site_order.py:ActiveSiteOrder.select_active_values"), ("validation", "structure/active_site_order.py:ActiveSiteOrder.assert_same_order")],
  [], ["positions and species behind indices"])
p("P13", "Composite-model hop rates are Arrhenius and obey detailed balance",
  "For an available hop the rate is the attempt frequency times exp(-E/kT) with E the kinetically resolved barrier of the current environment plus half the site-energy difference signed along the hop direction; a hop that is not mobile-ion-to-vacancy has rate zero. Forward and backward rates of a hop that sees the same kinetic barrier both ways therefore have ratio exp(-dE/kT), rates scale linearly with attempt frequency, and temperature enters only through kT.",
  ["inputs", "configurations", "histories"],
  "every occupation, event, parameter set, temperature and attempt frequency",
  "Tests evaluate a few barriers in one crystal.",
  ["models/composite_lce_model.py", "models/base.py", "event/hop.py"],
  [("rate", "models/composite_lce_model.py:CompositeLCEModel.compute_probability"), ("barrier", "models/composite_lce_model.py:CompositeLCEModel.compute")],
  [], ["rates per event"])
p("P14", "A cluster expansion's value is the documented sum over its cluster orbits",
  "For every local environment the cluster expansion value equals the constant term plus the sum over orbits of coefficient times correlation, where each correlation sums the products of site basis functions over all clusters of that orbit. Orbits partition all clusters within the size and distance limits by geometry, and symmetry-equivalent environments have equal values.",
  ["inputs", "configurations"],
  "every local structure, cutoffs, occupation and coefficients",
  "Tests compare a few stored numbers of one structure.",
  ["models/local_cluster_expansion.py", "structure/cluster.py", "structure/basis.py"],
  [("evaluation", "models/local_cluster_expansion.py:LocalClusterExpansion.compute"), ("orbit search", "models/local_cluster_expansion.py:LocalClusterExpansion.build")],
  [], ["values and correlations"])
p("P15", "Saving and reloading a model never changes any rate",
  "A model written to file and loaded again, directly or through a simulation configuration, gives the same rate for every event and occupation, including its fitted parameters and constant terms, with any history of repeated saving and loading. A parameter set whose length or site order does not fit the model is refused.",
  ["inputs", "histories"],
  "every model kind, parameter set, site order and number of save/load rounds",
  "Tests round-trip fixed files and compare attributes.",
  ["models/base.py", "models/composite_lce_model.py", "models/local_cluster_expansion.py", "models/local_barrier_model.py", "models/parameters.py", "models/site_energy.py"],
  [("registry load", "models/base.py:BaseModel.from_config"), ("serialisation", "models/composite_lce_model.py:CompositeLCEModel.as_dict")],
  [], ["rates before and after"])
p("P16", "Local barrier rules choose barriers and rates exactly as documented",
  "For every occupation and event the barrier is that of the first rule, in order, whose condition on the selected sites is met, else the default, and the rate is attempt frequency times exp(-barrier/kT) for an available hop and zero otherwise. Selectors always mean the same sites of the event (its first and second mobile-ion site, its environment list, explicit sites) whichever way the ion hops, and malformed rules or unmatched environments without a default are refused.",
  ["inputs", "configurations"],
  "every rule list (counts, species, patterns, exact environments), selector, occupation, hop direction and temperature",
  "Tests check a few hand-made rules.",
  ["models/local_barrier_model.py"],
  [("rule match", "models/local_barrier_model.py:LocalBarrierModel.compute"), ("rate", "models/local_barrier_model.py:LocalBarrierModel.compute_probability")],
  [], ["barriers and rates"])
p("P17", "External site energies stay in step with the simulated configuration",
  "With an external energy engine, the energy difference used for every rate equals the engine's energy after the hop minus before it, for the occupations the simulation currently has, at every step and after any history. The engine is synchronised once at start and after each accepted event, and evaluating a rate never leaves a trace in the engine or the simulation.",
  ["inputs", "histories", "fault_sequences"],
  "every external engine style (energy, delta or update interfaces), site and state mapping, occupation and event history",
  "Tests use a stub engine for single calls.",
  ["models/site_energy.py", "models/composite_lce_model.py", "simulator/kmc.py"],
  [("delta", "models/site_energy.py:SiteEnergyModel.compute"), ("sync", "models/site_energy.py:SiteEnergyModel.apply_event")],
  [("external occupancy", "mirror of the simulated occupations")], ["engine calls and rates"])
p("P18", "Structures and occupations convert into each other without loss",
  "For every allowed occupation of a template, building the structure and reading the occupation back returns the same vector, for primitive cells and supercells, whatever the order of atoms or small displacements within tolerance. A structure that does not fit the template (extra, misplaced or disallowed atoms, an atom missing from a site that cannot be vacant, a cell that is no supercell of the template) is refused rather than misread.",
  ["inputs"],
  "every template, mapping, supercell, occupation, atom order, lattice translation and sub-tolerance noise",
  "Tests convert a few structures.",
  ["structure/lattice_structure.py", "structure/basis.py", "structure/active_site_order.py"],
  [("read", "structure/lattice_structure.py:LatticeStructure.get_occ_from_structure"), ("build", "structure/lattice_structure.py:LatticeStructure.get_structure_from_occ")],
  [], ["occupation vectors"])
p("P19", "Cluster matching finds a true geometric correspondence or reports none",
  "Two clusters of sites are matched exactly when some one-to-one, species-preserving correspondence makes all their pair distances agree within tolerance, and the correspondence returned is such a one. Matching is unaffected by rotation, translation or reordering of the sites, and a mismatch is reported unless the caller asked for the nearest order.",
  ["inputs"],
  "every pair of clusters, permutation, rigid motion, degeneracy and tolerance",
  "Tests use a few small clusters; highly symmetric or nearly degenerate ones are not tried.",
  ["structure/cluster.py"],
  [("matcher", "structure/cluster.py:ClusterMatcher.match")], [], ["returned correspondences"])
p("P20", "Configurations load, validate, save and copy without changing meaning",
  "Every valid configuration saved with its input paths to JSON or YAML and loaded again describes the same simulation, sectioned files included, without disturbing other sections; a changed copy differs only in the fields changed and leaves the original untouched. Invalid or unknown settings (wrong ranges, missing inputs, unknown or misspelt fields or species) are refused with an error before any event is made.",
  ["inputs", "histories", "configurations"],
  "every combination of settings and every sequence of copy, save and load",
  "Tests cover a few fields.",
  ["simulator/config.py"],
  [("validation", "simulator/config.py:Configuration"), ("round trip", "simulator/config.py:Configuration.to")],
  [], ["configuration fields"])
p("P21", "A checkpointed simulation state resumes exactly where it stopped",
  "A saved state loads back with exactly the same occupations, time and step, at any step of any run, and a copy is independent of the original. A simulation started from a checkpoint begins with those occupations, clock and step count, computes the same rates as the interrupted one, and reports transport for the time it itself simulates.",
  ["crash_points", "histories", "inputs"],
  "every interruption point, occupation vector and time value",
  "Tests save one small state.",
  ["simulator/state.py", "simulator/kmc.py", "simulator/tracker.py"],
  [("checkpoint", "simulator/state.py:State.save_checkpoint"), ("restore", "simulator/state.py:State.from_file")],
  [], ["state after load, first rates of the resumed run"])
p("P22", "Enumerated local environments and NEB endpoints are complete and consistent",
  "Enumerating the local environments of a site yields every allowed decoration of the variable sites within the requested limits exactly once, and nothing else: fixed sites and everything outside the environment keep the base structure, and counts reported agree with the structures. Generated endpoint pairs differ only by the hopping ion moving between its two sites, all other sites keeping the enumerated decoration; impossible requests are refused.",
  ["inputs", "configurations"],
  "every template, centre, cutoff, allowed species and composition limit",
  "Tests enumerate one structure.",
  ["structure/local_environment_enumerator.py"],
  [("enumeration", "structure/local_environment_enumerator.py:LocalEnvironmentEnumerator")], [], ["enumerated structures"])
p("P23", "Fitting recovers the coefficients that generated the data",
  "Given correlations and energies that follow some coefficients, fitting with negligible regularisation returns coefficients that reproduce every energy, and with given regularisation and weights the result minimises the documented penalised weighted squared error (columns centred and scaled to unit length when normalising), to the solver's tolerance. Reported errors equal the actual in-sample and (unweighted) leave-one-out deviations, parameter files and histories hold exactly the fits made, in order, inconsistent inputs are refused, and fitted values land in the model so that the model reproduces the fitted predictions.",
  ["inputs", "configurations"],
  "every data set, weight vector, regularisation strength and number of clusters",
  "Tests fit one stored data set.",
  ["models/fitting/fitter.py", "models/parameters.py"],
  [("fit", "models/fitting/fitter.py:LCEFitter.fit")], [], ["fitted parameters and reports"])
p("P24", "NEB data sets keep each barrier with its own environment",
  "For every history of additions (objects, files, single or in batches), each entry of a NEB data set keeps its own structure, target value, metadata, occupation and correlation vector together, in the order added. Matrices, saved data sets and exported fitting inputs stay aligned row by row with targets and weights, each row being the correlation of the structure it came from; refused additions and mismatched lengths leave the data set unchanged.",
  ["inputs", "histories"],
  "every number, order and content of entries and every sequence of operations on the data set",
  "Tests load a small set.",
  ["io/neb/data.py"],
  [("loader", "io/neb/data.py:NEBDataLoader")], [], ["loaded entries and exported matrices"])
p("P25", "Crystals load from CIF with every site, label and position intact",
  "For every CIF file the loaded structure has the same lattice, sites, species and fractional coordinates the file defines after applying its symmetry operations, and each site carries the label of the atom it was generated from. Reducing to a primitive cell keeps composition, density and labels consistent.",
  ["inputs"],
  "every cell, space group, label scheme, site order and special position",
  "Tests load a few bundled files.",
  ["io/cif.py"],
  [("loader", "io/cif.py:load_labeled_structure_from_cif")], [], ["loaded structure"])
p("P26", "Site basis functions are a valid basis for any number of species",
  "For every number of allowed species the Chebyshev site basis assigns each state a distinct row of values, T_1 to T_(q-1) at equally spaced points of [-1, 1], which with the constant span all functions of the state; the occupation basis gives one for the template species and zero otherwise. Occupation vectors index, slice, flip, count, copy, save and convert between bases without changing which sites hold the template species and without altering the original; invalid values are refused and leave the vector as it was, and a seeded random vector is reproducible and leaves the process-wide generator untouched.",
  ["inputs", "configurations"],
  "every basis type, number of species, vector, index form and sequence of operations",
  "Tests check two and three species.",
  ["structure/basis.py"],
  [("basis", "structure/basis.py:get_basis"), ("vector", "structure/basis.py:Occupation")], [], ["basis values and vectors"])
p("P27", "Command-line runs equal library runs and templates are usable",
  "Running a simulation from the command line on an input file gives exactly the results and files the library gives for the same settings, and failures exit with a non-zero status without leaving results. Individual options give the configuration the library would be given, and values that cannot be meant are refused. The generated input template, once completed, is accepted by the runner, and existing files are never overwritten without being asked.",
  ["inputs", "configurations", "fault_sequences"],
  "every valid or broken input file, format and command-line override",
  "Tests call the entry points with mocks.",
  ["cli/main.py", "cli/run_kmc.py", "cli/init.py"],
  [("runner", "cli/run_kmc.py"), ("template", "cli/init.py")], [], ["exit status and files"])

p("P28", "Runs make exactly the configured number of events",
  "A pass is one event per site that can hold the mobile ion: a run makes exactly equilibration passes plus production passes times that many events, no more and no fewer. Equilibration moves the ions but does not advance the clock nor contribute to displacements, hop counts, samples or callbacks, and production time is the sum of the waiting times of its own events.",
  ["configurations", "histories", "inputs"],
  "every crystal, mapping (inert species, several sublattices, similarly named species), pass count and seed",
  "Tests run fixed pass counts on one crystal and look at final numbers.",
  ["simulator/kmc.py", "simulator/config.py"],
  [("run loop", "simulator/kmc.py:KMC.run"), ("pass length", "simulator/kmc.py:KMC.run")],
  [("time", "production clock"), ("step", "accepted production events")], ["accepted events through the model hook, clock and samples"])

CHECK = json.loads((ROOT / "tools" / "claimed.json").read_text()) if (ROOT / "tools" / "claimed.json").exists() else {"claimed": [], "na": {}}

def main():
    (ROOT / "properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in P))
    sys.path[:0] = [str(ROOT), "/repo"]
    checks = []
    for x in P:
        if x["id"] not in CHECK["claimed"]:
            continue
        mod = importlib.import_module("vk.props." + x["id"].lower())
        checks.append({
            "property": x["id"],
            "quick_cmd": f"bash check.sh {x['id']} quick",
            "thorough_cmd": f"bash check.sh {x['id']} thorough",
            "evidence_file": f"evidence/{x['id']}.json",
            "technique": mod.TECHNIQUE,
            "level": mod.LEVEL[0],
            "level_note": mod.LEVEL[1],
        })
    na = [{"property": x["id"], "reason": CHECK["na"].get(x["id"], "check not built yet")}
          for x in P if x["id"] not in CHECK["claimed"]]
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No source hooks: monitors observe through kMCpy's documented extension points (custom model class, property callbacks) and public attributes.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")

if __name__ == "__main__":
    main()
