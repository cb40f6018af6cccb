From d40baa6492a78dd730c99e267c1a6b10d1660eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:52 +0000
Subject: [PATCH 01/49] fix: translate endpoint state codes when a hop connects
 sites with different species lists

State.apply_event and SiteEnergyModel exchanged raw state codes, which is only
right when both endpoints list their species in the same order. Hops between
sublattices with different lists created, destroyed or transmuted ions; hops
onto a site that cannot hold the mobile ion were considered available.
---
 kmcpy/event/__init__.py     |  2 ++
 kmcpy/event/hop.py          | 22 +++++++++++++++++++++-
 kmcpy/models/site_energy.py | 12 ++++++++----
 kmcpy/simulator/state.py    |  4 ++--
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/kmcpy/event/__init__.py b/kmcpy/event/__init__.py
index 92a488a..b40f275 100644
--- a/kmcpy/event/__init__.py
+++ b/kmcpy/event/__init__.py
@@ -10,6 +10,7 @@ from .hop import (
     HopStateLookup,
     INVALID_STATE,
     endpoint_direction_from_codes,
+    endpoint_states_after_hop,
     event_direction,
 )
 
@@ -21,5 +22,6 @@ __all__ = [
     'HopStateLookup',
     'INVALID_STATE',
     'endpoint_direction_from_codes',
+    'endpoint_states_after_hop',
     'event_direction',
 ]
diff --git a/kmcpy/event/hop.py b/kmcpy/event/hop.py
index a5d2c18..d8c19aa 100644
--- a/kmcpy/event/hop.py
+++ b/kmcpy/event/hop.py
@@ -54,12 +54,16 @@ class HopStateLookup:
     def annotate_event(self, event: Any) -> None:
         """Attach hot-loop state codes to an event in compact active-site space."""
         from_site, to_site = event.mobile_ion_indices
-        event.hop_state_codes = (
+        codes = (
             int(self.mobile_state_by_site[int(from_site)]),
             int(self.vacancy_state_by_site[int(to_site)]),
             int(self.vacancy_state_by_site[int(from_site)]),
             int(self.mobile_state_by_site[int(to_site)]),
         )
+        if INVALID_STATE in codes:
+            # An endpoint cannot hold the mobile ion or a vacancy: never available.
+            codes = (INVALID_STATE,) * 4
+        event.hop_state_codes = codes
 
     def annotate_event_lib(self, event_lib: Any) -> None:
         """Attach precomputed state codes to every event in an event library."""
@@ -76,6 +80,22 @@ def event_direction(occupations: Any, event: Any) -> int:
     return endpoint_direction_from_codes(from_occ, to_occ, codes)
 
 
+def endpoint_states_after_hop(occupations: Any, event: Any) -> tuple[int, int]:
+    """Return the (from, to) endpoint state codes after executing an event.
+
+    State codes are site specific: the same species may have different codes
+    at the two endpoints, so codes are translated instead of exchanged.
+    """
+    from_site, to_site = event.mobile_ion_indices
+    codes = getattr(event, "hop_state_codes", DEFAULT_HOP_STATE_CODES)
+    direction = event_direction(occupations, event)
+    if direction == 1:
+        return codes[2], codes[3]
+    if direction == -1:
+        return codes[0], codes[1]
+    return occupations[to_site], occupations[from_site]
+
+
 def endpoint_direction_from_codes(
     from_occ: int,
     to_occ: int,
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..7ce6cfc 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,6 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
+from kmcpy.event import endpoint_states_after_hop
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -310,10 +311,11 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        new_from, new_to = endpoint_states_after_hop(occupations, event)
         return self._mapped_changes(
             (
-                (from_site, from_state, to_state),
-                (to_site, to_state, from_state),
+                (from_site, from_state, int(new_from)),
+                (to_site, to_state, int(new_to)),
             )
         )
 
@@ -321,10 +323,12 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        # A hop is its own inverse: undoing it gives the pre-event states.
+        old_from, old_to = endpoint_states_after_hop(occupations, event)
         return self._mapped_changes(
             (
-                (from_site, to_state, from_state),
-                (to_site, from_state, to_state),
+                (from_site, int(old_from), from_state),
+                (to_site, int(old_to), to_state),
             )
         )
 
diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index cb1f52f..28fc868 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -12,6 +12,7 @@ from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
 from ..event.base import Event
+from ..event.hop import endpoint_states_after_hop
 
 logger = logging.getLogger(__name__)
 
@@ -148,8 +149,7 @@ class State(MSONable):
         """Apply one event transition and advance simulation counters."""
         from_site, to_site = event.mobile_ion_indices
         self.occupations[from_site], self.occupations[to_site] = (
-            self.occupations[to_site],
-            self.occupations[from_site],
+            endpoint_states_after_hop(self.occupations, event)
         )
         self.time += dt
         self.step += 1
-- 
2.43.0


From dd37b4b1be0ea2a84ee5269e6d267a96dce6e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:02 +0000
Subject: [PATCH 02/49] fix: compute transport properties from the time the
 trajectory covers

Displacements start at zero when a run starts, but diffusivities divided by the
absolute simulation clock, so a run resumed from a checkpoint or a second run()
of the same simulation under-reported diffusivity and conductivity.
---
 kmcpy/simulator/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..ba38223 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -93,6 +93,8 @@ class Tracker:
         self.config = config
         self.structure = structure
         self.state = initial_state
+        # Displacements start at zero here, so transport uses time from here on.
+        self._start_time = float(initial_state.time)
         self.hop_state_lookup = hop_state_lookup
 
         self._initialize_mobile_ion_tracking(initial_state.occupations)
@@ -318,7 +320,7 @@ class Tracker:
         return compute_transport_properties(
             self.displacement,
             self.hop_counter,
-            sim_time=float(self.time),
+            sim_time=float(self.time) - self._start_time,
             dimension=self.dimension,
             n_mobile_ion_specie=self.n_mobile_ion_specie,
             elementary_hop_distance=self.elem_hop_distance,
-- 
2.43.0


From 2dc4da7da78dac1f3b78321b8130182d5c775d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 03/49] fix: number sampled steps by production event, as
 documented

Callbacks received, and step intervals were counted on, the total event count
including equilibration (or an earlier run), not the production event index.
---
 kmcpy/simulator/kmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..2e9f4da 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -534,6 +534,7 @@ class KMC:
         logger.info("Tracker summaries are reported as dynamic property tables per pass.")
 
         # Main KMC loop
+        production_step = 0
         for current_pass in np.arange(config.kmc_passes):
             for _ in np.arange(pass_length):
                 event, dt = self.propose(self.event_lib.events)
@@ -541,8 +542,9 @@ class KMC:
                 tracker.update(event, dt)
                 # KMC is the single owner of mutable simulation state updates.
                 self.update(event, dt=dt)
+                production_step += 1
                 tracker.sample_properties(
-                    step=int(self.simulation_state.step),
+                    step=production_step,
                     sim_time=float(self.simulation_state.time),
                 )
             
-- 
2.43.0


From c9cf7f910eb38b4f1dcdba6a7f40feb015413014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:11 +0000
Subject: [PATCH 04/49] fix: count a pass over the sites that can hold the
 mobile ion

The pass length was a substring match of the mobile symbol against template
elements: 'F' also counted Fe sites, and sites whose mapping admits the mobile
ion under another template element were not counted (a run could do nothing).
---
 kmcpy/simulator/kmc.py     | 18 ++++++++++++------
 kmcpy/simulator/tracker.py |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 2e9f4da..cf28cc7 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -15,7 +15,7 @@ from kmcpy.simulator.tracker import (
     Tracker,
 )
 from kmcpy.simulator.property import PropertyPlan
-from kmcpy.event import Event, EventLib, HopStateLookup
+from kmcpy.event import Event, EventLib, HopStateLookup, INVALID_STATE
 import logging
 import kmcpy
 from typing import TYPE_CHECKING, Any, Callable, Optional
@@ -498,11 +498,17 @@ class KMC:
         )
         
         # Calculate pass length based on mobile ions
-        pass_length = len([
-            el.symbol
-            for el in self.structure.species
-            if config.mobile_ion_specie in el.symbol
-        ])
+        hop_state_lookup = getattr(self, "hop_state_lookup", None)
+        if hop_state_lookup is not None:
+            pass_length = int(
+                np.sum(hop_state_lookup.mobile_state_by_site != INVALID_STATE)
+            )
+        else:
+            pass_length = len([
+                el.symbol
+                for el in self.structure.species
+                if el.symbol == config.mobile_ion_specie
+            ])
         
         logger.info("============================================================")
         logger.info("Start running kMC ... ")
diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index ba38223..c6931ac 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -129,7 +129,7 @@ class Tracker:
         """Initialize mobile ion tracking arrays."""
         if self.hop_state_lookup is None:
             self.n_mobile_ion_specie_site = len(
-                [el.symbol for el in self.structure.species if self.mobile_ion_specie in el.symbol]
+                [el.symbol for el in self.structure.species if el.symbol == self.mobile_ion_specie]
             )
             initial_active_occ = np.array(initial_occ[0 : self.n_mobile_ion_specie_site])
             mobile_state_mask = initial_active_occ == 0
-- 
2.43.0


From 5ae887661fa3b8ac2e9999feda43860c7839dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:17 +0000
Subject: [PATCH 05/49] fix: never use missing or outdated event dependencies

Adding an event kept the old dependency lists, and a library without them
silently reported no dependents, so a simulation ran on stale rates.
---
 kmcpy/event/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index a93822e..80f6562 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -167,6 +167,8 @@ class EventLib(ABC):
         """Add an event to the library and update site mappings."""
         event_index = len(self.events)
         self.events.append(event)
+        # Stored dependencies no longer cover the new event.
+        self.event_dependencies = None
 
         # Update site to events mapping using active-site indices
         # mobile_ion_indices and local_env_indices
@@ -270,8 +272,8 @@ class EventLib(ABC):
             list: List of event indices that depend on the given event.
         """
         if self.event_dependencies is None:
-            logger.warning("Event dependencies not generated. Call generate_event_dependencies() first.")
-            return []
+            logger.warning("Event dependencies not generated. Generating them now.")
+            self.generate_event_dependencies()
 
         if event_index >= len(self.event_dependencies):
             logger.error("Event index %d out of range", event_index)
-- 
2.43.0


From d10769fa59040652a5a8a6b0dbcd81e5dc75ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:51 +0000
Subject: [PATCH 06/49] fix: keep mapped external occupation values exact

The external occupation dtype was inferred from the initial values only, so
later states were truncated (0.5 stored as 0, 'Vacancy' as 'Va'), and a
site_mapping sending two sites to one external site was accepted.
---
 kmcpy/models/site_energy.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 7ce6cfc..590976a 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -272,7 +272,7 @@ class SiteEnergyModel(BaseModel):
         ]
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            mapped_values=[*mapped_values, *self._mappable_values()],
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -294,6 +294,11 @@ class SiteEnergyModel(BaseModel):
             external[int(self._site_lookup[kmcpy_site])] = mapped_value
         return external
 
+    def _mappable_values(self) -> list[Any]:
+        """Return every external value the state mappings can produce."""
+        mappings = [self.state_mapping, *(self.state_mapping_by_site or {}).values()]
+        return [value for mapping in mappings if mapping for value in mapping.values()]
+
     def _external_site(self, kmcpy_site: int) -> int:
         if self._site_lookup is None:
             raise RuntimeError("SiteEnergyModel has not been initialized")
@@ -689,6 +694,8 @@ def _build_site_lookup(
 
     if np.any(lookup < 0):
         raise ValueError("External site indices must be nonnegative")
+    if len(np.unique(lookup)) != len(lookup):
+        raise ValueError("site_mapping maps several kMCpy sites to one external site")
     upper_bound = external_size
     if initial_occupation is not None:
         upper_bound = len(initial_occupation)
@@ -802,7 +809,12 @@ def _resolve_external_dtype(
         return np.dtype(external_dtype)
     values = list(mapped_values)
     if initial_occupation is not None:
-        return initial_occupation.dtype
+        dtype = initial_occupation.dtype
+        if dtype == object or np.array(values, dtype=object).astype(dtype).tolist() == values:
+            return dtype
+        values.extend(initial_occupation.tolist())
+    elif values:
+        values.append(fill_value)
     if values and all(isinstance(value, (int, np.integer)) for value in values):
         return np.int64
     if values and all(isinstance(value, (int, float, np.number)) for value in values):
-- 
2.43.0


From ff47dbe33966c0830aa5d984bbad00eb01b0958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 07/49] fix: a property's own cadence replaces the global one

A callback attached with only a time interval was also sampled on the global
step interval (and vice versa), which by default is every pass.
---
 kmcpy/simulator/tracker.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index c6931ac..0b42b0a 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -385,12 +385,11 @@ class Tracker:
             if not spec.enabled:
                 continue
 
-            interval = spec.interval if spec.interval is not None else self._global_interval
-            time_interval = (
-                spec.time_interval
-                if spec.time_interval is not None
-                else self._global_time_interval
-            )
+            interval, time_interval = spec.interval, spec.time_interval
+            if interval is None and time_interval is None:
+                # The global cadence is only for properties without their own.
+                interval = self._global_interval
+                time_interval = self._global_time_interval
 
             if not should_trigger(
                 step=step,
-- 
2.43.0


From d73a6d40e0927a2d13e51090a4b6bbfb80123fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:56 +0000
Subject: [PATCH 08/49] fix: keep periodic images of the center in a local
 environment

Excluding the center site removed every site with the center's index, so in
small cells real neighbors (periodic images of the center) disappeared from
the local environment although events list them.
---
 kmcpy/structure/local_lattice_structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/local_lattice_structure.py b/kmcpy/structure/local_lattice_structure.py
index 5f5d260..9d9435d 100644
--- a/kmcpy/structure/local_lattice_structure.py
+++ b/kmcpy/structure/local_lattice_structure.py
@@ -138,9 +138,8 @@ class LocalLatticeStructure(LatticeStructure):
     def _is_center_site(self, site_info) -> bool:
         """Return whether a sphere result corresponds to the center site."""
         site = site_info[0]
-        site_index = site_info[2]
-        if self.center_index is not None and int(site_index) == int(self.center_index):
-            return True
+        # Periodic images of the center are distinct neighbors, so compare
+        # positions rather than site indices.
         return (
             np.linalg.norm(site.coords - self.center_site.coords)
             <= self.local_site_order.center_match_tolerance
-- 
2.43.0


From af8547de3e792d0347bb2e9adcad8f343760eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:38 +0000
Subject: [PATCH 09/49] fix: redraw when the waiting-time draw is exactly zero

---
 kmcpy/simulator/kmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index cf28cc7..6a980d6 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -565,6 +565,9 @@ def _propose(prob_cum_list, rng)-> tuple[int, float]:
     """Sample one event index and waiting time from cumulative rates."""
     random_seed = rng.random()
     random_seed_2 = rng.random()
+    while random_seed_2 == 0.0:
+        # rng.random() covers [0, 1); zero would give an infinite waiting time.
+        random_seed_2 = rng.random()
     proposed_event_index = np.searchsorted(
         prob_cum_list / prob_cum_list[-1], random_seed, side="right"
     )
-- 
2.43.0


From e718faad0b6408d5ca68404db6048429de2f623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:13 +0000
Subject: [PATCH 10/49] fix: do not call or store properties detached during
 the same sampling step

---
 kmcpy/simulator/tracker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 0b42b0a..b5d1089 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -382,7 +382,8 @@ class Tracker:
         self._sample_transport_summary(step=step, sim_time=sim_time)
 
         for spec in list(self._properties.values()):
-            if not spec.enabled:
+            if not spec.enabled or self._properties.get(spec.name) is not spec:
+                # Disabled, or detached by an earlier callback of this step.
                 continue
 
             interval, time_interval = spec.interval, spec.time_interval
@@ -408,7 +409,7 @@ class Tracker:
                 spec.last_trigger_time = sim_time
                 continue
 
-            if spec.store:
+            if spec.store and self._properties.get(spec.name) is spec:
                 append_record(
                     records=self._property_records[spec.name],
                     spec=spec,
-- 
2.43.0


From 5fd0e32f7274a4efd19cc9daccf53061914f63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:58 +0000
Subject: [PATCH 11/49] fix: keep stored property values as they were when
 sampled

---
 kmcpy/simulator/property.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/property.py b/kmcpy/simulator/property.py
index 4aee6b1..f3edf56 100644
--- a/kmcpy/simulator/property.py
+++ b/kmcpy/simulator/property.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from dataclasses import dataclass, replace
 from typing import TYPE_CHECKING, Any, Callable, Mapping, Optional
 
@@ -92,8 +93,12 @@ def should_trigger(
 
 def append_record(records: list[PropertyRecord], spec: PropertySpec, step: int, sim_time: float, value: Any) -> None:
     """Append one callback record and enforce record limits."""
+    # Callbacks may return live objects such as state.occupations, which the
+    # next event mutates in place: keep the value as it was when sampled.
     records.append(
-        PropertyRecord(name=spec.name, step=int(step), time=float(sim_time), value=value)
+        PropertyRecord(
+            name=spec.name, step=int(step), time=float(sim_time), value=deepcopy(value)
+        )
     )
     if spec.max_records is not None and len(records) > spec.max_records:
         del records[0 : len(records) - spec.max_records]
-- 
2.43.0


From 88882387370aa5192240a8e0408ffbf21c62790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:42 +0000
Subject: [PATCH 12/49] fix: store property values that cannot be copied as
 they are

---
 kmcpy/simulator/property.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kmcpy/simulator/property.py b/kmcpy/simulator/property.py
index f3edf56..d90864d 100644
--- a/kmcpy/simulator/property.py
+++ b/kmcpy/simulator/property.py
@@ -95,10 +95,12 @@ def append_record(records: list[PropertyRecord], spec: PropertySpec, step: int,
     """Append one callback record and enforce record limits."""
     # Callbacks may return live objects such as state.occupations, which the
     # next event mutates in place: keep the value as it was when sampled.
+    try:
+        value = deepcopy(value)
+    except Exception:
+        pass  # values that cannot be copied are stored as they are
     records.append(
-        PropertyRecord(
-            name=spec.name, step=int(step), time=float(sim_time), value=deepcopy(value)
-        )
+        PropertyRecord(name=spec.name, step=int(step), time=float(sim_time), value=value)
     )
     if spec.max_records is not None and len(records) > spec.max_records:
         del records[0 : len(records) - spec.max_records]
-- 
2.43.0


From b8b233798358336e44773d8bf80d32adb5502207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:18 +0000
Subject: [PATCH 13/49] fix: seeded random occupations leave the process-wide
 generator untouched

---
 kmcpy/structure/basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index cbf265c..a2c22f5 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -631,11 +631,11 @@ class Occupation:
         Returns:
             Random Occupation object
         """
-        if seed is not None:
-            np.random.seed(seed)
+        # A seeded draw uses its own generator and leaves np.random untouched.
+        generator = np.random if seed is None else np.random.RandomState(seed)
 
         # Generate random boolean array for occupied sites
-        occupied = np.random.random(n_sites) < fill_fraction
+        occupied = generator.random_sample(n_sites) < fill_fraction
 
         if isinstance(basis, str):
             basis_obj = get_basis(basis)
-- 
2.43.0


From 9273a91f9782526bcf73e9382d62af4df2c44a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:18 +0000
Subject: [PATCH 14/49] fix: convert only the template species to a match value

---
 kmcpy/structure/basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index a2c22f5..a558ea8 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -117,10 +117,10 @@ class BasisFunction(MSONable, ABC):
     
     def convert_to(self, value: Union[int, float], target_basis: 'BasisFunction') -> Union[int, float]:
         """Convert a value to another basis function."""
-        if value == self.mismatch_value:
-            return target_basis.mismatch_value
-        else:
+        if value == self.match_value:
             return target_basis.match_value
+        else:
+            return target_basis.mismatch_value
     
     def __str__(self) -> str:
         return f"{self.__class__.__name__}(match={self.match_value}, mismatch={self.mismatch_value})"
-- 
2.43.0


From 684766a490e1c12a7591c57acef00bcaff6a74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 15/49] fix: save configurations holding numpy values

---
 kmcpy/simulator/config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index d9be365..78b8339 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -17,7 +17,7 @@ from typing import Any, Optional
 from dataclasses import dataclass, field
 from pathlib import Path
 
-from monty.json import MSONable
+from monty.json import MSONable, jsanitize
 from monty.serialization import dumpfn, loadfn
 from kmcpy.simulator.property import BUILTIN_PROPERTY_FIELDS, validate_schedule
 from kmcpy.units import UNIT_CONVENTIONS
@@ -199,7 +199,8 @@ class SystemConfig:
         if not include_loader_paths:
             for key in LOADER_FIELD_NAMES:
                 data.pop(key, None)
-        return data
+        # Settings may be numpy values (e.g. occupations); files hold plain ones.
+        return jsanitize(data)
 
 
 @dataclass(frozen=True)
@@ -289,7 +290,7 @@ class RuntimeConfig:
     
     def as_dict(self) -> dict[str, Any]:
         """Convert to a JSON/YAML-serializable dictionary."""
-        return {
+        return jsanitize({
             "temperature": self.temperature,
             "attempt_frequency": self.attempt_frequency,
             "equilibration_passes": self.equilibration_passes,
@@ -300,7 +301,7 @@ class RuntimeConfig:
             "property_sampling_time_interval": self.property_sampling_time_interval,
             "builtin_property_enabled": dict(self.builtin_property_enabled),
             "property_callbacks": [dict(callback) for callback in self.property_callbacks],
-        }
+        })
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 66f747467994c4ea25f327b525f59e81ec662eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:30 +0000
Subject: [PATCH 16/49] fix: refuse not-a-number temperature and attempt
 frequency

---
 kmcpy/simulator/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index 78b8339..0c0d280 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -229,10 +229,10 @@ class RuntimeConfig:
     
     def __post_init__(self):
         """Validate runtime fields."""
-        if self.temperature <= 0:
+        if not self.temperature > 0:
             raise ValueError("Temperature must be positive")
         
-        if self.attempt_frequency <= 0:
+        if not self.attempt_frequency > 0:
             raise ValueError("Attempt frequency must be positive")
         
         if self.equilibration_passes < 0:
-- 
2.43.0


From e3bcb88fde2ecb7dc9652b4731f9c745c563dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:49 +0000
Subject: [PATCH 17/49] fix: refuse a mobile ion species no site can hold

---
 kmcpy/simulator/kmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 6a980d6..1e05087 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -243,6 +243,11 @@ class KMC:
             active_site_order,
             config.mobile_ion_specie,
         )
+        if not np.any(hop_state_lookup.mobile_state_by_site != INVALID_STATE):
+            raise ValueError(
+                f"No active site can hold mobile_ion_specie '{config.mobile_ion_specie}'. "
+                "Check it against site_mapping."
+            )
 
         if config.initial_occupations is not None:
             simulation_state = State.from_occupations(
-- 
2.43.0


From 8ef5227aaef22740de9862c1a315ae5bb88b9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 18/49] fix: order neighbors of equivalent sites by their role
 around the migrating ion

---
 kmcpy/event/generators.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 0c93d2c..c0bae6f 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -256,27 +256,44 @@ class EventGenerator:
             unsorted_neighbor_sequence
         )
         local_index = primitive_cell[migrating_ion_index].properties["local_index"]
+        # Distances to the migrating ion tell apart neighbors that a symmetry of
+        # the neighbor shell alone would exchange.
+        center_site = primitive_cell[migrating_ion_index]
+        candidate_with_center = Cluster.from_sites(
+            [neighbor["site"] for neighbor in unsorted_neighbor_sequence]
+            + [center_site],
+            roles=[""] * len(unsorted_neighbor_sequence) + ["center"],
+        )
 
         if neighbor_species not in reference_local_env_dict:
             reference_local_env_dict[neighbor_species] = {
                 "cluster": candidate_cluster,
+                "cluster_with_center": candidate_with_center,
                 "neighbor_sequence": list(unsorted_neighbor_sequence),
             }
             local_env_info_dict[local_index] = list(unsorted_neighbor_sequence)
             return True, neighbor_species, candidate_cluster
 
-        reference_cluster = reference_local_env_dict[neighbor_species]["cluster"]
-        match = ClusterMatcher(
-            reference_cluster,
-            rtol=distance_matrix_rtol,
-            atol=distance_matrix_atol,
-        ).match(
-            candidate_cluster,
-            find_nearest_if_fail=find_nearest_if_fail,
-        )
+        reference = reference_local_env_dict[neighbor_species]
+        try:
+            match = ClusterMatcher(
+                reference["cluster_with_center"],
+                rtol=distance_matrix_rtol,
+                atol=distance_matrix_atol,
+            ).match(candidate_with_center)
+            neighbor_order = match.reference_to_candidate[:-1]
+        except ValueError:
+            match = ClusterMatcher(
+                reference["cluster"],
+                rtol=distance_matrix_rtol,
+                atol=distance_matrix_atol,
+            ).match(
+                candidate_cluster,
+                find_nearest_if_fail=find_nearest_if_fail,
+            )
+            neighbor_order = match.reference_to_candidate
         local_env_info_dict[local_index] = [
-            unsorted_neighbor_sequence[index]
-            for index in match.reference_to_candidate
+            unsorted_neighbor_sequence[index] for index in neighbor_order
         ]
         return False, neighbor_species, candidate_cluster
 
-- 
2.43.0


From 15fd57486bf75adb55b041e41b01f728b6e41745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 19/49] fix: order neighbors of equivalent sites alike even
 when another site class shares their composition

---
 kmcpy/event/generators.py | 64 ++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index c0bae6f..3e146de 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -259,42 +259,56 @@ class EventGenerator:
         # Distances to the migrating ion tell apart neighbors that a symmetry of
         # the neighbor shell alone would exchange.
         center_site = primitive_cell[migrating_ion_index]
-        candidate_with_center = Cluster.from_sites(
-            [neighbor["site"] for neighbor in unsorted_neighbor_sequence]
-            + [center_site],
-            roles=[""] * len(unsorted_neighbor_sequence) + ["center"],
-        )
+
+        def with_center(neighbor_sequence):
+            return Cluster.from_sites(
+                [neighbor["site"] for neighbor in neighbor_sequence] + [center_site],
+                roles=[""] * len(neighbor_sequence) + ["center"],
+            )
 
         if neighbor_species not in reference_local_env_dict:
             reference_local_env_dict[neighbor_species] = {
                 "cluster": candidate_cluster,
-                "cluster_with_center": candidate_with_center,
+                "clusters_with_center": [with_center(unsorted_neighbor_sequence)],
                 "neighbor_sequence": list(unsorted_neighbor_sequence),
             }
             local_env_info_dict[local_index] = list(unsorted_neighbor_sequence)
             return True, neighbor_species, candidate_cluster
 
         reference = reference_local_env_dict[neighbor_species]
-        try:
-            match = ClusterMatcher(
-                reference["cluster_with_center"],
-                rtol=distance_matrix_rtol,
-                atol=distance_matrix_atol,
-            ).match(candidate_with_center)
-            neighbor_order = match.reference_to_candidate[:-1]
-        except ValueError:
-            match = ClusterMatcher(
-                reference["cluster"],
-                rtol=distance_matrix_rtol,
-                atol=distance_matrix_atol,
-            ).match(
-                candidate_cluster,
-                find_nearest_if_fail=find_nearest_if_fail,
-            )
-            neighbor_order = match.reference_to_candidate
-        local_env_info_dict[local_index] = [
-            unsorted_neighbor_sequence[index] for index in neighbor_order
+        candidate_with_center = with_center(unsorted_neighbor_sequence)
+        for reference_with_center in reference["clusters_with_center"]:
+            try:
+                match = ClusterMatcher(
+                    reference_with_center,
+                    rtol=distance_matrix_rtol,
+                    atol=distance_matrix_atol,
+                ).match(candidate_with_center)
+            except ValueError:
+                continue
+            local_env_info_dict[local_index] = [
+                unsorted_neighbor_sequence[index]
+                for index in match.reference_to_candidate[:-1]
+            ]
+            return False, neighbor_species, candidate_cluster
+
+        match = ClusterMatcher(
+            reference["cluster"],
+            rtol=distance_matrix_rtol,
+            atol=distance_matrix_atol,
+        ).match(
+            candidate_cluster,
+            find_nearest_if_fail=find_nearest_if_fail,
+        )
+        ordered_neighbor_sequence = [
+            unsorted_neighbor_sequence[index]
+            for index in match.reference_to_candidate
         ]
+        local_env_info_dict[local_index] = ordered_neighbor_sequence
+        # Later sites equivalent to this one follow the order chosen here.
+        reference["clusters_with_center"].append(
+            with_center(ordered_neighbor_sequence)
+        )
         return False, neighbor_species, candidate_cluster
 
     def _export_reference_local_environment(
-- 
2.43.0


From 89d363a84ae011ac217c36daef46b04e2ebae5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:04 +0000
Subject: [PATCH 20/49] fix: ignore stored dependencies that do not cover the
 library's events

---
 kmcpy/event/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index 80f6562..f8bdce0 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -325,10 +325,12 @@ class EventLib(ABC):
             event_lib.events.append(event)
         event_lib._validate_event_indices(active_site_order)
 
-        # Load event dependencies if present and convert back to numba Lists
-        if data.get("event_dependencies"):
+        # Load event dependencies if present and convert back to numba Lists.
+        # Lists that do not cover the events are outdated and never used.
+        dependencies = data.get("event_dependencies")
+        if dependencies and len(dependencies) == len(event_lib.events):
             event_lib.event_dependencies = List()
-            for row in data["event_dependencies"]:
+            for row in dependencies:
                 numba_row = List()
                 for idx in row:
                     numba_row.append(int(idx))
-- 
2.43.0


From 33163429066b9ed6c81dabfbdcb9ce8629c5e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:03 +0000
Subject: [PATCH 21/49] fix: refuse events whose local environment does not fit
 the cluster expansion

---
 kmcpy/models/local_cluster_expansion.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 735fc6c..06daf50 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -657,7 +657,13 @@ class LocalClusterExpansion(BaseModel):
         
         # Extract local occupation using event's local environment indices
         occ_sublat = deepcopy(occupations[list(event.local_env_indices)])
-            
+        site_state_counts = getattr(self, "basis_site_state_counts", None)
+        if site_state_counts is not None and len(occ_sublat) != len(site_state_counts):
+            raise ValueError(
+                "Event local environment does not fit this LocalClusterExpansion: "
+                f"{len(occ_sublat)} sites listed, {len(site_state_counts)} expected."
+            )
+
         self._calculate_correlation(corr, occ_sublat)
         
         # Compute energy using stored parameters
-- 
2.43.0


From 466d261452483c674d5ae02cba4adc027a7312e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:14 +0000
Subject: [PATCH 22/49] fix: evaluate occupation-basis cluster expansions with
 basis values, as fitted

---
 kmcpy/models/local_cluster_expansion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 06daf50..b4057de 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -664,6 +664,11 @@ class LocalClusterExpansion(BaseModel):
                 f"{len(occ_sublat)} sites listed, {len(site_state_counts)} expected."
             )
 
+        basis = getattr(self, "basis", None)
+        if basis is not None and not getattr(basis, "uses_state_indices", False):
+            # States are species indices; the correlations use basis values.
+            occ_sublat = np.array([basis.state_value(state) for state in occ_sublat])
+
         self._calculate_correlation(corr, occ_sublat)
         
         # Compute energy using stored parameters
-- 
2.43.0


From 9bb496ccdebf0bf28c34abe86fcb0cbc6c80ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:15 +0000
Subject: [PATCH 23/49] fix: refresh every rate after a hop when barrier rules
 inspect sites outside the event

---
 kmcpy/models/base.py                | 4 ++++
 kmcpy/models/local_barrier_model.py | 8 ++++++++
 kmcpy/simulator/kmc.py              | 5 ++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/base.py b/kmcpy/models/base.py
index 6c74936..7a56070 100644
--- a/kmcpy/models/base.py
+++ b/kmcpy/models/base.py
@@ -59,6 +59,10 @@ class BaseModel(MSONable, ABC):
     """
     fitter_class = None
 
+    # Set to True by models whose rates also depend on sites outside an event's
+    # endpoints and local environment: every rate is then refreshed after a hop.
+    depends_on_all_sites = False
+
     def __init__(self, *args, **kwargs):
         """
         Initialize the BaseModel. This method can be overridden by subclasses to handle specific initialization.
diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 58e1760..c17ef47 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -840,6 +840,14 @@ class LocalBarrierModel(BaseModel):
         for rule in rules:
             self.add_rule(rule)
 
+    @property
+    def depends_on_all_sites(self) -> bool:
+        """Whether a rule inspects sites outside the event's own neighborhood."""
+        return any(
+            rule.get("sites") == "all" or isinstance(rule.get("sites"), tuple)
+            for rule in self.rules
+        )
+
     def _selected_sites(
         self,
         sites: str | tuple[int, ...],
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 1e05087..412e7cf 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -448,7 +448,10 @@ class KMC:
         event_index = self.event_lib.events.index(event)
         
         # Use EventLib to get dependent events
-        events_to_be_updated = self.event_lib.get_dependent_events(event_index)
+        if getattr(self.model, "depends_on_all_sites", False):
+            events_to_be_updated = range(len(self.event_lib.events))
+        else:
+            events_to_be_updated = self.event_lib.get_dependent_events(event_index)
         
         # Update probabilities for dependent events using configured model
         for e_index in events_to_be_updated:
-- 
2.43.0


From 84cacf4dda48f6364fdb35865bc9bf4f7cd8f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:23 +0000
Subject: [PATCH 24/49] fix: blocked hops have rate zero even where no barrier
 rule matches

---
 kmcpy/models/local_barrier_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index c17ef47..2193ccf 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -1011,17 +1011,18 @@ class LocalBarrierModel(BaseModel):
     ) -> float:
         """Compute event rate in Hz from a selected meV barrier."""
         self._validate_probability_mode()
+        if event_direction(simulation_state.occupations, event) == 0:
+            # No hop, no barrier: the environment need not be covered by a rule.
+            return 0.0
         barrier = self.compute(
             simulation_state=simulation_state,
             event=event,
             property_name=self.probability_property,
         )
-        occupations = simulation_state.occupations
-        hop_factor = 1.0 if event_direction(occupations, event) != 0 else 0.0
         temperature = runtime_config.temperature
         attempt_frequency = runtime_config.attempt_frequency
 
-        probability = hop_factor * attempt_frequency * np.exp(
+        probability = attempt_frequency * np.exp(
             -barrier / (self.BOLTZMANN_CONSTANT_MEV_PER_K * temperature)
         )
         return float(probability)
-- 
2.43.0


From 7d237bb039aab4dcfb2a74baa0cb1f8fc14fe78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:33 +0000
Subject: [PATCH 25/49] fix: call apply_fn with the keyword arguments it
 accepts, as compute_fn

---
 kmcpy/models/site_energy.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 590976a..c29eb37 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -401,13 +401,17 @@ class SiteEnergyModel(BaseModel):
 
         apply_fn = self._resolve_apply_fn()
         if apply_fn is not None:
-            apply_fn(
-                runtime=self._resolve_runtime(),
-                external_occupation=self.external_occupation,
-                changes=changes,
-                event=event,
-                simulation_state=simulation_state,
-                **self.apply_kwargs,
+            _call_with_supported_keywords(
+                apply_fn,
+                {
+                    "runtime": self._resolve_runtime(),
+                    "external_occupation": self.external_occupation,
+                    "changes": changes,
+                    "event": event,
+                    "simulation_state": simulation_state,
+                    **self.apply_kwargs,
+                },
+                user_kwarg_names=set(self.apply_kwargs),
             )
 
         for change in changes:
@@ -554,7 +558,7 @@ def _call_with_supported_keywords(
     unused_user_kwargs = sorted(user_kwarg_names - accepted)
     if unused_user_kwargs:
         raise TypeError(
-            "SiteEnergyModel compute_kwargs contains keys not accepted by "
+            "SiteEnergyModel keyword arguments contain keys not accepted by "
             f"{func}: {unused_user_kwargs}"
         )
     return func(**{key: value for key, value in kwargs.items() if key in accepted})
-- 
2.43.0


From 5cca3cbdead0678833344f2c91370a6c43bc83a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:10 +0000
Subject: [PATCH 26/49] fix: write fitted parameters and their history to YAML
 as documented

---
 kmcpy/models/parameters.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..1201665 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -83,7 +83,7 @@ class LCEModelParameters(MSONable):
         filename = Path(filename)
         if filename.suffix == ".h5":
             return cls.from_dict(_read_hdf5_parameter_group(filename))
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text_parameters(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted parameters to JSON/YAML or HDF5."""
@@ -91,7 +91,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text_parameters(self.as_dict(), filename, indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -149,7 +149,7 @@ class LCEModelParamHistory(MSONable):
                 for key in sorted(h5file.keys()):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text_parameters(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted-parameter history to JSON/YAML or HDF5."""
@@ -164,7 +164,23 @@ class LCEModelParamHistory(MSONable):
                     group = h5file.create_group(f"parameter_set_{index}")
                     _write_hdf5_group(group, parameters.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text_parameters(self.as_dict(), filename, indent)
+
+
+def _is_yaml(filename: Path) -> bool:
+    return filename.suffix.lower() in {".yaml", ".yml"}
+
+
+def _load_text_parameters(filename: Path):
+    # The JSON-only keywords of monty's loadfn/dumpfn are rejected for YAML.
+    return loadfn(filename) if _is_yaml(filename) else loadfn(filename, cls=None)
+
+
+def _dump_text_parameters(data: dict[str, Any], filename: Path, indent: int) -> None:
+    if _is_yaml(filename):
+        dumpfn(data, filename)
+        return
+    dumpfn(data, filename, indent=indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
-- 
2.43.0


From 9345fad811e61873d75e21292b264e7d18d4dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:33 +0000
Subject: [PATCH 27/49] fix: supercell templates keep each site's own allowed
 species

---
 kmcpy/structure/lattice_structure.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..88d0482 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -379,14 +379,20 @@ class LatticeStructure(ABC):
     
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
+        # Carry each site's template index through pymatgen's own site ordering.
+        self.template_structure.add_site_property(
+            "_kmcpy_template_index",
+            list(range(len(self.template_structure))),
+        )
         self.template_structure.make_supercell(sc_matrix)
-        # Update allowed_species accordingly
-        original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        template_indices = self.template_structure.site_properties[
+            "_kmcpy_template_index"
+        ]
+        self.template_structure.remove_site_property("_kmcpy_template_index")
+        self.allowed_species = [
+            self.allowed_species[int(template_index)]
+            for template_index in template_indices
+        ]
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From 62b15c51b144a4447c09a91cdde3091d28612e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:55 +0000
Subject: [PATCH 28/49] fix: refuse structures that lack an atom on a site that
 cannot be vacant

---
 kmcpy/structure/lattice_structure.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index 88d0482..8297eca 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -218,6 +218,10 @@ class LatticeStructure(ABC):
                 "No mapping found: multiple atoms map to the same template site"
             )
 
+        self._require_atoms_where_no_vacancy(
+            supercell_allowed_species, template_site_indices.tolist()
+        )
+
         # 5. Create occupation vector from species at mapped sites. Missing
         # template sites remain mismatch/vacant.
         for structure_site_index, template_site_index in enumerate(template_site_indices):
@@ -247,6 +251,19 @@ class LatticeStructure(ABC):
         # Return Occupation object
         return Occupation(occ_data, basis=self.basis, validate=False)
 
+    @staticmethod
+    def _require_atoms_where_no_vacancy(allowed_species_by_site, mapped_sites) -> None:
+        """Refuse missing atoms on mutable sites that have no vacancy state."""
+        for site_index in set(range(len(allowed_species_by_site))) - set(mapped_sites):
+            allowed_species = allowed_species_by_site[site_index] or []
+            if len(allowed_species) > 1 and not any(
+                is_vacancy_species(specie) for specie in allowed_species
+            ):
+                raise ValueError(
+                    f"No mapping found: no atom at template site {site_index}, "
+                    "which cannot be vacant"
+                )
+
     @staticmethod
     def _infer_structure_site_mapping(
         supercell_template: Structure,
-- 
2.43.0


From 3eeb6b589982fd1c8cfb84e1f619fc6de3b4d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:14 +0000
Subject: [PATCH 29/49] fix: assign atoms of full structures to active sites by
 position, not by index

---
 kmcpy/structure/active_site_order.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5dec1a0..7c254b0 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -285,7 +285,10 @@ class ActiveSiteOrder(MSONable):
             return structure.copy()
 
         if len(structure) == self.original_site_count:
-            active_sites = [structure[index] for index in self.active_to_original]
+            site_order = self._full_site_order(structure)
+            active_sites = [
+                structure[site_order[index]] for index in self.active_to_original
+            ]
             active_structure = type(structure).from_sites(active_sites)
             active_structure.add_site_property(
                 ACTIVE_SITE_PROPERTY, list(range(self.active_site_count))
@@ -319,12 +322,35 @@ class ActiveSiteOrder(MSONable):
             kept_by_active_index[index]
             for index in sorted(kept_by_active_index)
         ]
+        if not active_sites:
+            return type(structure)(structure.lattice, [], [])
         active_structure = type(structure).from_sites(active_sites)
         active_structure.add_site_property(
             ACTIVE_SITE_PROPERTY, sorted(kept_by_active_index)
         )
         return active_structure
 
+    def _full_site_order(self, structure: Structure) -> list[int]:
+        """Return the structure index at each full-supercell template site.
+
+        Atoms are assigned by position. Structures whose positions do not assign
+        one atom to every template site are taken in template order.
+        """
+        template_order = list(range(len(structure)))
+        if self.template_structure is None:
+            return template_order
+        full_reference = self.full_structure_with_properties()
+        nearest = np.argmin(
+            full_reference.lattice.get_all_distances(
+                structure.frac_coords,
+                full_reference.frac_coords,
+            ),
+            axis=1,
+        )
+        if sorted(nearest.tolist()) != template_order:
+            return template_order
+        return np.argsort(nearest).tolist()
+
 
 def _normalize_supercell_shape(
     supercell_shape: Sequence[int] | None,
-- 
2.43.0


From 5cdb037835caa0b4155a8bc0cefebb2be5101fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:04 +0000
Subject: [PATCH 30/49] fix: keep periodic images of the center in enumerated
 local environments

---
 kmcpy/structure/local_environment_enumerator.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index b4c66ea..034b6cf 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -309,7 +309,6 @@ def _local_site_indices(
 
     if isinstance(center, int):
         center_site = structure[center]
-        center_index = center
     elif isinstance(center, (list, tuple, np.ndarray)):
         center_site = PeriodicSite(
             species=DummySpecies("X"),
@@ -317,7 +316,6 @@ def _local_site_indices(
             coords_are_cartesian=False,
             lattice=structure.lattice.copy(),
         )
-        center_index = None
     else:
         raise ValueError("Center must be an index or a list of fractional coordinates.")
 
@@ -338,7 +336,7 @@ def _local_site_indices(
         local_env_sites = [
             site_info
             for site_info in local_env_sites
-            if not _is_center_site(site_info, center_site, center_index, order)
+            if not _is_center_site(site_info, center_site, order)
         ]
     local_env_sites = order.sort_local_env_sites(local_env_sites)
     return tuple(int(site_info[2]) for site_info in local_env_sites)
@@ -347,13 +345,11 @@ def _local_site_indices(
 def _is_center_site(
     site_info,
     center_site: PeriodicSite,
-    center_index: int | None,
     order: LocalSiteOrder,
 ) -> bool:
     site = site_info[0]
-    site_index = site_info[2]
-    if center_index is not None and int(site_index) == int(center_index):
-        return True
+    # Periodic images of the center are distinct neighbors, so compare
+    # positions rather than site indices.
     return np.linalg.norm(site.coords - center_site.coords) <= order.center_match_tolerance
 
 
-- 
2.43.0


From 2a50dd13eff9b703c290e148dfb8cb595dc587ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:04 +0000
Subject: [PATCH 31/49] fix: vary each site once where a local environment
 reaches several of its images

---
 kmcpy/structure/local_environment_enumerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 034b6cf..9d0ff4d 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -407,10 +407,11 @@ def _resolve_variable_site_indices(
             )
         for index in resolved:
             _allowed_choices(lattice_structure, index, variable_species)
-        return resolved
+        return tuple(dict.fromkeys(resolved))
 
     resolved_sites = []
-    for index in local_site_indices:
+    # A site reached through several periodic images carries one species.
+    for index in dict.fromkeys(local_site_indices):
         allowed = lattice_structure.allowed_species[index]
         if allowed is None or len(allowed) <= 1:
             continue
-- 
2.43.0


From 260622bca1dd0fcb7d4ad399839391ff6f883228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:04 +0000
Subject: [PATCH 32/49] fix: accept zero counts in exact enumeration

---
 kmcpy/structure/local_environment_enumerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 9d0ff4d..dcb7944 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -763,7 +763,7 @@ def _matches_counts(
 ) -> bool:
     if species_counts is None:
         return True
-    return Counter(species_by_site.values()) == species_counts
+    return Counter(species_by_site.values()) == Counter(species_counts)
 
 
 def _canonical_counts(species_counts: Mapping[Any, int] | None) -> dict[str, int] | None:
-- 
2.43.0


From ccb698d9d78b6d91dfd839ab3e96f1c2e0f89cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:04 +0000
Subject: [PATCH 33/49] fix: build NEB endpoints with the vacancy state of the
 hop sites

---
 kmcpy/structure/local_environment_enumerator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index dcb7944..cb25330 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -17,6 +17,7 @@ from kmcpy.structure.species import (
     is_vacancy_species,
     species_label,
     species_tokens,
+    vacancy_species,
 )
 
 
@@ -199,9 +200,18 @@ def generate_neb_endpoint_pair(
         raise ValueError("hop sites must have the same first allowed mobile species")
 
     initial_occupation = initial_occupation.copy()
-    initial_occupation[from_site] = active_lattice_structure.basis.match_value
-    initial_occupation[to_site] = active_lattice_structure.basis.mismatch_value
-    final_occupation = initial_occupation.flip([from_site, to_site])
+    final_occupation = initial_occupation.copy()
+    for occupied, ion_site, vacant_site in (
+        (initial_occupation, from_site, to_site),
+        (final_occupation, to_site, from_site),
+    ):
+        occupied[ion_site] = _occupation_value_for_species(
+            active_lattice_structure, ion_site, from_species
+        )
+        # Raises when the site cannot be vacant.
+        occupied[vacant_site] = _occupation_value_for_species(
+            active_lattice_structure, vacant_site, vacancy_species()
+        )
 
     initial, final = _ordered_endpoint_structures(
         lattice_structure,
-- 
2.43.0


From 72d3700905f10fb8d48d02e173e68c6e1af65143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:15 +0000
Subject: [PATCH 34/49] fix: fit expansions with a single cluster function

---
 kmcpy/models/fitting/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index a8346a3..eec020d 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -308,10 +308,10 @@ class LCEFitter(BaseFitter):
         import numpy as np
 
         logger.info("Loading E_KRA from %s ...", ekra_fname)
-        e_kra = np.loadtxt(ekra_fname)
-        weight = np.loadtxt(weight_fname)
+        e_kra = np.loadtxt(ekra_fname, ndmin=1)
+        weight = np.loadtxt(weight_fname, ndmin=1)
         weight_copy = copy(weight)
-        correlation_matrix = np.loadtxt(corr_fname)
+        correlation_matrix = np.loadtxt(corr_fname, ndmin=2)
 
         keci, empty_cluster, y_pred = self._fit_lasso_values(
             correlation_matrix=correlation_matrix,
-- 
2.43.0


From a4c5511eb404608f78009f3d872c70fdf4ed0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:37 +0000
Subject: [PATCH 35/49] fix: fitted constants are plain numbers so parameters
 write to YAML

---
 kmcpy/models/fitting/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index eec020d..43e5d67 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -194,7 +194,7 @@ class LCEFitter(BaseFitter):
             )
             estimator.fit(x, y, **fit_kwargs)
             keci = estimator.coef_
-            empty_cluster = estimator.intercept_
+            empty_cluster = float(estimator.intercept_)
             return keci, empty_cluster, estimator.predict(x)
 
         if sample_weight is None:
-- 
2.43.0


From fda89ebe4a7840247bb700a15c38c4008fe6c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:13 +0000
Subject: [PATCH 36/49] fix: label CIF sites shared by atoms given at
 symmetry-equivalent positions

---
 kmcpy/io/cif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/io/cif.py b/kmcpy/io/cif.py
index 1bd2cd0..bce6f6c 100644
--- a/kmcpy/io/cif.py
+++ b/kmcpy/io/cif.py
@@ -141,7 +141,7 @@ class _LabeledCifParser(CifParser):
                     coord_to_species[match] += comp
                     # disordered magnetic not currently supported
                     coord_to_magmoms[match] = None
-                    coord_to_labels[coord] += data["_atom_site_label"][i]
+                    coord_to_labels[match] += data["_atom_site_label"][i]
 
         sum_occu = [
             sum(c.values())
-- 
2.43.0


From dc30050d78cbf83e7f5da6717c5b5ec59706a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:40 +0000
Subject: [PATCH 37/49] fix: refuse fractional supercell_shape values on the
 command line

---
 kmcpy/cli/run_kmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/cli/run_kmc.py b/kmcpy/cli/run_kmc.py
index ab0ca8d..76aa4f1 100755
--- a/kmcpy/cli/run_kmc.py
+++ b/kmcpy/cli/run_kmc.py
@@ -29,6 +29,8 @@ def _parse_supercell_shape(value):
         raise argparse.ArgumentTypeError(
             "supercell_shape must contain integers"
         ) from exc
+    if any(float(item) != value for item, value in zip(parsed, supercell_shape)):
+        raise argparse.ArgumentTypeError("supercell_shape must contain integers")
     if len(supercell_shape) != 3:
         raise argparse.ArgumentTypeError("supercell_shape must contain 3 integers")
     return supercell_shape
-- 
2.43.0


From 4e2849d0dad19767baa378bd35904b72fdb71fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:49 +0000
Subject: [PATCH 38/49] fix: refuse fractional supercell shapes instead of
 truncating them

---
 kmcpy/simulator/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index 0c0d280..b1608ab 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -176,6 +176,10 @@ class SystemConfig:
         
         if len(self.supercell_shape) != 3:
             raise ValueError("Supercell shape must have 3 components")
+        if any(value != int(value) for value in self.supercell_shape):
+            raise ValueError(
+                f"Supercell shape must contain integers: {self.supercell_shape}"
+            )
         
         # Temporarily disabled for testing
         # if not Path(self.structure_file).exists():
-- 
2.43.0


From c1870fbe403f78efedb10d9719734d0a8f9fe03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:27 +0000
Subject: [PATCH 39/49] fix: add no structure of a refused NEB batch

---
 kmcpy/io/neb/data.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/kmcpy/io/neb/data.py b/kmcpy/io/neb/data.py
index 20a8956..4fd0ca3 100644
--- a/kmcpy/io/neb/data.py
+++ b/kmcpy/io/neb/data.py
@@ -324,21 +324,29 @@ class NEBDataLoader:
         if metadata is not None and len(metadata) != len(structures):
             raise ValueError("metadata must have the same length as structures")
 
-        for index, (structure, property_value) in enumerate(
-            zip(structures, property_values)
-        ):
-            entry_metadata = metadata[index] if metadata is not None else None
-            self.add_structure(
-                structure=structure,
-                property_value=property_value,
-                model=model,
-                metadata=entry_metadata,
-                reference_local_lattice_structure=reference_local_lattice_structure,
-                exclude_species=exclude_species,
-                tol=tol,
-                angle_tol=angle_tol,
-                **from_file_kwargs,
-            )
+        entry_count, previous_model = len(self.neb_entries), self.model
+        try:
+            for index, (structure, property_value) in enumerate(
+                zip(structures, property_values)
+            ):
+                entry_metadata = metadata[index] if metadata is not None else None
+                self.add_structure(
+                    structure=structure,
+                    property_value=property_value,
+                    model=model,
+                    metadata=entry_metadata,
+                    reference_local_lattice_structure=reference_local_lattice_structure,
+                    exclude_species=exclude_species,
+                    tol=tol,
+                    angle_tol=angle_tol,
+                    **from_file_kwargs,
+                )
+        except Exception:
+            # A refused structure leaves none of its batch behind.
+            del self.neb_entries[entry_count:]
+            self.model = previous_model
+            self.model_name = getattr(previous_model, "name", "unknown")
+            raise
 
     @classmethod
     def from_structures(
-- 
2.43.0


From 0b50b6fb2c62e875d54a77ee9c07c00020928615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:54 +0000
Subject: [PATCH 40/49] fix: enumerate decorations that leave every site vacant

---
 kmcpy/structure/local_environment_enumerator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index cb25330..9fd6816 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -681,6 +681,9 @@ def _structure_from_active_occupation(
         if _is_vacancy(species):
             continue
         sites.append(_periodic_site_from_site(template_site, species))
+    if not sites:
+        # Every site is vacant; from_sites() would have no lattice to read.
+        return Structure(full_structure.lattice, [], [])
     return Structure.from_sites(sites)
 
 
-- 
2.43.0


From 7385a07fe4d10c4049b7d633dcb6d023644e80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:32 +0000
Subject: [PATCH 41/49] fix: validate external state mappings only for hops
 that can happen

---
 kmcpy/models/site_energy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index c29eb37..8012440 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,7 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
-from kmcpy.event import endpoint_states_after_hop
+from kmcpy.event import endpoint_states_after_hop, event_direction
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -364,6 +364,10 @@ class SiteEnergyModel(BaseModel):
         if events is None:
             return
         for event_index, event in enumerate(events):
+            if event_direction(occupations, event) == 0:
+                # A blocked hop changes nothing, and its endpoint codes need not
+                # be valid on the other site.
+                continue
             try:
                 self._changes_from_pre_state(event, occupations)
             except (IndexError, KeyError, ValueError) as exc:
-- 
2.43.0


From 873084316411be266cc5430d05690d2e4c655634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:32 +0000
Subject: [PATCH 42/49] fix: refuse empty structures of another cell

---
 kmcpy/structure/lattice_structure.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index 8297eca..5b1cf24 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -174,11 +174,6 @@ class LatticeStructure(ABC):
             dtype=type(self.basis.match_value),
         )
 
-        # Handle empty structure case (all sites are vacant)
-        if len(structure) == 0:
-            logger.debug("Empty structure - all sites are vacant")
-            return Occupation(occ_data, basis=self.basis, validate=False)
-        
         # 3. Validate structure compatibility
         # Check lattice compatibility
         if not np.allclose(supercell_template.lattice.matrix, structure.lattice.matrix,
@@ -186,6 +181,11 @@ class LatticeStructure(ABC):
             logger.debug("Lattice mismatch detected")
             raise ValueError("No mapping found: lattice parameters don't match within tolerance")
 
+        # Handle empty structure case (all sites are vacant)
+        if len(structure) == 0:
+            logger.debug("Empty structure - all sites are vacant")
+            return Occupation(occ_data, basis=self.basis, validate=False)
+
         if structure_site_mapping is None:
             template_site_indices = self._infer_structure_site_mapping(
                 supercell_template,
-- 
2.43.0


From 777deb3549146f9a6e21967d78dc1e104e49ba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 43/49] fix: let build() replace the default barrier

---
 kmcpy/models/local_barrier_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 2193ccf..9a0d704 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -819,7 +819,9 @@ class LocalBarrierModel(BaseModel):
         if default_barrier is not None:
             if self.default_properties is None:
                 self.default_properties = {}
-            self.default_properties.setdefault("barrier", float(default_barrier))
+            if default_properties is None or "barrier" not in default_properties:
+                # An explicit default replaces that of the previous rule table.
+                self.default_properties["barrier"] = float(default_barrier)
         if default_property is not None:
             self.default_property = default_property
         if probability_mode is not None:
-- 
2.43.0


From 5ae8124fd9d0e74fd1ae429b9c4374a55bfa53df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:09 +0000
Subject: [PATCH 44/49] fix: record the nearest image of a hop in skewed cells

---
 kmcpy/simulator/tracker.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index b5d1089..050d0a9 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -4,6 +4,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import product
 from typing import TYPE_CHECKING, Any, Callable, Optional
 
 import numpy as np
@@ -47,6 +48,9 @@ RESULT_UNITS = {
     **BUILTIN_PROPERTY_UNITS,
 }
 
+# Zero first, so that equally near images keep the one given by rounding.
+NEIGHBOR_IMAGES = np.array(sorted(product((-1, 0, 1), repeat=3), key=np.any))
+
 
 class CallbackExecutionError(RuntimeError):
     """Raised when an attached property callback fails and cannot be recovered."""
@@ -476,11 +480,14 @@ class Tracker:
     def _wrapped_hop_displacement(self, event, direction: int) -> np.ndarray:
         """Return the minimum-image Cartesian displacement for one accepted hop."""
         from_site, to_site = event.mobile_ion_indices
-        displacement_frac = direction * (
-            self.frac_coords[to_site] - self.frac_coords[from_site]
-        )
+        displacement_frac = self.frac_coords[to_site] - self.frac_coords[from_site]
         displacement_frac -= np.round(displacement_frac).astype(int)
-        return np.array(self.latt.get_cartesian_coords(displacement_frac))
+        # In skewed cells the nearest image may be one further lattice vector away.
+        displacements = np.array(
+            self.latt.get_cartesian_coords(displacement_frac + NEIGHBOR_IMAGES)
+        )
+        nearest = np.argmin(np.round(np.linalg.norm(displacements, axis=1), 8))
+        return direction * displacements[nearest]
 
     def update_current_pass(self, current_pass: int) -> None:
         """Update current pass index used in logging/output."""
-- 
2.43.0


From 954e3cb1246b4e962b72850d409a8fb668009b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:55 +0000
Subject: [PATCH 45/49] fix: record the nearest image of a hop in long,
 unreduced cells

---
 kmcpy/simulator/tracker.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 050d0a9..f7eff75 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING, Any, Callable, Optional
 
 import numpy as np
 
-from pymatgen.core import Structure
+from pymatgen.core import Lattice, Structure
 from kmcpy.simulator.property import (
     BUILTIN_PROPERTY_FIELDS,
     BUILTIN_PROPERTY_UNITS,
@@ -153,6 +153,7 @@ class Tracker:
         self.displacement = np.zeros((self.n_mobile_ion_specie, 3))
         self.hop_counter = np.zeros(self.n_mobile_ion_specie, dtype=np.int64)
         self.r0 = self.frac_coords[self.mobile_ion_specie_locations] @ self.latt.matrix
+        self.hop_lattice = Lattice(self.latt.matrix)
 
     @property
     def occ_initial(self) -> list:
@@ -481,10 +482,12 @@ class Tracker:
         """Return the minimum-image Cartesian displacement for one accepted hop."""
         from_site, to_site = event.mobile_ion_indices
         displacement_frac = self.frac_coords[to_site] - self.frac_coords[from_site]
-        displacement_frac -= np.round(displacement_frac).astype(int)
-        # In skewed cells the nearest image may be one further lattice vector away.
-        displacements = np.array(
-            self.latt.get_cartesian_coords(displacement_frac + NEIGHBOR_IMAGES)
+        # In skewed cells the nearest image need not be the one given by rounding; in
+        # the reduced (LLL) basis it is at most one further lattice vector away.
+        reduced_frac = self.hop_lattice.get_lll_frac_coords(displacement_frac)
+        reduced_frac -= np.round(reduced_frac).astype(int)
+        displacements = self.hop_lattice.get_cartesian_coords(
+            self.hop_lattice.get_frac_coords_from_lll(reduced_frac + NEIGHBOR_IMAGES)
         )
         nearest = np.argmin(np.round(np.linalg.norm(displacements, axis=1), 8))
         return direction * displacements[nearest]
-- 
2.43.0


From 74d9baad24e8639504b9850c81fca9d9cf2ad5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 46/49] fix: refuse starting occupations that are no state of
 their site

---
 kmcpy/simulator/kmc.py               |  1 +
 kmcpy/structure/active_site_order.py | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 412e7cf..9df03f9 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -262,6 +262,7 @@ class KMC:
             )
         else:
             raise ValueError("Initial occupations could not be determined.")
+        active_site_order.validate_occupations(simulation_state.occupations)
 
         return cls(
             structure=structure,
diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 7c254b0..47e64b1 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -233,6 +233,19 @@ class ActiveSiteOrder(MSONable):
                 f"{field_name} contains indices outside the active-site range: {invalid}"
             )
 
+    def validate_occupations(self, occupations: Sequence[Any]) -> None:
+        """Refuse occupations that are not states of their site's allowed species."""
+        for index, value in enumerate(occupations):
+            allowed = self.allowed_species_by_primitive_site[
+                int(self.active_to_primitive[index])
+            ]
+            if value not in range(len(allowed)):
+                raise ValueError(
+                    f"Occupation {value!r} of active site {index} is not a state of "
+                    f"its allowed species {list(allowed)}; expected an integer from "
+                    f"0 to {len(allowed) - 1}."
+                )
+
     def select_active_values(self, values: Sequence[Any]) -> list[Any]:
         """Return compact active-site values from active or full-supercell input."""
         values = list(values)
-- 
2.43.0


From 6d531776bde2e1f54d1edfff4beb464305142f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 47/49] fix: leave an occupation vector unchanged by a refused
 assignment

---
 kmcpy/structure/basis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index a558ea8..619a3d0 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -418,9 +418,13 @@ class Occupation:
     
     def __setitem__(self, index: Union[int, slice], value: Union[int, List[int]]):
         """Set occupation value(s) at index."""
+        previous = self._data.copy()
         self._data[index] = value
-        if hasattr(self, '_validate'):  # Only validate if not in constructor
+        try:
             self._validate()
+        except ValueError:
+            self._data = previous
+            raise
     
     def __iter__(self) -> Iterator[int]:
         """Iterate over occupation values."""
-- 
2.43.0


From b54fe90ecb78ac146b65cdc34feeaae819c02e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 48/49] fix: refuse fractional occupation values instead of
 truncating them

---
 kmcpy/structure/basis.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index 619a3d0..697cac6 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -372,7 +372,18 @@ class Occupation:
         self._data = np.array(data, dtype=type(self._basis_obj.match_value))
         
         if validate:
+            self._check_whole(data)
             self._validate()
+
+    def _check_whole(self, values):
+        """Refuse values that storing as occupation states would truncate."""
+        values = np.asarray(values)
+        truncating = values.dtype.kind == "f" and self._data.dtype.kind != "f"
+        if truncating and not np.array_equal(values, np.trunc(values)):
+            raise ValueError(
+                f"Invalid values {values.tolist()} for {self._basis_name} basis. "
+                f"Must be in {self._basis_obj.valid_values}"
+            )
     
     def _validate(self):
         """Validate occupation values against the specified basis."""
@@ -421,6 +432,7 @@ class Occupation:
         previous = self._data.copy()
         self._data[index] = value
         try:
+            self._check_whole(value)
             self._validate()
         except ValueError:
             self._data = previous
-- 
2.43.0


From f31e5b8887afaf4c4c51a760f3f5e097c1716cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 49/49] fix: stop a run whose total rate gives no valid waiting
 time

---
 kmcpy/simulator/kmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 9df03f9..6b45bc5 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -414,6 +414,11 @@ class KMC:
             tuple[Event, float, int]: The chosen event, the time for this event to occur, and the event index.
         """
         proposed_event_index, dt = _propose(prob_cum_list=self.prob_cum_list, rng=self.rng)
+        if not (np.isfinite(self.prob_cum_list[-1]) and np.isfinite(dt)):
+            raise ValueError(
+                f"Total event rate {self.prob_cum_list[-1]} gives no valid waiting time; "
+                "check the model parameters, temperature and attempt frequency."
+            )
         event = events[proposed_event_index]
         return event, dt
     
-- 
2.43.0

