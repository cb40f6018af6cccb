"""A pass-through model: kMCpy's documented custom-model hooks as a trace recorder.

Loaded through the model file's @module/@class, exactly as a user's own model,
so every accepted event and every rate evaluation of a real run is observed
without touching kMCpy.
"""
from __future__ import annotations

import importlib

from kmcpy.models.base import BaseModel


class SpyModel(BaseModel):
    def __init__(self, inner):
        super().__init__(name="spy")
        self.inner = inner
        self.log = []          # accepted events: (event, step, time, occupations after)
        self.init_calls = 0
        self.rate_calls = 0
        self.on_apply = None   # optional monitor callback(event, state)
        self.rate_override = None

    def initialize_state(self, *, simulation_state, event_lib=None, structure=None,
                         config=None, active_site_order=None):
        self.init_calls += 1
        self.log.clear()
        self.inner.initialize_state(
            simulation_state=simulation_state, event_lib=event_lib,
            structure=structure, config=config, active_site_order=active_site_order,
        )

    def apply_event(self, *, event, simulation_state):
        self.inner.apply_event(event=event, simulation_state=simulation_state)
        self.log.append((event, simulation_state.step, simulation_state.time,
                         tuple(int(v) for v in simulation_state.occupations)))
        if self.on_apply is not None:
            self.on_apply(event, simulation_state)

    def compute_probability(self, event, runtime_config, simulation_state):
        self.rate_calls += 1
        if self.rate_override is not None:
            return self.rate_override(event, runtime_config, simulation_state)
        return self.inner.compute_probability(
            event=event, runtime_config=runtime_config, simulation_state=simulation_state
        )

    def as_dict(self):
        return {"@module": "vk.spymodel", "@class": "SpyModel", "inner": self.inner.as_dict()}

    @classmethod
    def from_dict(cls, data):
        inner = data["inner"]
        klass = getattr(importlib.import_module(inner["@module"]), inner["@class"])
        return cls(klass.from_dict(inner))
