"""Shared builders: hardware configurations and end-to-end compilation through the real compiler."""

from __future__ import annotations

import copy

from quantify_scheduler import Schedule
import quantify_scheduler.backends.circuit_to_device  # noqa: F401  (passes that are otherwise imported on first use)
import quantify_scheduler.backends.qblox.crosstalk_compensation  # noqa: F401
import quantify_scheduler.backends.qblox.stack_pulses  # noqa: F401
import quantify_scheduler.pulse_compensation  # noqa: F401
from quantify_scheduler.backends.graph_compilation import (
    DeviceCompilationConfig,
    SerialCompilationConfig,
    SerialCompiler,
)
from quantify_scheduler.backends.qblox_backend import QbloxHardwareCompilationConfig
from quantify_scheduler.enums import SchedulingStrategy
from quantify_scheduler.resources import ClockResource
from symx import q1asm

FREQ = 50e6


def hw_dict(modules, graph, options=None, **kw):
    return {
        "config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
        "version": "0.2",
        "hardware_description": {
            "c0": {"instrument_type": "Cluster", "ref": "internal", "modules": modules},
            **kw.pop("instruments", {}),
        },
        "hardware_options": options or {},
        "connectivity": {"graph": graph},
        **kw,
    }


def config(d, device=None, strategy=SchedulingStrategy.ASAP, tweak=None):
    """A full compilation config; ``tweak(hw)`` may put symbolic values into the parsed model."""
    hw = QbloxHardwareCompilationConfig.model_validate(copy.deepcopy(d))
    if tweak:
        tweak(hw)
    dev = device or DeviceCompilationConfig(clocks={}, elements={}, edges={}, scheduling_strategy=strategy)
    return SerialCompilationConfig(
        name="cfg", hardware_compilation_config=hw, device_compilation_config=dev, debug_mode=False
    )


def compile(schedule, cfg):
    return SerialCompiler("compiler").compile(schedule, cfg)


def sequencers(compiled, cluster="c0"):
    """{(module, seq): settings} of every compiled sequencer."""
    out = {}
    for m, v in compiled.compiled_instructions[cluster].items():
        if isinstance(v, dict) and "sequencers" in v:
            for q, s in v["sequencers"].items():
                out[m.removeprefix(cluster + "_"), q] = s
    return out


def programs(ctx, compiled, cluster="c0"):
    return {k: q1asm.Program(ctx, s.sequence["program"]) for k, s in sequencers(compiled, cluster).items()}


def traces(ctx, compiled, triggers=None, cluster="c0", **kw):
    return {k: q1asm.run(ctx, p, triggers, **kw) for k, p in programs(ctx, compiled, cluster).items()}


# one QCM + one QRM, two complex outputs, one readout line, basebands only
STD = hw_dict(
    {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"}},
    [
        ["c0.module1.complex_output_0", "q0:mw"],
        ["c0.module1.complex_output_1", "q1:mw"],
        ["c0.module2.complex_output_0", "q0:res"],
        ["c0.module2.complex_input_0", "q0:res"],
    ],
)


def schedule(repetitions=1, clocks=("q0.01", "q1.01", "q0.ro")):
    s = Schedule("s", repetitions=repetitions)
    for c in clocks:
        s.add_resource(ClockResource(c, FREQ))
    return s
