"""C17: what a schedule compiles to depends on nothing that was compiled before, and compiling alters nothing."""

from __future__ import annotations

import enum
import re
from fractions import Fraction as F

import numpy as np

from harness.hw import *
from quantify_scheduler.enums import BinMode
from quantify_scheduler.backends.qblox.operations.pulse_factories import long_square_pulse
from harness.c22_gates import Device, flat
from quantify_scheduler.operations.gate_library import *
from quantify_scheduler.operations import *
from symx.runner import H
from symx.values import is_sym

FUNCS = [
    "SerialCompiler.compile (all passes, latency/latched/shared state of hardware options and of the schedule)",
    "QbloxHardwareOptions, port-clock paths, LO/IF assignment, external local oscillators",
]
IDLIKE = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f-]{22}|^-?\d{15,}$")


def freeze(x, seen=()):
    """A structural copy of anything the compiler handles; random identifiers become their position."""
    if isinstance(x, enum.Enum) and isinstance(x, (str, int)):
        x = x.value  # equal to the plain value
    if isinstance(x, enum.Enum):
        return ("enum", str(x))
    if x is None or isinstance(x, (bool, int, float, complex, F)) or is_sym(x):
        return x
    if isinstance(x, str):
        return "id" if IDLIKE.search(x) else x
    if callable(x) and hasattr(x, "__name__"):
        return ("fn", x.__name__)
    if id(x) in seen:
        return "cycle"
    seen = (*seen, id(x))
    if isinstance(x, np.ndarray):
        return ("array", [freeze(v, seen) for v in x.tolist()])
    if isinstance(x, dict) or hasattr(x, "items"):
        out = []
        for k, v in x.items():
            out.append((freeze(k, seen), freeze(v, seen)))
        return ("dict", out)
    if isinstance(x, (list, tuple)):
        return [freeze(v, seen) for v in x]
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(str(v) for v in x))
    if hasattr(x, "data") and hasattr(x, "keys"):
        return (type(x).__name__, freeze(x.data, seen))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, freeze({k: v for k, v in vars(x).items() if not k.startswith("_")}, seen))
    return str(type(x))


def conj(ctx, a, b, out, path=""):
    """Collect the equalities that make a and b the same; returns the first structural difference."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return path, a, b
        if len(a) == 2 and a[0] == "dict" and b[0] == "dict":
            ka = {str(k): v for k, v in a[1]}
            kb = {str(k): v for k, v in b[1]}
            if len(ka) == len(a[1]) and len(kb) == len(b[1]) and "id" not in ka and ka.keys() != kb.keys():
                return f"{path} keys", sorted(set(ka) ^ set(kb)), ""
            if len(ka) == len(a[1]) and len(kb) == len(b[1]) and "id" not in ka:
                for k in ka:
                    r = conj(ctx, ka[k], kb[k], out, f"{path}.{k}")
                    if r:
                        return r
                return None
        for i, (u, v) in enumerate(zip(a, b)):
            r = conj(ctx, u, v, out, f"{path}[{i}]")
            if r:
                return r
        return None
    if a is b:
        return None
    num = (bool, int, float, complex, F)
    if (is_sym(a) or isinstance(a, num)) and (is_sym(b) or isinstance(b, num)):
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return None
        out.append(a == b)
        return None
    return None if a == b else (path, a, b)


def same(ctx, a, b, label):
    eqs = []
    diff = conj(ctx, a, b, eqs)
    ctx.check(diff is None, label, lambda: str(diff)[:600])
    if eqs:
        ctx.check(ctx.And(*eqs), label, lambda: [(x, y) for x, y in zip(flatten(a), flatten(b))][:40])


def flatten(x):
    return [v for u in x for v in flatten(u)] if isinstance(x, (list, tuple)) else [x]


def result(ctx, compiled):
    """Everything the instruments get: settings, programs as executed timelines, memories, other instruments."""
    out = {"repetitions": compiled.repetitions}
    for name, ins in compiled.compiled_instructions.items():
        if not (isinstance(ins, dict) and any("module" in str(k) for k in ins)):
            out[name] = freeze(ins)
            continue
        for m, v in ins.items():
            if not (isinstance(v, dict) and "sequencers" in v):
                out[name, m] = freeze(v)
                continue
            out[name, m] = freeze({k: w for k, w in v.items() if k != "sequencers"})
            for q, s in v["sequencers"].items():
                st = vars(s)
                seq = st["sequence"]
                tr = q1asm.run(ctx, seq["program"], lambda t, m: {i: True for i in range(1, 16)})
                out[name, m, q] = freeze(
                    {
                        "settings": {k: w for k, w in st.items() if k != "sequence"},
                        "memory": {
                            k: sorted([(d["index"], d.get("data", d.get("num_bins"))) for d in (seq.get(k) or {}).values()], key=lambda z: z[0])
                            for k in ("waveforms", "weights", "acquisitions")
                        },
                        "timeline": [(e.t, e.kind, e.args, dict(e.par)) for e in tr.events],
                        "end": tr.end,
                    }
                )
    return freeze(out)


# ------------------------------------------------------------------ the programs
def _std(ctx):
    d = hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module1.complex_output_1", "q1:mw"],
            ["c0.module2.complex_output_0", "q0:res"],
            ["c0.module2.complex_input_0", "q0:res"],
        ],
        {
            "latency_corrections": {"q0:mw-q0.01": 0.0, "q1:mw-q1.01": 4e-9},
            "mixer_corrections": {"q0:mw-q0.01": {"dc_offset_i": 0.0}},
            "input_gain": {"q0:res-q0.ro": {"gain_I": 0, "gain_Q": 0}},
            "modulation_frequencies": {"q1:mw-q1.01": {"interm_freq": 50e6}},
        },
    )
    lat = ctx.int("lat", 5, 200)
    dc = ctx.real("dc", -1, 1)

    def tweak(hw):
        hw.hardware_options.latency_corrections["q0:mw-q0.01"] = lat * 1e-9
        hw.hardware_options.mixer_corrections["q0:mw-q0.01"].__dict__["dc_offset_i"] = dc

    return d, tweak


def _rf(ctx):
    d = hw_dict(
        {"1": {"instrument_type": "QCM_RF"}, "2": {"instrument_type": "QRM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module1.complex_output_1", "q1:mw"],
            ["c0.module2.complex_output_0", "iq0.if"],
            ["c0.module2.complex_input_0", "iq0.if"],
            ["lo0.output", "iq0.lo"],
            ["iq0.rf", "q0:res"],
        ],
        {
            "modulation_frequencies": {
                "q0:mw-q0.01": {"interm_freq": 1e8},
                "q1:mw-q1.01": {"lo_freq": 5e9},
                "q0:res-q0.ro": {"interm_freq": 1e8},
            },
            "output_att": {"q0:mw-q0.01": 2},
        },
        instruments={"lo0": {"instrument_type": "LocalOscillator", "power": 1}, "iq0": {"instrument_type": "IQMixer"}},
    )
    f = ctx.real("if", 1e6, 4e8)
    g = ctx.real("ifro", 1e6, 4e8)
    att = ctx.int("att", 0, 60)

    def tweak(hw):
        m = hw.hardware_options.modulation_frequencies
        m["q0:mw-q0.01"].__dict__["interm_freq"] = f
        m["q0:res-q0.ro"].__dict__["interm_freq"] = g
        hw.hardware_options.output_att["q0:mw-q0.01"] = att

    return d, tweak


CLK = {"std": {"q0.01": 5e7, "q1.01": 5e7, "q0.ro": 9e7}, "rf": {"q0.01": 6e9, "q1.01": 5.1e9, "q0.ro": 7e9}}


class P:
    """A program, built afresh at every call from the same symbolic values."""

    def __init__(self, ctx, tag, what, setup):
        self.what, self.setup, self.tag = what, setup, tag
        self.freq = ctx.real(f"{tag}f", 0, 2e8)
        self.g = [20, ctx.int(f"{tag}g1", 8, 400), 36]
        self.a = [ctx.real(f"{tag}a{i}", F(1, 10), 1) for i in range(2)]

    def __call__(self):
        s = Schedule("s", repetitions=2)
        clk = CLK[self.setup]
        for c, f in clk.items():
            s.add_resource(ClockResource(c, f + self.freq if c == "q0.01" else f))
        g = [x * 1e-9 for x in self.g]
        s.add(IdlePulse(g[0]))
        w = self.what
        if w == "flat":
            s.add(SquarePulse(self.a[0], 40e-9, "q0:mw", "q0.01"))
            s.add(SquarePulse(self.a[1], 40e-9, "q1:mw", "q1.01"), rel_time=g[1])
            s.add(ShiftClockPhase(30, "q0.01"))
            s.add(SquarePulse(0.3, 40e-9, "q0:mw", "q0.01"), rel_time=g[2])
            s.add(SSBIntegrationComplex("q0:res", "q0.ro", duration=200e-9))
        elif w == "loop":
            b = Schedule("b")
            b.add(SquarePulse(self.a[0], 40e-9, "q0:mw", "q0.01"))
            b.add(IdlePulse(g[1]))
            b.add(VoltageOffset(self.a[1], 0.0, "q0:mw", "q0.01"))
            b.add(IdlePulse(g[2]))
            b.add(VoltageOffset(0.0, 0.0, "q0:mw", "q0.01"))
            b.add(IdlePulse(g[0]))
            s.add(LoopOperation(b, 2))
        elif w == "freq":
            s.add(SetClockFrequency("q0.01", clock_freq_new=clk["q0.01"] + self.freq + 1e6))
            s.add(SquarePulse(self.a[0], 40e-9, "q0:mw", "q0.01"), rel_time=g[1])
            s.add(Trace(400e-9, "q0:res", "q0.ro"), rel_time=g[2])
        elif w == "cond":
            s.add(ThresholdedAcquisition("q0:res", "q0.ro", 200e-9, feedback_trigger_label="q0", acq_threshold=self.a[0], acq_rotation=0.0))
            b = Schedule("b")
            b.add(SquarePulse(self.a[1], 40e-9, "q0:mw", "q0.01"))
            s.add(ConditionalOperation(b, "q0"), rel_time=g[1] + 400e-9)
            s.add(SquarePulse(self.a[0], 40e-9, "q1:mw", "q1.01"), rel_time=g[2])
        elif w == "long":
            s.add(SquarePulse(self.a[0], 3e-6, "q0:mw", "q0.01"))
            s.add(long_square_pulse(self.a[1], 4e-6, "q1:mw", clock="q1.01"), rel_time=g[1])
            s.add(SSBIntegrationComplex("q0:res", "q0.ro", duration=1e-6, acq_channel="c"), rel_time=g[2])
        elif w == "ro":
            s.add(SquarePulse(self.a[1], 80e-9, "q0:res", "q0.ro"))
            s.add(NumericalSeparatedWeightedIntegration(
                "q0:res", "q0.ro", weights_a=[0.5, 1, 0.25, 0.5] * 25, weights_b=[0.5, -1, 0.75, 0.5] * 25, bin_mode=BinMode.APPEND), ref_pt="start", rel_time=g[1])
        s.add(IdlePulse(100e-9))
        return s


SETUP = {"std": _std, "rf": _rf}


def history(ctx, setup, whats, others, how):
    """The program compiled on its own; after / around another one; twice; each with the same configuration."""
    d, tweak = SETUP[setup](ctx)
    p = P(ctx, "p", ctx.choice("what", whats), setup)
    h = ctx.choice("how", how)
    o = P(ctx, "o", "loop" if h == "inside" else ctx.choice("other", others), setup)
    # LO frequencies have to be realisable for both programs: those that are not raise alone as well
    alone = compile(p(), config(d, tweak=tweak))
    want = result(ctx, alone)
    cfg = config(d, tweak=tweak)
    if h == "twice":  # the same schedule object again
        s = p()
        before = freeze(s)
        first = compile(s, cfg)
        same(ctx, freeze(s), before, "compiling leaves the schedule as it was")
        again = compile(s, cfg)
        same(ctx, result(ctx, again), want, "compiling a schedule again gives the same programs")
        same(ctx, result(ctx, first), want, "an earlier result is not altered by compiling again")
    elif h == "after":
        first = compile(o(), cfg)
        was = result(ctx, first)
        got = compile(p(), cfg)
        same(ctx, result(ctx, got), want, "what was compiled before makes no difference")
        same(ctx, result(ctx, first), was, "an earlier result is not altered by compiling another schedule")
    elif h == "inside":  # the same schedule object is first part of another program
        s = p()
        before = freeze(s)
        o.freq = p.freq
        outer = o()
        outer.add(s)
        outer.add(IdlePulse(100e-9))
        compile(outer, cfg)
        same(ctx, freeze(s), before, "compiling leaves a sub-schedule as it was")
        got = compile(s, cfg)
        same(ctx, result(ctx, got), want, "a schedule compiled as part of another one can be compiled on its own")
    ctx.cover("end")


def numerical(c):
    ops = [(t, {k: v for k, v in p.items() if k not in ("acq_index",)}, kind) for t, p, kind in flat(c)]
    clocks = {k: v["freq"] for k, v in c.resources.items() if "freq" in v}
    return freeze((ops, clocks))


def circuit(what, theta, amp, freq):
    s = Schedule("s", repetitions=3)
    if what == "xy":
        s.add(X90("q0"))
        s.add(Rxy(theta, 30, "q1"))
    elif what == "rz":
        s.add(Rz(theta, "q0"))
        s.add(Y90("q0"))
    elif what == "cz":
        s.add(CZ("q0", "q1"))
        s.add(X90("q0"))
    elif what == "measure":
        s.add(Reset("q0"))
        s.add(Measure("q0"))
    else:  # overrides
        s.add(Rxy(theta, 0, "q0", amp180=amp))
        s.add(Measure("q0", pulse_amp=amp, freq=freq))
    return s


def gates(ctx, whats):
    """Circuit-level schedules compiled with one device configuration, one after another."""
    dev = Device(ctx, ro=True, cz=True)
    theta, amp, freq = ctx.real("theta", -90, 90), ctx.real("over", F(1, 10), 1), ctx.real("ofreq", 1e8, 2e8)

    def mk(what):
        return circuit(what, theta, amp, freq)

    first, second = ctx.choice("first", whats), ctx.choice("second", whats)
    cfg = dev.config()
    frozen = freeze(cfg.device_compilation_config)

    res = numerical
    want = res(SerialCompiler("c").compile(mk(second), cfg))
    s1 = mk(first)
    before = freeze(s1)
    r1 = SerialCompiler("c").compile(s1, cfg)
    same(ctx, freeze(s1), before, "compiling leaves the circuit as it was")
    was1 = res(r1)
    r2 = SerialCompiler("c").compile(mk(second), cfg)
    same(ctx, res(r2), want, "what was compiled before makes no difference")
    same(ctx, res(r1), was1, "an earlier result is not altered by compiling another schedule")
    same(ctx, freeze(cfg.device_compilation_config), frozen, "the device configuration stays as it was")
    ctx.cover("end")


def HARNESSES(tier):
    W = ["flat", "loop", "freq", "cond", "long", "ro"]
    b = "gaps 8..2000 ns, amplitudes, clock and intermediate frequencies, latency correction, attenuation, mixer offset"
    return [
        H("std", history, FUNCS, f"basebands, {W} after {W[:4]}: {b}", dict(setup="std", whats=W[:3], others=["flat", "cond"], how=["twice", "after", "inside"]), ("end",)),
        H("std_read", history, FUNCS, f"basebands, {W} after {W[:4]}: {b}", dict(setup="std", whats=W[3:], others=["flat", "cond"], how=["twice", "after", "inside"]), ("end",)),
        H("gates", gates, FUNCS, "rotations, CZ, measurements, resets and overridden gates with one device configuration, all pairs", dict(whats=["xy", "rz", "cz", "measure", "over"]), ("end",)),
        H("rf", history, FUNCS, f"RF module and external LO with mixer: {b}", dict(setup="rf", whats=["flat", "freq"], others=["flat", "loop"], how=["twice", "after", "inside"]), ("end",)),
        H("std_all", history, FUNCS, f"all pairs: {b}", dict(setup="std", whats=W, others=W, how=["after", "inside"]), ("end",), thorough_only=True),
    ]
