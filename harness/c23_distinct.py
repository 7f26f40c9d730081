"""C23: every operation of a schedule keeps its own parameters, however similar it is to another one."""

from __future__ import annotations

from harness.c22_gates import flat
from harness.hw import *
from quantify_scheduler.operations import *
from quantify_scheduler.operations.gate_library import *
from symx.runner import H

FUNCS = [
    "Schedule.add, Operation.hash, helpers.collections.make_hash",
    "SerialCompiler.compile (device level): every pass",
]
D = 100e-9


def _in(name, wrap):
    """The operation on its own, or inside a loop or schedules named alike."""

    def f(op):
        if wrap == "loop":
            return LoopOperation(op, 2)
        if wrap == "schedule":
            s = Schedule("sub")
            s.add(op, label="only")
            return s
        if wrap == "loop_schedule":
            s = Schedule("sub")
            s.add(op, label="only")
            return LoopOperation(s, 2)
        return op

    return f


KINDS = {
    "amp": (lambda v: SquarePulse(v, D, "q0:mw", "q0.01"), "amp", "wf_func"),
    "duration": (lambda v: SquarePulse(0.1, v * 1e-9, "q0:mw", "q0.01"), "duration", "wf_func"),
    "phase": (lambda v: ShiftClockPhase(v, "q0.01"), "phase_shift", "phase_shift"),
    "freq": (lambda v: SetClockFrequency("q0.01", v), "clock_freq_new", "clock_freq_new"),
    "offset_i": (lambda v: VoltageOffset(v, 0.0, "q0:mw", "q0.01"), "offset_path_I", "offset_path_I"),
    "offset_q": (lambda v: VoltageOffset(0.0, v, "q0:mw", "q0.01"), "offset_path_Q", "offset_path_Q"),
    "ramp": (lambda v: RampPulse(0.1, D, "q0:mw", offset=v, clock="q0.01"), "offset", "wf_func"),
    "gauss": (lambda v: GaussPulse(0.1, v, D, port="q0:mw", clock="q0.01"), "phase", "wf_func"),
    "threshold": (
        lambda v: ThresholdedAcquisition("q0:res", "q0.ro", D, acq_threshold=v, acq_rotation=0.0),
        "acq_threshold",
        "protocol",
    ),
    "rotation": (
        lambda v: ThresholdedAcquisition("q0:res", "q0.ro", D, acq_threshold=0.0, acq_rotation=v),
        "acq_rotation",
        "protocol",
    ),
}


def distinct(ctx, kinds, wraps, n):
    kind, wrap = ctx.choice("kind", kinds), ctx.choice("wrap", wraps)
    make, key, mark = KINDS[kind]
    lo, hi = (4, 60) if kind == "duration" else (-3, 3)
    s = schedule()
    vals = []
    for i in range(n):
        v = ctx.int(f"v{i}", lo, hi) if kind == "duration" else ctx.real(f"v{i}", lo, hi)
        if i == n - 1 and ctx.choice("twice", [False, True]):
            v = vals[0]
        vals.append(v)
        s.add(_in(kind, wrap)(make(v)))
        s.add(IdlePulse(D))
    c = compile(s, CFG)
    got = [p for _, p, _ in flat(c) if p.get(mark) is not None]
    want = [v * 1e-9 if kind == "duration" else v for v in vals]
    if "loop" in str(wrap):
        want = [v for v in want for _ in range(2)]
    ctx.check(len(got) == len(want), "every operation is in the compiled schedule", lambda: (len(got), len(want)))
    for p, v in zip(got, want):
        ctx.check(ctx.near(p[key], v, 1e-15), "every operation keeps its own parameters", lambda: (p[key], v))
    ctx.cover("end")


def structures(ctx, whats, wraps):
    """Two schedules of the same name with the same operations, but played at different times."""
    what, wrap = ctx.choice("what", whats), ctx.choice("wrap", wraps)
    s = schedule()
    want, t = [], ctx.exact(0)
    P = lambda a: SquarePulse(a, D, "q0:mw", "q0.01")
    same = ctx.choice("same", [False, True])
    for i in range(2):
        k = 0 if same else i
        if what != "rel_time" or not i or not same:
            g = ctx.int(f"g{i}", 0, 1000) if what == "rel_time" else 100
        inner = Schedule("inner")
        kw = {}
        start = 1000 + g
        if what == "ref_pt":
            kw, start = [(dict(ref_pt="start"), g), (dict(ref_pt="center"), 500 + g)][k]
        elif what == "ref_pt_new":
            kw, start = [(dict(ref_pt_new="start"), start), (dict(ref_pt_new="end"), start - 100)][k]
        elif what == "ref_op":
            kw, start = [(dict(ref_op="a"), start), (dict(ref_op="b"), 1100 + g)][k]
        inner.add(IdlePulse(1e-6), label="a")
        x, y = (0.5, 0.25) if what == "order" and k else (0.25, 0.5)
        ev = [(x, 1000), (y, start)]
        inner.add(P(x), label="b", ref_op="a")
        inner.add(P(y), label="c", **{"ref_op": "a", "rel_time": g * 1e-9, **kw})
        n = 2 + k if what == "repetitions" else 2
        loop = "loop" in wrap or what == "repetitions"
        deep = Schedule("middle")
        deep.add(inner, label="only")
        body = deep if "deep" in wrap else inner
        s.add(LoopOperation(body, n) if loop else body)
        end = max(1100, start + 100) if what != "rel_time" else 1100 + g
        for _ in range(n if loop else 1):
            want += [(v, t + ctx.exact(u)) for v, u in ev]
            t = t + ctx.exact(end)
    s.add(P(0.125))
    want.append((0.125, t))
    c = compile(s, CFG)
    got = [(p["amp"], ctx.exact(u) * 10**9) for u, p, _ in flat(c) if p.get("wf_func") is not None]
    ctx.check(len(got) == len(want), "every schedule plays its own operations", lambda: (got, want))
    for a, b in zip(got, want):
        ctx.check(a[0] == b[0], "every schedule plays its own operations", lambda: (got, want))
        ctx.check(ctx.near(a[1], b[1], 1e-3), "every schedule keeps its own timing", lambda: (a, b))
    ctx.cover("end")


CFG = SerialCompilationConfig(
    name="cfg",
    hardware_compilation_config=None,
    device_compilation_config=DeviceCompilationConfig(clocks={}, elements={}, edges={}),
)


def HARNESSES(tier):
    ks = list(KINDS)
    WHATS = ["rel_time", "ref_pt", "ref_pt_new", "ref_op", "order", "repetitions"]
    o = {"hash": "py"}
    b = "two values in [-3, 3] (durations 4..60 ns), the last maybe equal to the first"
    return [
        H("alone", distinct, FUNCS, f"{ks}: {b}", dict(kinds=ks, wraps=[None], n=2), ("end",), opts=o),
        H("inside", distinct, FUNCS, f"inside loops and schedules of the same name, {ks[:3]}: {b}", dict(kinds=ks[:3], wraps=["loop", "schedule", "loop_schedule"], n=2), ("end",), opts=o),
        H("structures", structures, FUNCS, f"two schedules named alike with the same operations, which differ only in {WHATS} (any number of ns up to 1000) or not at all, on their own, in a loop, in another schedule or both", dict(whats=WHATS, wraps=["", "loop", "deep", "loop_deep"]), ("end",), opts=o),
        H("three", distinct, FUNCS, f"three values: {b}", dict(kinds=ks[:5], wraps=[None, "loop"], n=3), ("end",), thorough_only=True, opts=o),
    ]
