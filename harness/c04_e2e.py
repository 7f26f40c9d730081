"""C04: the compiled programs play exactly the signal the schedule describes."""

from __future__ import annotations

from fractions import Fraction as F

import numpy as np

from harness.hw import *
from harness.signal import *
from quantify_scheduler.operations import *
from quantify_scheduler.backends.qblox.operations.pulse_factories import long_ramp_pulse, long_square_pulse, staircase_pulse
from symx.runner import H
from symx.symarr import SymArr
from symx.values import is_sym

FUNCS = [
    "SerialCompiler.compile: every pass for the Qblox backend (timing, scope, quantum-device, flatten/latency/stitching, hardware_compile)",
    "qblox compiler modules: sequencer program assembly, analog strategies, acquisition strategies, qasm_program",
]


def square_seq(ctx, n, durs, rmax, long=None):
    """n square pulses one after another on one output."""
    s = schedule()
    t, exp = 0, []
    for i in range(n):
        r = ctx.int(f"r{i}", 0, rmax) if i else 0
        r = r * 1
        a = ctx.real(f"a{i}", -1, 1)
        d = ctx.choice(f"d{i}", durs) if durs else ctx.int(f"d{i}", *long)
        ctx.assume(ctx.Or(r == 0, r >= 4) if i else True)
        s.add(SquarePulse(a, d * 1e-9, "q0:mw", "q0.01"), rel_time=r * 1e-9)
        t = t + r
        exp.append((t, d, a))
        t = t + d
    s.add(IdlePulse(20e-9))
    c = compile(s, CFG)
    judge(ctx, c, ("module1", "seq0"), exp, t + 20)


def judge(ctx, c, key, exp, total):
    seq = sequencers(c)[key]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
    (o,) = origins(tr)
    ctx.check(tr.end - o == total, "the program takes exactly the schedule duration")
    tau = ctx.int("tau", 0, 200000)
    ctx.assume(tau < total)
    i, q = level(ctx, seq, tr, o + tau)
    want = ctx.exact(0)
    for start, d, a in exp:
        want = want + gate_square(ctx, tau, start, d, a)
    ctx.check(ctx.near(i, want * FS, 1), "output at every ns is the scheduled pulse", lambda: (float(i), float(want)*FS))
    ctx.check(ctx.near(q, 0, 1), "the other quadrature stays silent")
    ctx.cover("silent", tau >= exp[-1][0] + exp[-1][1])



def items(ctx, kinds, reps, rmax, out="q0:mw", key=("module1", "seq0"), gmin=4, fl=False):
    """Pulses of various kinds one after another, at every instant of every repetition."""
    n = ctx.choice("reps", list(reps)) if isinstance(reps, tuple) else reps
    s = schedule(n)
    clk = "q0.01" if out.endswith("mw") else "q0.ro"
    if fl:
        out, clk, key = "q0:fl", "cl0.baseband", ("module1", "seq0")
    t, exp = 0, []
    for i, kind in enumerate(ctx.choice("kinds", kinds)):
        g = ctx.int(f"g{i}", gmin, rmax)
        s.add(IdlePulse(g * 1e-9))
        t = t + g
        E = ctx.exact
        if "ramp" not in kind:
            a = ctx.real(f"a{i}", -0.9, 0.9)
        if kind == "sq":
            d = ctx.choice(f"d{i}", [10, 57])
            s.add(SquarePulse(a, d * 1e-9, out, clk))
            exp.append((t, d, lambda x, a=a: (E(a), E(0))))
        elif kind == "cplx":
            b = ctx.real(f"b{i}", -0.4, 0.4)
            a = ctx.real(f"c{i}", -0.5, 0.5)
            d = ctx.int(f"d{i}", 104, 2000)
            s.add(SquarePulse(ctx.cplx(a, b), d * 1e-9, out, clk))
            exp.append((t, d, lambda x, a=a, b=b: (E(a), E(b))))
        elif kind == "lsq":
            d = ctx.int(f"d{i}", 8, 5000)
            s.add(long_square_pulse(a, d * 1e-9, out, clk))
            exp.append((t, d, lambda x, a=a: (E(a), E(0))))
        elif kind == "stair":
            a2, m = ctx.real(f"e{i}", -0.9, 0.9), ctx.choice(f"m{i}", [3, 2])
            st = ctx.int(f"st{i}", 2, 200) * 4
            d = st * m
            s.add(staircase_pulse(a, a2, m, d * 1e-9, out, clk))
            exp.append((t, d, lambda x, a=a, a2=a2, m=m, st=st: (_stair(ctx, x, a, a2, m, st), E(0))))
        elif kind == "ramp":
            a = ctx.choice(f"b{i}", [0.73, -0.4])
            d = ctx.choice(f"d{i}", [16, 20])
            s.add(RampPulse(a, d * 1e-9, out, clk))
            exp.append((t, d, lambda x, a=a, d=d: (x * (E(a) / d), E(0))))
        elif kind == "lramp":
            a = ctx.choice(f"b{i}", [0.73, -0.4, 0.0])
            d = ctx.choice(f"d{i}", [60, 100])
            o = ctx.choice(f"o{i}", [0, 0.05])
            s.add(long_ramp_pulse(a, d * 1e-9, out, o, clk, part_duration_ns=40))
            exp.append((t, d, lambda x, a=a, d=d, o=o: (E(o) + x * (E(a) / d), E(0))))
        elif kind == "off":
            d = ctx.int(f"d{i}", 4, 5000)
            s.add(VoltageOffset(offset_path_I=a, offset_path_Q=0, port=out, clock=clk))
            s.add(IdlePulse(d * 1e-9))
            s.add(VoltageOffset(offset_path_I=0.0, offset_path_Q=0.0, port=out, clock=clk))
            exp.append((t, d, lambda x, a=a: (E(a), E(0))))
        t = t + d
    s.add(IdlePulse(20e-9))
    total = t + 20
    c = compile(s, CFG)
    seq = sequencers(c)[key]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
    o = origins(tr)
    ctx.check(len(o) == n, "one origin per repetition")
    ctx.check(tr.end - o[-1] == total, "the program takes exactly the schedule duration", lambda: (tr.end, o, total))
    tau = ctx.int("tau", 0, 200000)
    ctx.assume(tau < total)
    r = ctx.choice("rep", list(range(n)))
    i, q = level(ctx, seq, tr, o[r] + tau)
    wi = wq = ctx.exact(0)
    for start, d, f in exp:
        if ctx.branch(tau >= start) and ctx.branch(tau < start + d):
            wi, wq = f(ctx.exact(tau - start))
    ctx.check(ctx.near(i, wi * FS, 3), "output at every ns is the scheduled pulse", lambda: (float(i), float(wi) * FS))
    ctx.check(ctx.near(q, wq * FS, 3), "second quadrature at every ns is as scheduled", lambda: (float(q), float(wq) * FS))
    ctx.cover("silent", tau >= exp[-1][0] + exp[-1][1])
    ctx.cover("pulse", ctx.And(tau >= exp[0][0], tau < exp[0][0] + exp[0][1]))


def shape(t, x, y, amp):
    """Waveform function of the user-defined pulse: amp at first, then x, then y times that."""
    out = np.empty(len(t), dtype=object)
    out[:] = [amp, amp * x, amp * y] + [amp * 0.5] * (len(t) - 3)
    return out.view(SymArr) if any(is_sym(v) for v in out) else out.astype(float)


def custom(ctx, n, dur=16):
    """User-defined pulses whose samples may be as close to each other as they like."""
    s = schedule()
    t, exp = 0, []
    for i in range(n):
        g = ctx.int(f"g{i}", 4, 1000)
        x, y = ctx.real(f"x{i}", -0.9, 0.9), ctx.real(f"y{i}", -0.9, 0.9)
        amp = 0.9 - 0.2 * i
        op = Operation(f"custom{i}")
        op.data["pulse_info"] = [
            dict(
                wf_func="harness.c04_e2e.shape",
                x=x,
                y=y,
                amp=amp,
                t0=0,
                duration=dur * 1e-9,
                clock="q0.01",
                port="q0:mw",
            )
        ]
        op._update()
        s.add(IdlePulse(g * 1e-9))
        s.add(op)
        t = t + g
        exp.append((t, [amp, ctx.exact(x) * F(amp), ctx.exact(y) * F(amp)] + [amp * 0.5] * (dur - 3)))
        t = t + dur
    s.add(IdlePulse(20e-9))
    c = compile(s, CFG)
    seq = sequencers(c)["module1", "seq0"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
    (o,) = origins(tr)
    w = waves(seq)
    plays = tr.of("play")
    ctx.check(len(plays) == n, "every pulse is played")
    for p, (start, want) in zip(plays, exp):
        ctx.check(p.t == o + start, "every pulse starts when scheduled")
        data, g = w[int(p.args[0])], p.par["set_awg_gain"][0]
        ctx.check(len(data) == dur, "every pulse has its length")
        for d, v in zip(data, want):
            ctx.check(
                ctx.near(ctx.exact(d) * ctx.exact(g), ctx.exact(v) * FS, 2), "every sample is as scheduled", lambda: (float(d), g, v)
            )
    ctx.cover("shared", len(w) < n)
    ctx.cover("distinct", len(w) == n)


def _stair(ctx, x, a, a2, m, st):
    a, a2 = ctx.exact(a), ctx.exact(a2)
    for k in range(m - 1):
        if ctx.branch(x < st * (k + 1)):
            return a + (a2 - a) * k / (m - 1)
    return a2


CFG = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module1.real_output_2", "q0:fl"],
            ["c0.module2.complex_output_0", "q0:res"],
            ["c0.module2.complex_input_0", "q0:res"],
        ],
    )
)


def HARNESSES(tier):
    ks = ["sq", "cplx", "lsq", "stair", "ramp", "lramp", "off"]
    b = "gaps 4..20000 ns, amplitudes in [-0.9, 0.9], every instant of every repetition"
    single = [[k] for k in ks]
    pairs = [[a, c] for a in ks for c in ks if (a, c) not in (("sq", "sq"),)]
    return [
        H("short_2", square_seq, FUNCS, "2 pulses of 20 or 40 ns, gaps 0..60000 ns", dict(n=2, durs=[20, 40], rmax=60000), ("silent",)),
        H("long_2", square_seq, FUNCS, "2 pulses of 104..30000 ns, gaps 0..30000 ns", dict(n=2, durs=None, rmax=30000, long=(104, 30000)), ("silent",)),
            H("kinds", items, FUNCS, f"one of sq, cplx, lsq, off; {b}", dict(kinds=[["sq"], ["cplx"], ["lsq"], ["off"]], reps=(1, 2), rmax=20000), ("silent", "pulse")),
        H("stair", items, FUNCS, f"a staircase; {b}", dict(kinds=[["stair"]], reps=1, rmax=20000), ("silent", "pulse")),
        H("ramps", items, FUNCS, f"short and long (stitched) ramps; {b}", dict(kinds=[["ramp"], ["lramp"]], reps=1, rmax=20000), ("silent", "pulse")),
        H("mixed", items, FUNCS, f"pairs of kinds; {b}", dict(kinds=[["lsq", "off"], ["off", "sq"]], reps=1, rmax=20000), ("silent", "pulse")),
        H("real", items, FUNCS, f"a single-path output; {b}", dict(kinds=[["sq"], ["lsq"], ["off"], ["sq", "lsq"]], reps=(1, 2), rmax=20000, fl=True), ("silent", "pulse")),
        H("custom", custom, FUNCS, "two user-defined pulses of 16 samples, two samples each anywhere in [-0.9, 0.9] of the first", dict(n=2), ("shared", "distinct")),
        H("custom3", custom, FUNCS, "three user-defined pulses", dict(n=3), ("shared", "distinct"), thorough_only=True),
        H("pairs", items, FUNCS, f"two of {ks}; {b}", dict(kinds=pairs, reps=1, rmax=20000), ("silent", "pulse"), thorough_only=True),
    ]
