"""C18: with crosstalk compensation every port receives what the schedule asks for."""

from __future__ import annotations

from fractions import Fraction as F

import numpy as np

from harness.hw import *
from harness.signal import *
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "backends.qblox.crosstalk_compensation.crosstalk_compensation",
    "SerialCompiler.compile: every pass for the Qblox backend",
]
PORTS = ["q0:fl", "q1:fl", "q2:fl"]
CLK = "cl0.baseband"
PC = [f"{p}-{CLK}" for p in PORTS]
MATRIX = {
    "two": {PC[0]: {PC[1]: 0.25}, PC[1]: {PC[0]: 0.125}},
    "oneway": {PC[0]: {PC[1]: -0.25}},
    "three": {PC[0]: {PC[1]: 0.2, PC[2]: -0.1}, PC[1]: {PC[2]: 0.05}, PC[2]: {PC[0]: 0.15}},
}


def matrix(m):
    out = [[F(int(i == j)) for j in range(3)] for i in range(3)]
    for a, row in MATRIX[m].items():
        for b, v in row.items():
            out[PC.index(a)][PC.index(b)] = F(v)
    return out


def received(ctx, layouts, matrices, wraps, kinds=("s",)):
    """Pulses (port, boundary, boundary) one after another or overlapping; what arrives at every port at any time."""
    m = ctx.choice("matrix", matrices)
    pulses, w, kind = ctx.choice("layout", layouts), ctx.choice("wrap", wraps), ctx.choice("kind", list(kinds))
    d = hw_dict(
        {"1": {"instrument_type": "QCM"}},
        [[f"c0.module1.real_output_{i}", p] for i, p in enumerate(PORTS)],
        {"crosstalk": MATRIX[m]},
    )
    nb = max(x[2] for x in pulses)
    at = [0]
    alias = {a: pulses[same[0]][1] for _, a, _, *same in pulses if same}
    for i in range(nb):
        at.append(at[alias[i] + 1] - at[alias[i]] + at[-1] if i in alias else at[-1] + (ctx.int(f"g{i}", 104, 2000) if kind == "s" else 40))
    s = Schedule("s")
    body = Schedule("body") if w in ("schedule", "loop") else s
    ref = body.add(IdlePulse(20e-9))
    exp, amps, made = [], {}, {}
    for i, (p, a, b, *same) in enumerate(pulses):
        dur = at[b] - at[a]
        j = same[0] if same else i  # this pulse is equal to an earlier one
        if j not in amps:
            amps[j] = ctx.real(f"a{i}", F(1, 20), F(3, 10))
        v = amps[j]
        if kind == "s":
            op = SquarePulse(v, dur * 1e-9, PORTS[p], CLK)
            exp.append((p, at[a], dur, lambda x, v=v: ctx.exact(v)))
        elif kind == "n":
            sm = [0.25, 0.125] * (dur // 2)
            op = NumericalPulse(sm + [0.0], [k * 1e-9 for k in range(dur + 1)], PORTS[p], CLK)
            exp.append((p, at[a], dur, lambda x: _alt(ctx, x)))
        else:
            op = RampPulse(0.25, dur * 1e-9, PORTS[p], offset=0.125, clock=CLK)
            exp.append((p, at[a], dur, lambda x, dur=dur: F(1, 8) + x * F(1, 4) / dur))
        if same and ctx.choice(f"object{i}", [False, True]):
            op = made[j]
        made.setdefault(i, op)
        body.add(LoopOperation(op, 1) if w == "bare" else op, ref_op=ref, ref_pt="end", rel_time=at[a] * 1e-9)
    body.add(IdlePulse((at[-1] + 20) * 1e-9), ref_op=ref, ref_pt="end")
    n = 1
    if w == "schedule":
        s.add(body)
    elif w == "loop":
        n = 2
        s.add(LoopOperation(body, 2))
    total = at[-1] + 40
    c = compile(s, config(d))
    seqs = {st.connected_output_indices: st for st in sequencers(c).values()}
    tau = ctx.int("tau", 0, 20000)
    ctx.assume(tau < total)
    it = ctx.choice("iteration", list(range(n)))
    out = []
    for k in range(3):
        seq = seqs.get((k,))
        if seq is None:
            out.append(ctx.exact(0))
            continue
        tr = q1asm.run(ctx, seq.sequence["program"])
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        (o,) = origins(tr)
        ctx.check(tr.end - o == total * n, "the program takes exactly the schedule duration", lambda: (tr.end - o, total * n))
        out.append(level(ctx, seq, tr, o + it * total + tau)[0])
    M = matrix(m)
    want = [ctx.exact(0)] * 3
    for p, start, dur, f in exp:
        x = tau - 20 - start
        if ctx.branch(x >= 0) and ctx.branch(x < dur):
            want[p] = want[p] + f(ctx.exact(x))
    for j in range(3):
        got = sum((out[i] * M[i][j] for i in range(3)), ctx.exact(0))
        ctx.check(ctx.near(got, want[j] * FS, 5), "every port receives what was asked for", lambda: (j, [float(o) for o in out], float(got), float(want[j]) * FS))
    ctx.cover("silent", tau < 20)
    ctx.cover("pulse", tau >= 20 + exp[-1][1])


def received_complex(ctx, kinds):
    """Complex crosstalk between two complex outputs: both quadratures of what arrives at every port."""
    kind = ctx.choice("kind", kinds)
    ct = {PC[0]: {PC[1]: 0.25 + 0.125j}, PC[1]: {PC[0]: -0.0625j}}
    d = hw_dict(
        {"1": {"instrument_type": "QCM"}},
        [[f"c0.module1.complex_output_{i}", p] for i, p in enumerate(PORTS[:2])],
        {"crosstalk": ct},
    )
    s = Schedule("s")
    s.add(IdlePulse(20e-9))
    t, exp = 20, []
    for i in (0, 1):
        v = ctx.real(f"a{i}", F(1, 20), F(3, 10))
        dur = ctx.int(f"d{i}", 104, 2000) if kind == "long" else 40
        g = ctx.int(f"g{i}", 8, 2000)
        s.add(SquarePulse(v, dur * 1e-9, PORTS[i], CLK))
        s.add(IdlePulse(g * 1e-9))
        exp.append((i, t, dur, v))
        t = t + dur + g
    c = compile(s, config(d))
    tau = ctx.int("tau", 0, 20000)
    ctx.assume(tau < t)
    seqs = {st.connected_output_indices: st for st in sequencers(c).values()}
    ctx.check(sorted(seqs) == [(0, 1), (2, 3)], "every coupled port is compensated", lambda: list(seqs))
    out = []
    for key in sorted(seqs):
        tr = q1asm.run(ctx, seqs[key].sequence["program"])
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        (o,) = origins(tr)
        ctx.check(tr.end - o == t, "the program takes exactly the schedule duration", lambda: (tr.end - o, t))
        out.append(level(ctx, seqs[key], tr, o + tau))
    M = [[(F(1), F(0)), (F(1, 4), F(1, 8))], [(F(0), -F(1, 16)), (F(1), F(0))]]
    want = [ctx.exact(0)] * 2
    for p, start, dur, v in exp:
        if ctx.branch(tau >= start) and ctx.branch(tau < start + dur):
            want[p] = want[p] + ctx.exact(v)
    for j in (0, 1):
        re = sum((out[i][0] * M[i][j][0] - out[i][1] * M[i][j][1] for i in (0, 1)), ctx.exact(0))
        im = sum((out[i][0] * M[i][j][1] + out[i][1] * M[i][j][0] for i in (0, 1)), ctx.exact(0))
        ctx.check(
            ctx.And(ctx.near(re, want[j] * FS, 5), ctx.near(im, 0, 5)),
            "every port receives what was asked for",
            lambda: (j, float(re), float(im), float(want[j]) * FS),
        )
    ctx.cover("silent", tau < 20)
    ctx.cover("pulse", ctx.And(tau >= 20, tau < 20 + exp[0][2]))


def _alt(ctx, x):
    return F(1, 4) if ctx.branch(x % 2 == 0) else F(1, 8)


ONE = [[(0, 0, 1)], [(1, 0, 1)]]
SEVERAL = [[(0, 0, 1), (1, 1, 2)], [(0, 0, 1), (0, 2, 3, 0)], [(0, 0, 2), (1, 1, 3)], [(0, 0, 1), (1, 0, 1)]]


def HARNESSES(tier):
    b = "amplitudes in [0.05, 0.3], pulses and gaps of 104..2000 ns, every instant on every port"
    return [
        H("one", received, FUNCS, f"one square pulse; {b}", dict(layouts=ONE, matrices=["two", "oneway"], wraps=[None]), ("silent", "pulse")),
        H("several", received, FUNCS, f"two square pulses, one after another, equal or overlapping; {b}", dict(layouts=SEVERAL, matrices=["two"], wraps=[None]), ("silent", "pulse")),
        H("inside", received, FUNCS, f"in a sub-schedule or loop; {b}", dict(layouts=ONE[:1] + SEVERAL[:2], matrices=["two"], wraps=["schedule", "loop", "bare"]), ("silent", "pulse")),
        H("bystander", received, FUNCS, f"a port without crosstalk; {b}", dict(layouts=[[(0, 0, 1), (2, 1, 2)]], matrices=["two", "oneway"], wraps=[None]), ("silent", "pulse")),
        H("shapes", received, FUNCS, "a ramp with offset and a numerical pulse, every instant", dict(layouts=ONE[:1], matrices=["two"], wraps=[None], kinds=("r", "n")), ("silent", "pulse")),
        H("complex", received_complex, FUNCS, "complex crosstalk of two complex outputs, long and short square pulses; " + b, dict(kinds=["long", "short"]), ("silent", "pulse")),
        H("three", received, FUNCS, f"three coupled ports; {b}", dict(layouts=ONE + SEVERAL, matrices=["three"], wraps=[None]), ("silent", "pulse"), thorough_only=True),
    ]
