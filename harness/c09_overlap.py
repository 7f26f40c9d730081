"""C09: pulses that overlap on one port and clock add up."""

from __future__ import annotations

from fractions import Fraction as F

from harness.c04_e2e import shape  # noqa: F401 (referred to by name)
from harness.hw import *
from harness.signal import *
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "backends.qblox.stack_pulses.stack_pulses",
    "SerialCompiler.compile: every pass for the Qblox backend",
]


def custom(i, x, y, amp, dur, t0=0):
    op = Operation(f"custom{i}")
    op.data["pulse_info"] = [
        dict(wf_func="harness.c04_e2e.shape", x=x, y=y, amp=amp, t0=t0, duration=dur * 1e-9, clock="q0.01", port="q0:mw")
    ]
    op._update()
    return op


def overlap(ctx, layouts, kinds, short, wrap=(None,), amin=None, t0s=(0,)):
    """Pulses (kind, first boundary, last boundary); the boundaries are any times apart."""
    pulses, kind = ctx.choice("layout", layouts), ctx.choice("kinds", kinds)
    w = ctx.choice("wrap", list(wrap))
    t0 = ctx.choice("t0", list(t0s))  # of the first pulse
    nb = max(b for _, b in pulses)
    at = [0]
    for i in range(nb):
        g = ctx.choice(f"g{i}", short) if short else ctx.int(f"g{i}", 104, 3000)
        at.append(at[-1] + g)
    s = schedule()
    body = Schedule("body") if w else s
    ref = body.add(IdlePulse(20e-9))
    exp = []
    amax = F(9, 10 * len(pulses))
    for i, ((a, b), k) in enumerate(zip(pulses, kind)):
        d = at[b] - at[a]
        early = t0 if i == 0 else 0
        kw = dict(t0=early * 1e-9) if early else {}
        if k == "s":
            v = 0.25 if "c" in kind else ctx.real(f"a{i}", -amax if amin is None else amin, amax)
            op = SquarePulse(v, d * 1e-9, "q0:mw", "q0.01", **kw)
            exp.append((at[a], d, lambda x, v=v: ctx.exact(v)))
        elif k == "r":
            v = [F(1, 4), F(-1, 4), F(1, 8)][i]
            op = RampPulse(float(v), d * 1e-9, "q0:mw", "q0.01", **kw)
            exp.append((at[a], d, lambda x, v=v, d=d: x * ctx.exact(v) / d))
        else:
            x, y, m = ctx.real(f"x{i}", -0.9, 0.9) if i else -0.75, 0.25, float(amax)
            op = custom(i, x, y, m, d, **kw)
            exp.append((at[a], d, lambda k, x=x, y=y, m=m: _pick(ctx, k, x, y, m)))
        body.add(op, ref_op=ref, ref_pt="end", ref_pt_new="start", rel_time=(at[a] - early) * 1e-9)
    end = body.add(IdlePulse((at[-1] + 20) * 1e-9), ref_op=ref, ref_pt="end")
    n = 1
    if w == "schedule":
        s.add(body)
    elif w == "loop":
        n = 2
        s.add(LoopOperation(body, n))
    total = (20 + at[-1] + 20)
    c = compile(s, CFG)
    seq = sequencers(c)["module1", "seq0"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
    (o,) = origins(tr)
    ctx.check(tr.end - o == total * n, "the program takes exactly the schedule duration", lambda: (tr.end - o, total * n))
    tau = ctx.int("tau", 0, 20000)
    ctx.assume(tau < total)
    it = ctx.choice("iteration", list(range(n)))
    i, q = level(ctx, seq, tr, o + it * total + tau)
    want = ctx.exact(0)
    for start, d, f in exp:
        x = tau - 20 - start
        if ctx.branch(x >= 0) and ctx.branch(x < d):
            want = want + f(ctx.exact(x))
    ctx.check(ctx.near(i, want * FS, 4), "the output is the sum of the pulses", lambda: (float(i), float(want) * FS))
    ctx.check(ctx.near(q, 0, 1), "the other quadrature stays silent")
    ctx.cover("silent", tau < 20)
    ctx.cover("all", tau >= 20 + max(a for a, _, _ in exp))


def _pick(ctx, k, x, y, m):
    e = ctx.exact
    for i, v in enumerate((e(F(m)), e(x) * F(m), e(y) * F(m))):
        if ctx.branch(k == i):
            return v
    return e(F(m)) / 2


def across(ctx, wraps):
    """A pulse overlaps with one inside a sub-schedule or loop that starts meanwhile."""
    w = ctx.choice("wrap", wraps)
    g, d = ctx.int("g", 104, 500), ctx.int("d", 104, 500)
    a, v = ctx.real("a", F(1, 20), F(2, 5)), ctx.real("b", F(1, 20), F(2, 5))
    s = schedule()
    ref = s.add(IdlePulse(20e-9))
    s.add(SquarePulse(a, 1200e-9, "q0:mw", "q0.01"), ref_op=ref)
    op = SquarePulse(v, d * 1e-9, "q0:mw", "q0.01")
    if w == "schedule":
        b = Schedule("b")
        b.add(op)
        op = b
    elif w == "loop":
        op = LoopOperation(op, 1)
    s.add(op, ref_op=ref, rel_time=g * 1e-9)
    s.add(IdlePulse(1220e-9), ref_op=ref)
    c = compile(s, CFG)
    seq = sequencers(c)["module1", "seq0"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    (o,) = origins(tr)
    tau = ctx.int("tau", 0, 20000)
    ctx.assume(tau < 1240)
    i, _ = level(ctx, seq, tr, o + tau)
    want = gate_square(ctx, tau, 20, 1200, a) + gate_square(ctx, tau, 20 + g, d, v)
    ctx.check(ctx.near(i, want * FS, 4), "the output is the sum of the pulses", lambda: (float(i), float(want) * FS))
    ctx.cover("end")


def apart(ctx, kinds):
    """Pulses of two clocks of one port overlap: each clock's sequencer plays its own, and only that."""
    kind = ctx.choice("kind", kinds)
    g, d, e = ctx.int("g", 104, 500), ctx.int("d", 104, 500), ctx.int("e", 104, 500)
    a, v = ctx.real("a", F(1, 20), F(2, 5)), ctx.real("b", F(1, 20), F(2, 5))
    s = schedule(clocks=())
    s.add_resources([ClockResource("q0.01", 50e6), ClockResource("q0.12", 100e6)])
    ref = s.add(IdlePulse(20e-9))
    s.add(SquarePulse(a, (g + d) * 1e-9, "q0:mw", "q0.01"), ref_op=ref)
    s.add(SquarePulse(v, (d + e) * 1e-9, "q0:mw", "q0.12"), ref_op=ref, rel_time=g * 1e-9)
    exp = {"q0.01": [(20, g + d, a)], "q0.12": [(20 + g, d + e, v)]}
    if kind == "both":  # and two of one clock overlap as well
        s.add(SquarePulse(v, (d + e) * 1e-9, "q0:mw", "q0.01"), ref_op=ref, rel_time=g * 1e-9)
        exp["q0.01"].append((20 + g, d + e, v))
    s.add(IdlePulse(1600e-9), ref_op=ref)
    c = compile(s, TWO_CLOCKS)
    tau = ctx.int("tau", 0, 1619)
    seqs = {k[1]: x for k, x in sequencers(c).items()}
    ctx.check(len(seqs) == 2, "a sequencer for each clock")
    which = ctx.choice("clock", list(exp))
    freq = {"q0.01": 50e6, "q0.12": 100e6}[which]
    (seq,) = [x for x in seqs.values() if x.modulation_freq == freq]
    tr = q1asm.run(ctx, seq.sequence["program"])
    (o,) = origins(tr)
    ctx.check(tr.end - o == 1620, "the program takes exactly the schedule duration", lambda: tr.end - o)
    i, q = level(ctx, seq, tr, o + tau)
    want = ctx.exact(0)
    for t, n, amp in exp[which]:
        want = want + gate_square(ctx, tau, t, n, amp)
    ctx.check(ctx.near(i, want * FS, 4), "the output is the sum of the pulses", lambda: (float(i), float(want) * FS))
    ctx.check(ctx.near(q, 0, 1), "the other quadrature stays silent")
    ctx.cover("end")


TWO_CLOCKS = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}},
        [["c0.module1.complex_output_0", "q0:mw"]],
        {"modulation_frequencies": {"q0:mw-q0.01": {"interm_freq": 50e6}, "q0:mw-q0.12": {"interm_freq": 100e6}}},
    )
)
CFG = config(hw_dict({"1": {"instrument_type": "QCM"}}, [["c0.module1.complex_output_0", "q0:mw"]]))

TWO = [[(0, 2), (1, 3)], [(0, 3), (1, 2)], [(0, 1), (0, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 1)]]
THREE = [[(0, 3), (1, 4), (2, 5)], [(0, 3), (0, 2), (1, 4)], [(0, 2), (1, 3), (3, 4)], [(0, 4), (1, 2), (2, 3)], [(0, 1), (0, 1), (0, 1)]]


def HARNESSES(tier):
    b = "any amplitudes, every instant"
    return [
        H("long_two", overlap, FUNCS, f"two square pulses, boundaries 104..3000 ns apart; {b}", dict(layouts=TWO, kinds=["ss"], short=None), ("silent", "all")),
        H("long_three", overlap, FUNCS, f"three square pulses of amplitudes in [0.05, 0.3], boundaries 104..3000 ns apart, every instant", dict(layouts=THREE, kinds=["sss"], short=None, amin=F(1, 20)), ("silent", "all")),
        H("short", overlap, FUNCS, "two square pulses of amplitudes in [0.05, 0.45], boundaries 8 or 13 ns apart, every instant", dict(layouts=TWO, kinds=["ss"], short=[8, 13], amin=F(1, 20)), ("silent", "all")),
        H("custom", overlap, FUNCS, f"a user-defined pulse with a sample anywhere in [-0.9, 0.9] and a square or another one; {b}", dict(layouts=TWO[:2], kinds=["sc", "cc"], short=[8]), ("silent", "all")),
        H("offset", overlap, FUNCS, "two pulses of which one has a start offset of 16 ns", dict(layouts=TWO, kinds=["ss", "sc", "cs"], short=[8], amin=F(1, 20), t0s=[16]), ("silent", "all")),
        H("inside", overlap, FUNCS, "two square pulses of amplitudes in [0.05, 0.45] in a sub-schedule or loop, every instant of every iteration", dict(layouts=TWO, kinds=["ss"], short=None, amin=F(1, 20), wrap=["schedule", "loop"]), ("silent", "all")),
        H("across", across, FUNCS, "a square pulse overlapping one on the same level, in a sub-schedule or in a loop", dict(wraps=[None, "schedule", "loop"]), ("end",)),
        H("apart", apart, FUNCS, "square pulses of two clocks of a port, which overlap each other or their own kind as well", dict(kinds=["one", "both"]), ("end",)),
        H("custom_all", overlap, FUNCS, f"the same, more layouts; {b}", dict(layouts=TWO, kinds=["sc", "cc", "rc", "rs"], short=[8, 13]), ("silent", "all"), thorough_only=True),
        H("three_all", overlap, FUNCS, f"three square pulses, all layouts; {b}", dict(layouts=THREE, kinds=["sss"], short=None, wrap=[None, "loop"]), ("silent", "all"), thorough_only=True),
    ]
