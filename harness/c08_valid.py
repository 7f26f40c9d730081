"""C08: whatever compiles is a program the instrument accepts."""

from __future__ import annotations

from harness.c04_e2e import CFG as WAVE_CFG
from harness.c05_acq import AP, AV
from harness.c05_acq import CFG as ACQ_CFG
from harness.c05_acq import add as acq_op
from harness.c05_acq import build
from harness.hw import *
from harness.tree import TREE_CFG, Tree
from harness.valid import valid
from quantify_scheduler.backends.qblox.operations.pulse_factories import long_square_pulse, staircase_pulse
from quantify_scheduler.operations import *
from symx.runner import H

BINS = 131072  # of the instrument
FUNCS = ["SerialCompiler.compile for the Qblox backend (program assembly, waits, registers, memories)"]


def tree(ctx, layouts, reps, count, gap):
    n = ctx.choice("reps", list(reps))
    b = Tree(ctx, gap, count)
    s = b.sched(n)
    s.add(IdlePulse(20e-9))
    b.fill(s, ctx.choice("layout", layouts))
    s.add(IdlePulse(100e-9))
    bit = ctx.bool("taken")
    valid(ctx, compile(s, TREE_CFG), {i: bit for i in range(1, 16)})
    ctx.cover("end")


def acquisitions(ctx, kinds, layouts, reps, count):
    kind, mode = ctx.choice("kind", kinds)
    n = ctx.choice("reps", list(reps))
    s = schedule(n)
    build(ctx, s, ctx.choice("layout", layouts), kind, mode, count, [], [0])
    valid(ctx, compile(s, ACQ_CFG))
    ctx.cover("end")


def capacity(ctx, layouts):
    """Any number of repetitions: what is declared must fit the acquisition memory."""
    kind, mode = ctx.choice("kind", [("ssb", AP), ("ssb", AV), ("trig", AP), ("thr", AP)])
    n = ctx.int("reps", 1, 1000000)
    s = schedule(n)
    for ch in ctx.choice("layout", layouts):
        op = acq_op(kind, abs(ch), mode)
        s.add(IdlePulse(100e-9))
        if ch < 0:
            body = schedule()
            body.add(op)
            body.add(IdlePulse(1e-6))
            s.add(LoopOperation(body, 3))
        else:
            s.add(op)
        s.add(IdlePulse(1e-6))
    try:
        c = compile(s, ACQ_CFG)
    except IndexError:
        ctx.cover("refused")
        return
    for st in sequencers(c).values():
        for d in (st.sequence["acquisitions"] or {}).values():
            ctx.check(d["num_bins"] <= BINS, "the declared bins fit the acquisition memory", lambda: d)
    ctx.cover("accepted")


def params(ctx):
    """Extreme parameter values and the operations that set instrument parameters."""
    a = ctx.real("a", -1, 1)
    b = ctx.real("b", -1, 1)
    s = schedule()
    s.add(ResetClockPhase("q0.01"))
    s.add(IdlePulse(20e-9))
    s.add(ShiftClockPhase(ctx.real("ph", -3600, 3600), "q0.01"))
    s.add(SquarePulse(a, 16e-9, "q0:mw", "q0.01"))
    s.add(VoltageOffset(a, b, port="q0:mw", clock="q0.01"))
    s.add(IdlePulse(20e-9))
    s.add(SetClockFrequency("q0.01", clock_freq_new=ctx.real("f", -0.4e9, 0.4e9)))
    s.add(SquarePulse(b, 16e-9, "q0:mw", "q0.01"))
    s.add(VoltageOffset(0.0, 0.0, port="q0:mw", clock="q0.01"))
    s.add(IdlePulse(20e-9))
    valid(ctx, compile(s, WAVE_CFG))
    ctx.cover("end")


def HARNESSES(tier):
    flat = [["a"], ["a", "b"], [["a"]], [["a"], "b"]]
    cond = [[{"q0": ["a"]}], [{"q0": [["a"]]}]]
    nest = [[[[[["a"]]]]], [["a", ["b", ["a", ["b"]]]]]]
    kinds = [("ssb", AP), ("ssb", AV), ("sep", AP), ("sep", AV), ("thr", AV), ("trig", AP)]
    lay = [[0], [0, 1, 0], [[0, 1], 0], [[0, [1, 0]], 1]]
    return [
        H("waits", tree, FUNCS, f"layouts {flat}; gaps 4..350000 ns", dict(layouts=flat, reps=(2,), count=2, gap=(4, 350000)), ("end",)),
        H("conditionals", tree, FUNCS, f"layouts {cond}; gaps 4..140000 ns", dict(layouts=cond, reps=(1,), count=2, gap=(4, 140000)), ("end",)),
        H("nesting", tree, FUNCS, f"layouts {nest}; gaps 4..1000 ns", dict(layouts=nest, reps=(1, 2), count=2, gap=(4, 1000)), ("end",)),
        H("acquisitions", acquisitions, FUNCS, f"protocols {[k for k, _ in kinds]}; layouts {lay}", dict(kinds=kinds, layouts=lay, reps=(1, 2), count=2), ("end",)),
        H("capacity", capacity, FUNCS, "1..1000000 repetitions, acquisitions in and out of loops", dict(layouts=[[1], [1, 2, 1], [-1, 1], [-1, -2]]), ("accepted", "refused")),
        H("parameters", params, FUNCS, "amplitudes and offsets in [-1, 1], phases +-3600 degrees, frequencies +-400 MHz", {}, ("end",)),
    ]
