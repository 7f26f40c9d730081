"""C12: latency corrections shift every output by its own correction and by nothing else."""

from __future__ import annotations

from fractions import Fraction as F

from harness.hw import *
from harness.signal import origins
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "corrections.determine_relative_latency_corrections",
    "SerialCompiler.compile (latency corrections in the hardware options -> sequencer programs)",
]
OUT = {
    "q0:mw-q0.01": ("module1", "seq0"),
    "q1:mw-q1.01": ("module1", "seq1"),
    "q0:res-q0.ro": ("module2", "seq0"),
}


def delays(ctx, listed, layouts):
    """Every port-clock may have a correction of its own, in whole or fractional nanoseconds."""
    fine = ctx.choice("fine", [False, True])
    lat, names = {}, ctx.choice("listed", listed)
    for i, pc in enumerate(names):
        lat[pc] = ctx.real(f"lat{i}", -500, 500) if fine else ctx.int(f"lat{i}", -300000, 300000)
    parts = ctx.choice("layout", layouts)
    hw = hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module1.complex_output_1", "q1:mw"],
            ["c0.module2.complex_output_0", "q0:res"],
            ["c0.module2.complex_input_0", "q0:res"],
        ],
        {"latency_corrections": {pc: 0.0 for pc in names}},
    )

    def tweak(h):
        for pc in names:
            h.hardware_options.latency_corrections[pc] = lat[pc] * 1e-9

    n = 2
    s = schedule(n)
    s.add(IdlePulse(20e-9))
    t, exp, used = 20, {}, []
    for i, x in enumerate(parts):
        pc = {"a": "q0:mw-q0.01", "b": "q1:mw-q1.01", "r": "q0:res-q0.ro", "A": "q0:mw-q0.01"}[x]
        g = ctx.int(f"g{i}", 4, 2000)
        op = (
            SSBIntegrationComplex("q0:res", "q0.ro", duration=200e-9)
            if x == "r"
            else SquarePulse(0.5, 40e-9, *pc.rsplit("-", 1))
        )
        d = 200 if x == "r" else 40
        s.add(IdlePulse(g * 1e-9))
        t = t + g
        if x == "A":  # inside a sub-schedule
            inner = schedule()
            inner.add(op)
            op = inner
        s.add(op)
        exp.setdefault(pc, []).append(t)
        t = t + d
    s.add(IdlePulse(40e-9))
    t = t + 40
    c = compile(s, config(hw, tweak=tweak))
    seqs = sequencers(c)
    start, end = {}, {}
    for pc, times in exp.items():
        tr = q1asm.run(ctx, seqs[OUT[pc]].sequence["program"])
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        o = origins(tr)
        ctx.check(len(o) == n and o[1] - o[0] >= t, "repetitions follow each other")
        ev = tr.of("play") + tr.of("acquire")
        ctx.check(len(ev) == n * len(times), "everything is played")
        # nothing inside the schedule moves
        for r in range(n):
            for e, u in zip(ev[r * len(times) :], times):
                ctx.check(e.t - o[r] == u, "the correction moves the schedule as a whole")
        start[pc], end[pc] = o, tr.end
    for p in exp:
        for q in exp:
            a, b = lat.get(p, 0), lat.get(q, 0)
            d, want = start[p][0] - start[q][0], ctx.exact(a) - ctx.exact(b)
            tol = 1 if fine else 0
            ctx.check(
                ctx.near(d, want, F(tol) + F(1, 1000)),
                "outputs are shifted against each other by the difference of their corrections",
                lambda: (p, q, d, want),
            )
            ctx.check(start[p][1] - start[p][0] == start[q][1] - start[q][0], "the shift is the same in every repetition")
    ctx.check(ctx.And([start[p][0] >= 0 for p in exp]), "nothing starts before the common start")
    ctx.cover("end")


def HARNESSES(tier):
    listed = [["q0:mw-q0.01"], ["q0:mw-q0.01", "q1:mw-q1.01"], ["q1:mw-q1.01", "q0:res-q0.ro"], list(OUT)]
    lay = ["ab", "Ar", "abr"]
    return [
        H(
            f"delays_{i}",
            delays,
            FUNCS,
            f"corrections of {x}, each -300..300 us on the grid or any value in -500..500 ns; pulses on {lay} "
            "(a, b, r the three outputs), two repetitions, gaps 4..2000 ns",
            dict(listed=[x], layouts=lay),
            ("end",),
        )
        for i, x in enumerate(listed)
    ]
