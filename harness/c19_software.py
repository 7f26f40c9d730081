"""C19: software distortion corrections filter every pulse of their port-clock exactly once."""

from __future__ import annotations

from fractions import Fraction as F

import numpy as np

from harness.hw import *
from harness.signal import level, origins
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "corrections.apply_software_distortion_corrections, distortion_correct_pulse",
    "helpers.waveforms.get_waveform, waveforms.interpolated_complex_waveform, NumericalPulse",
    "SerialCompiler.compile: hardware compilation and program assembly",
]
PEAK = 0.875
N = 20


def kick(data, taps):
    """A filter as a user may give: the first sample is PEAK, the others the convolution with the taps."""
    out = [sum((taps[j] * data[i - j] for j in range(len(taps)) if i >= j), 0.0 * data[0]) for i in range(len(data))]
    out[0] = PEAK
    kind = object if any(type(v).__module__.startswith("symx") for v in out) else complex if any(isinstance(v, complex) for v in out) else float
    a = np.empty(len(out), dtype=kind)
    a[:] = out
    if kind is object:
        from symx.symarr import finish

        return finish(a)
    return a


PORTS = {"x": ("q0:mw", "q0.01", ("module1", "seq0")), "y": ("q1:mw", "q1.01", ("module1", "seq1"))}
TAPS = {"x": [0.5, 0.25, 0.125], "y": [-0.25, 0.75, -1.0]}


def setup(which, clip):
    return config(
        hw_dict(
            {"1": {"instrument_type": "QCM"}},
            [["c0.module1.complex_output_0", "q0:mw"], ["c0.module1.complex_output_1", "q1:mw"]],
            {
                "distortion_corrections": {
                    f"{PORTS[k][0]}-{PORTS[k][1]}": {
                        "filter_func": "harness.c19_software.kick",
                        "input_var_name": "data",
                        "kwargs": {"taps": TAPS[k]},
                        **({"clipping_values": list(clip)} if clip else {}),
                    }
                    for k in which
                }
            },
        )
    )


def once(ctx, layouts, which, clips=(None,)):
    lay, ks = ctx.choice("layout", layouts), ctx.choice("which", which)
    clip = ctx.choice("clip", clips)
    sym, shared = {}, {}
    spans = []

    def op(x):
        """(operation, [(start, key, amplitude)], duration)"""
        if isinstance(x, str) and x in "pqrstu":  # pulses; the same letter is the same operation
            if x not in shared:
                key = "y" if x == "s" else "x"
                sym[x] = ctx.real(f"a_{x}", F(-19, 20), F(19, 20)) if x in "ps" else 0.25
                if x in "ps":
                    ctx.assume(ctx.Or(sym[x] >= F(1, 16), sym[x] <= F(-1, 16)))
                    for n in (2, 3) if clip else ():
                        v = sum(TAPS[key][:n]) * ctx.exact(sym[x])
                        for lim in clip:
                            ctx.assume(ctx.Or(v <= F(lim) - F(1, 64), v >= F(lim) + F(1, 64)))
                port, clock, _ = PORTS[key]
                if x == "r":  # two pulses in one operation
                    o = SquarePulse(0.5, N * 1e-9, *PORTS["y"][:2])
                    o.data["pulse_info"] += SquarePulse(0.25, N * 1e-9, port, clock).data["pulse_info"]
                    shared[x] = o, [(0, "y", 0.5), (0, "x", 0.25)], N
                elif x == "t":  # the same, one after the other
                    o = SquarePulse(0.5, N * 1e-9, *PORTS["y"][:2])
                    o.data["pulse_info"] += SquarePulse(0.25, N * 1e-9, port, clock, t0=60e-9).data["pulse_info"]
                    o._update()
                    shared[x] = o, [(0, "y", 0.5), (60, "x", 0.25)], 60 + N
                elif x == "u":  # later than its operation
                    shared[x] = SquarePulse(0.25, N * 1e-9, port, clock, t0=40e-9), [(40, "x", 0.25)], 40 + N
                else:
                    shared[x] = SquarePulse(sym[x], N * 1e-9, port, clock), [(0, key, sym[x])], N
            return shared[x]
        if x == "i":
            return IdlePulse(100e-9), [], 100
        kind, parts = x[0], x[1:]
        name = str(parts)
        if kind == "L" and len(parts) == 1:
            o, ev, d = op(parts[0])
        elif name in shared:
            o, ev, d = shared[name]
        else:
            o, ev, d = Schedule("s"), [], 0
            for y in parts:
                u, e, w = op(y)
                o.add(u)
                ev += [(t + d, k, a) for t, k, a in e]
                d += w
            shared[name] = o, ev, d
        if kind == "L":
            return LoopOperation(o, 2), [(t + d * r, k, a) for r in range(2) for t, k, a in ev], d * 2
        return o, ev, d

    s = schedule()
    s.add(IdlePulse(100e-9))
    t, ev = 100, []
    for x in lay:
        o, e, d = op(x)
        s.add(o)
        s.add(IdlePulse(40e-9))
        ev += [(t + u, k, a) for u, k, a in e]
        t += d + 40
    i = ctx.int("i", 0, N - 1)
    c = compile(s, setup(ks, clip))
    seqs = sequencers(c)
    for key, (_, _, where) in PORTS.items():
        mine = sorted([(u, a) for u, k, a in ev if k == key], key=lambda x: x[0])
        if not mine:
            continue
        seq = seqs[where] if len(seqs) > 1 else next(iter(seqs.values()))
        tr = q1asm.run(ctx, seq.sequence["program"])
        (o,) = origins(tr)
        plays = [e.t - o for e in tr.of("play")]
        ctx.check(len(plays) == len(mine), "every pulse is played", lambda: (plays, mine))
        for p, (u, a) in zip(plays, mine):
            ctx.check(p == u, "corrected pulses start when they should", lambda: (p, u))
            got = level(ctx, seq, tr, o + u + i)[0]
            if key in ks:
                if ctx.branch(i == 0):
                    lo = hi = min(PEAK, clip[1] if clip else 1)
                else:
                    # sample i of the filtered pulse, or between it and the one before (interpolation)
                    y = [ctx.exact(PEAK)] + [sum(TAPS[key][: k + 1]) * ctx.exact(a) for k in (1, 2)]
                    if clip:
                        y = [F(clip[0]) if ctx.branch(v < F(clip[0])) else F(clip[1]) if ctx.branch(v > F(clip[1])) else v for v in y]
                    k = 1 if ctx.branch(i == 1) else 2
                    one, two = y[k], y[k - 1] if ctx.branch(i <= 2) else y[k]
                    lo, hi = (one, two) if ctx.branch(one <= two) else (two, one)
            else:
                lo = hi = ctx.exact(a)
            ctx.check(
                ctx.And(got >= lo * 32767 - 3, got <= hi * 32767 + 3),
                "every pulse is filtered exactly once, others are not",
                lambda: (key, u, got / 32767, lo, hi),
            )
            after = level(ctx, seq, tr, o + u + N)[0]
            ctx.check(ctx.near(after, 0, 1) if not any(v == u + N for v, _ in mine) else True, "corrected pulses end when they should", lambda: after)
        ctx.check(tr.end - o == t, "the schedule lasts as long as without corrections")
    ctx.cover("end")


def HARNESSES(tier):
    lays = [["p"], ["p", "s"], ["p", "p"], ["r"], ["t"], ["u", "t"], ["p", ("L", "p")], [("L", "p"), "p"], [("L", "p", "i"), ("L", "p", "i")], [("S", "p", "i"), "i", ("S", "p", "i")], [("L", ("L", "p"), "i"), "p"], [("S", ("S", "p", "s")), ("L", ("S", "p", "s"))]]
    b = (
        "amplitudes in [-1, 1], every ns of every pulse; filter of three taps with a first sample of its own; corrections of one "
        "or both port-clocks"
    )
    which = [["x"], ["y"], ["x", "y"]]
    return [
        H("once", once, FUNCS, f"{lays[:6]}; {b}", dict(layouts=lays[:6], which=which), ("end",)),
        H("clipped", once, FUNCS, f"one pulse on either port, clipped at +-0.5 and unevenly; {b}; values within 1/64 of the limit excluded", dict(layouts=[["p"], ["s"]], which=which[2:], clips=[[-0.5, 0.5], [-0.125, 0.5], [-0.25, 0.75]]), ("end",)),
        H("shared", once, FUNCS, f"operations and schedules used more than once, {lays[6:]}; {b}", dict(layouts=lays[6:], which=[["x"], ["x", "y"]]), ("end",)),
    ]
