"""C13: a time the instrument cannot realise is refused, never silently moved."""

from __future__ import annotations

from fractions import Fraction as F

from harness.c05_acq import CFG
from harness.hw import *
from harness.signal import level, origins
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "helpers.to_grid_time, qasm_program.auto_wait / wait_till_start_operation",
    "SerialCompiler.compile: timing, flattening, sequencer program assembly",
]
TOL = F(12, 10000)  # ns: the documented tolerance is 1 ps; the code allows 1.1 ps


def off_grid(ctx, layouts, tmax=3000, base=0):
    """p: 40 ns pulse, a: acquisition, [..]: loop of 2, (..): sub-schedule; any real gap before each."""
    s = schedule()
    k, frac = [0], []

    def gap():
        i = k[0]
        k[0] += 1
        n, f = ctx.int(f"n{i}", 5, tmax), ctx.real(f"f{i}", F(-1, 2), F(1, 2))
        frac.append(f)
        return (base if i == 0 else 0) + n + f

    def fill(s, nodes, t):
        out = []
        for x in nodes:
            if isinstance(x, (list, tuple)):
                inner = schedule()
                ev, d = fill(inner, x, ctx.exact(0))
                n = 2 if isinstance(x, list) else 1
                s.add(LoopOperation(inner, 2) if isinstance(x, list) else inner)
                out += [(t + u + d * r, kind) for r in range(n) for u, kind in ev]
                t = t + d * n
                continue
            g = gap()
            if x == "P":
                s.add(SquarePulse(0.5, 40e-9, "q0:mw", "q0.01"), rel_time=g * 1e-9)
            else:
                s.add(IdlePulse(g * 1e-9))
            t = t + ctx.exact(g)
            if x == "p":
                s.add(SquarePulse(0.5, 40e-9, "q0:mw", "q0.01"))
            elif x == "a":
                s.add(SSBIntegrationComplex("q0:res", "q0.ro", duration=200e-9))
            out.append((t, "acquire" if x == "a" else "play"))
            t = t + (200 if x == "a" else 40)
        return out, t

    s.add(IdlePulse(20e-9))
    ev, total = fill(s, ctx.choice("layout", layouts), ctx.exact(20))
    s.add(IdlePulse(40e-9))
    total = total + 40
    try:
        c = compile(s, CFG)
    except ValueError as e:
        ctx.check(
            ctx.Not(ctx.And([ctx.exact(f) == 0 for f in frac])), "times on the grid are accepted", lambda: repr(e)[:200]
        )
        ctx.cover("refused")
        return
    for key, kind in ((("module1", "seq0"), "play"), (("module2", "seq0"), "acquire")):
        want = [u for u, kd in ev if kd == kind]
        if not want:
            continue
        tr = q1asm.run(ctx, sequencers(c)[key].sequence["program"])
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        (o,) = origins(tr)
        got = [e.t for e in tr.of(kind)]
        ctx.check(len(got) == len(want), "everything happens", lambda: (got, want))
        for u, w in zip(got, want):
            ctx.check(ctx.near(u - o, w, TOL), "everything happens at the time asked for", lambda: (u - o, float(w)))
        ctx.check(ctx.near(tr.end - o, total, TOL), "the schedule lasts as long as asked for")
    ctx.cover("accepted")


QTM = config(
    hw_dict(
        {"3": {"instrument_type": "QTM"}},
        [["c0.module3.digital_input_0", "q0:res"], ["c0.module3.digital_output_1", "q0:mw"]],
        {"digitization_thresholds": {"q0:res-digital": {"analog_threshold": 0.5}}},
    )
)
KINDS = {
    "square": lambda d: SquarePulse(0.5, d, "q0:mw", "q0.01"),
    "ramp": lambda d: RampPulse(0.5, d, "q0:mw", "q0.01"),
    "ssb": lambda d: SSBIntegrationComplex("q0:res", "q0.ro", duration=d),
    "thresholded": lambda d: ThresholdedAcquisition("q0:res", "q0.ro", duration=d, acq_threshold=0, acq_rotation=0),
    "trace": lambda d: Trace(d, "q0:res", "q0.ro"),
    "count": lambda d: TriggerCount("q0:res", "digital", duration=d),
    "marker": lambda d: MarkerPulse(d, "q0:mw"),
}


def durations(ctx, kinds, ns):
    """An operation of any real duration: the next one starts on the grid again."""
    kind, n = ctx.choice("kind", kinds), ctx.choice("ns", ns)
    f = ctx.real("f", F(-1, 2), F(1, 2))
    loop = ctx.choice("loop", [False, True])
    s, inner = schedule(), schedule()
    s.add(IdlePulse(20e-9))
    inner.add(KINDS[kind]((n + f) * 1e-9))
    inner.add(IdlePulse(1e-6), rel_time=(1 - f) * 1e-9)
    s.add(LoopOperation(inner, 2) if loop else inner)
    try:
        c = compile(s, QTM if kind in ("count", "marker") else CFG)
    except ValueError as e:
        ctx.check(ctx.Not(ctx.exact(f) == 0), "durations on the grid are accepted", lambda: repr(e)[:200])
        ctx.cover("refused")
        return
    ((_, seq),) = sequencers(c).items()
    # what is played or measured lasts n ns
    ctx.check(ctx.near(f, 0, TOL), "everything lasts as long as asked for", lambda: (kind, float(f)))
    tr = q1asm.run(ctx, seq.sequence["program"])
    if kind not in ("count", "marker"):
        (o,) = origins(tr)
        ctx.check(ctx.near(tr.end - o, 20 + (n + 1001) * (2 if loop else 1), TOL), "the schedule lasts as long as asked for")
    if kind == "count":
        ev = tr.of("acquire_ttl")
        ctx.check(all(b.t + b.dur - a.t == n for a, b in zip(ev[::2], ev[1::2])), "counting lasts as long as asked for")
    elif kind in ("ssb", "thresholded"):
        ctx.check(int(seq.integration_length_acq) == n, "integration lasts as long as asked for")
    elif kind in ("square", "ramp"):
        at = lambda d: level(ctx, seq, tr, o + 20 + d)[0]
        ctx.check(ctx.Not(ctx.near(at(n - 1), 0, 100)) if n > 1 else True, "the pulse is played to its end")
        ctx.check(ctx.near(at(n), 0, 1), "the pulse ends when it should")
    ctx.cover("accepted")


def coincident(ctx, shapes):
    """An offset and a pulse at the same time (but for rounding): accepted, and the offset applies to the pulse."""
    shape = ctx.choice("shape", shapes)
    loop = ctx.choice("loop", [False, True])
    n = ctx.int("n", 20, 3000)
    f, g = ctx.real("f", F(-1, 2000), F(1, 2000)), ctx.real("g", F(-1, 2000), F(1, 2000))
    s, body = schedule(), schedule()
    s.add(IdlePulse(20e-9))
    first = body.add(IdlePulse(20e-9))
    kw = dict(ref_op=first, ref_pt="start")
    body.add(VoltageOffset(0.25, 0, "q0:mw", "q0.01"), rel_time=n * 1e-9, **kw)
    d = {"square": 40, "ramp": 200}[shape]
    pulse = RampPulse(0.5, 200e-9, "q0:mw", "q0.01") if shape == "ramp" else SquarePulse(0.5, d * 1e-9, "q0:mw", "q0.01")
    body.add(pulse, rel_time=(n + f) * 1e-9, **kw)
    body.add(VoltageOffset(0, 0, "q0:mw", "q0.01"), rel_time=(n + d + g) * 1e-9, **kw)
    body.add(IdlePulse(100e-9), rel_time=(n + d) * 1e-9, **kw)
    s.add(LoopOperation(body, 2) if loop else body)
    try:
        c = compile(s, CFG)
    except (ValueError, RuntimeError) as e:
        ctx.check(False, "an offset and a pulse at the same time are accepted", lambda: repr(e)[:200])
        return
    seq = sequencers(c)[("module1", "seq0")]
    tr = q1asm.run(ctx, seq.sequence["program"])
    (o,) = origins(tr)
    for r in range(2 if loop else 1):
        t = o + 20 + (n + d + 100) * r + n
        for i, want in ((-1, 0), (0, 0.25 if shape == "ramp" else 0.75), (d - 1, 0.25 + 0.5 * (199 / 200 if shape == "ramp" else 1)), (d, 0)):
            got = level(ctx, seq, tr, t + i)[0]
            ctx.check(ctx.near(got, int(want * 32767), 400), "the output is the pulse on top of its offset", lambda: (r, i, got, want * 32767))
    ctx.cover("accepted")


def HARNESSES(tier):
    lay = [["p"], ["P", "p"], ["a", "p"], [["p"]], [("p",), "a"]]
    return [
        H(
            "off_grid",
            off_grid,
            FUNCS,
            f"layouts {lay} (p pulse, a acquisition, lists loops of 2, tuples sub-schedules), every time any real number "
            "of nanoseconds up to 3000",
            dict(layouts=lay),
            ("accepted", "refused"),
        ),
        H(
            "long",
            off_grid,
            FUNCS,
            "one or two pulses after a time of any real number of nanoseconds within 3000 ns of half a second",
            dict(layouts=[["p"], ["P", "p"], ["p", "P"]], base=500_000_000),
            ("accepted", "refused"),
        ),
        H(
            "durations",
            durations,
            FUNCS,
            f"{list(KINDS)} of any real number of nanoseconds within 0.5 of 40, 200 and 1001, also in a loop",
            dict(kinds=list(KINDS), ns=[40, 200, 1001]),
            ("accepted", "refused"),
        ),
        H(
            "coincident",
            coincident,
            FUNCS,
            "a voltage offset, a pulse (square 40 ns, ramp 200 ns) at the same time and an offset at its end, also in "
            "a loop, each of whose times differs by any amount within 0.5 ps",
            dict(shapes=["square", "ramp"]),
            ("accepted",),
        ),
    ]
