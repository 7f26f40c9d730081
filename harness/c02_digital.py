"""C02: digital outputs and RF switches are on exactly while they should be."""

from __future__ import annotations

from fractions import Fraction as F

from harness.hw import *
from harness.signal import origins
from quantify_scheduler.backends.qblox.operations.rf_switch_toggle import RFSwitchToggle
from quantify_scheduler.operations import *
from symx.q1asm import LATCHING
from symx.runner import H

FUNCS = [
    "SerialCompiler.compile: every pass for the Qblox backend",
    "DigitalOutputStrategy, MarkerPulseStrategy, DigitalPulseStrategy, _replace_digital_pulses",
    "compiler_abc._remove_redundant_update_parameters, QASMProgram",
]

AUTO = [*FUNCS, "auto_rf_switch_dressing"]

#: module type, channel, bit of the channel, bits that are always on
OUT = {
    "QCM": ("QCM", "digital_output_1", 2, 0),
    "QRM": ("QRM", "digital_output_3", 8, 0),
    "QCM_RF": ("QCM_RF", "digital_output_0", 8, 3),
    "QRM_RF": ("QRM_RF", "digital_output_1", 8, 2),
    "QCM_RF off": ("QCM_RF", "digital_output_1", 4, 0),
    "QTM": ("QTM", "digital_output_5", 1, 0),
    "switch 0": ("QCM_RF", "complex_output_0", 1, 0),
    "switch 1": ("QCM_RF", "complex_output_1", 2, 0),
    "switch QRM": ("QRM_RF", "complex_output_0", 2, 0),
}


def setup(ctx, names, **more):
    name = ctx.choice("module", names)
    kind, channel, bit, rest = OUT[name]
    mod = {"instrument_type": kind}
    if rest == 0 and "RF" in kind:
        mod["rf_output_on"] = False
    opts = {}
    if channel.startswith("complex"):
        opts = {"modulation_frequencies": {"q0:mw-q0.01": {"lo_freq": 5e9}, "q1:res-q0.01": {"lo_freq": 5e9}}}
        if kind == "QCM_RF":
            opts["modulation_frequencies"].pop("q1:res-q0.01")
    graph = [[f"c0.module2.{channel}", "q0:mw"], ["c0.module1.complex_output_0", "q9:fl"]]
    d = hw_dict({"1": {"instrument_type": "QCM"}, "2": mod}, graph, opts, **more)
    if "modulation_frequencies" in opts:
        opts["modulation_frequencies"] = {"q0:mw-q0.01": {"lo_freq": 5e9}}
    return name, config(d), bit, rest


def digital(ctx, names, layouts, reps=(1,)):
    """Digital pulses one after the other, apart or back to back, in the order of time or not, in loops."""
    name, cfg, bit, rest = setup(ctx, names)
    lay, n = ctx.choice("layout", layouts), ctx.choice("reps", list(reps))
    backwards = ctx.choice("order", [False, True])
    switch = name.startswith("switch")
    k = [0]

    def fill(s, items):
        """[(start, end)], duration"""
        first = s.add(IdlePulse(20e-9))
        t, out, adds = 20, [], []
        for x in items:
            k[0] += 1
            g = 0 if x == "b" else ctx.int(f"g{k[0]}", 4, 9000)
            t = t + g
            if isinstance(x, (list, tuple)):
                inner = Schedule(f"inner{k[0]}")
                m = 2 if isinstance(x, list) else 1
                sub, d = fill(inner, x)
                op = LoopOperation(inner, m) if isinstance(x, list) else inner
                out += [(t + r * d + u, t + r * d + v) for r in range(m) for u, v in sub]
                adds.append((op, t))
                t = t + m * d
            else:
                d = ctx.int(f"d{k[0]}", 4, 70000 if len(lay) == 1 else 9000) if len(reps) == 1 and reps[0] == 1 or k[0] == 1 else 32
                op = RFSwitchToggle(d * 1e-9, "q0:mw", "q0.01") if switch else MarkerPulse(d * 1e-9, "q0:mw")
                adds.append((op, t))
                out.append((t, t + d))
                t = t + d
        for op, u in reversed(adds) if backwards else adds:
            s.add(op, ref_op=first, ref_pt="start", rel_time=u * 1e-9)
        s.add(IdlePulse(20e-9), ref_op=first, ref_pt="start", rel_time=t * 1e-9)
        return out, t + 20

    s = Schedule("s", repetitions=n)
    s.add_resources([ClockResource("q0.01", 5.05e9), ClockResource("q9.01", 50e6)])
    s.add(SquarePulse(0.25, 20e-9, "q9:fl", "q9.01"))  # as reference for the start
    on, total = fill(s, lay)
    on, total = [(u + 20, v + 20) for u, v in on], total + 20
    c = compile(s, cfg)
    seqs = sequencers(c)
    o = origins(q1asm.run(ctx, next(x for (m, _), x in seqs.items() if m == "module1").sequence["program"]))
    ((_, seq),) = [(k, x) for k, x in seqs.items() if k[0] == "module2"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ctx.check(tr.stopped and not tr.hazards and len(o) == n, "the program runs to its end", lambda: tr.hazards)
    ctx.check(tr.end - o[-1] == total, "the program takes exactly the schedule duration", lambda: (tr.end, o, total))
    tau = ctx.int("tau", 0, 10**6)
    ctx.assume(tau < total)
    r = ctx.choice("repetition", list(range(n)))
    got = state(ctx, name, tr, o[r] + tau, rest)
    want = any(ctx.branch(tau >= u) and ctx.branch(tau < v) for u, v in on)
    ctx.check(got == (rest | bit if want else rest), "the output is on exactly during the pulses", lambda: (got, want, tau, on, tr.events))
    last = state(ctx, name, tr, tr.end, rest)
    ctx.check(last == rest, "the output is off in the end", lambda: last)
    ctx.cover("on", want)
    ctx.cover("off", not want)


def state(ctx, name, tr, t, rest):
    par = {}
    for e in tr.events:
        if e.kind not in LATCHING:
            continue
        if not ctx.branch(e.t <= t):
            break
        par = e.par
    if name == "QTM":
        v = par.get("set_digital", (0, 1, 0))
        return int(v[0]) if int(v[2]) == 0 else -1
    return int(par.get("set_mrk", -1))


def fine(ctx, layouts):
    """Edges of digital pulses of a time tagger are delayed as asked for."""
    _, cfg, _, _ = setup(ctx, ["QTM"])
    loop = ctx.choice("loop", layouts)
    f, e, d, g = ctx.int("f", 0, 2047), ctx.int("e", 0, 2047), ctx.int("d", 40, 9000), ctx.int("g", 40, 9000)
    s, b = Schedule("s", repetitions=2), Schedule("b")
    s.add(SquarePulse(0.25, 20e-9, "q9:fl", "q9.01"))
    s.add_resources([ClockResource("q0.01", 5.05e9), ClockResource("q9.01", 50e6)])
    b.add(IdlePulse(20e-9))
    b.add(MarkerPulse(d * 1e-9, "q0:mw", fine_start_delay=f / 128e9, fine_end_delay=e / 128e9))
    b.add(MarkerPulse(40e-9, "q0:mw"), rel_time=g * 1e-9)
    b.add(IdlePulse(40e-9))
    s.add(LoopOperation(b, 3) if loop else b)
    c = compile(s, cfg)
    seqs = sequencers(c)
    o = origins(q1asm.run(ctx, next(x for (m, _), x in seqs.items() if m == "module1").sequence["program"]))
    (seq,) = [x for k, x in seqs.items() if k[0] == "module2"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ev = [x for x in tr.of("upd_param") if "set_digital" in x.fresh]
    exp = []
    for t in o:
        for r in range(3 if loop else 1):
            u = t + 20 + r * (d + g + 100) + 20
            exp += [(u, 1, f), (u + d, 0, e), (u + d + g, 1, 0), (u + d + g + 40, 0, 0)]
    ctx.check(len(ev) == len(exp), "every edge once", lambda: (ev, exp))
    for x, (t, v, fd) in zip(ev, exp):
        got = x.par["set_digital"]
        ctx.check(ctx.And(x.t == t, got[0] == v), "edges of the output are on time", lambda: (x, t, v))
        ctx.check(ctx.exact(got[2]) == fd, "edges are delayed as asked for", lambda: (got, fd))
    ctx.cover("end")


def auto(ctx, names, layouts, buffer=20):
    """Automatic RF switches: on from the buffer before to the buffer after every pulse, off elsewhere."""
    name, cfg, bit, rest = setup(ctx, names, compiler_options={"auto_rf_switch": True, "auto_rf_switch_ramp_buffer": buffer * 1e-9})
    lay = ctx.choice("layout", layouts)
    k = [0]

    def gap():
        k[0] += 1
        g = ctx.int(f"g{k[0]}", 0, 2000)
        # shorter than the instrument can switch off and on again
        ctx.assume(ctx.Or(g <= 2 * buffer, g >= 2 * buffer + 4))
        return g

    def fill(s, items):
        t, out, loops = 0, [], []
        for x in items:
            if isinstance(x, (list, tuple)):
                inner = Schedule(f"inner{k[0]}")
                m = 3 if isinstance(x, list) else 1
                sub, inside, d = fill(inner, x)
                s.add(LoopOperation(inner, m) if isinstance(x, list) else inner)
                out += [(t + r * d + u, t + r * d + v) for r in range(m) for u, v in sub]
                loops += [(t + r * d + u, t + r * d + v) for r in range(m) for u, v in inside]
                if isinstance(x, list) and not (x[0] == x[-1] == "I"):
                    loops.append((t, t + m * d))
                t = t + m * d
                continue
            if x == "i":
                d = gap()
                s.add(IdlePulse(d * 1e-9))
            elif x == "I":
                d = 100
                s.add(IdlePulse(100e-9))
            elif x == "p":
                k[0] += 1
                d = ctx.choice(f"d{k[0]}", [4, 60] if k[0] == 1 else [24])
                s.add(SquarePulse(0.25, d * 1e-9, "q0:mw", "q0.01"))
                out.append((t, t + d))
            elif x == "L":  # repeated without a schedule
                s.add(LoopOperation(SquarePulse(0.25, 60e-9, "q0:mw", "q0.01"), 3))
                d = 180
                out.append((t, t + d))
                loops.append((t, t + d))
            elif x == "C":  # a loop of a loop
                s.add(LoopOperation(LoopOperation(SquarePulse(0.25, 60e-9, "q0:mw", "q0.01"), 2), 2))
                d = 240
                out.append((t, t + d))
                loops.append((t, t + d))
            elif x == "o":  # an offset for a while
                k[0] += 1
                d = ctx.int(f"d{k[0]}", 20, 2000)
                s.add(VoltageOffset(0.25, 0, "q0:mw", "q0.01"))
                s.add(IdlePulse(d * 1e-9))
                s.add(VoltageOffset(0, 0, "q0:mw", "q0.01"))
                out.append((t, t + d))
            elif x == "t":  # starts within its operation
                k[0] += 1
                d0 = gap()
                s.add(SquarePulse(0.25, 40e-9, "q0:mw", "q0.01", t0=d0 * 1e-9))
                d = d0 + 40
                out.append((t + d0, t + d))
            elif x in ("O", "w"):  # an offset that changes, or with a pulse meanwhile
                k[0] += 1
                d, d2 = ctx.int(f"d{k[0]}", 20, 2000), ctx.int(f"e{k[0]}", 20, 2000)
                s.add(VoltageOffset(0.25, -0.25, "q0:mw", "q0.01"))
                s.add(IdlePulse(d * 1e-9))
                if x == "O":
                    s.add(VoltageOffset(0, 0.5, "q0:mw", "q0.01"))
                else:
                    s.add(SquarePulse(0.25, 40e-9, "q0:mw", "q0.01"))
                    d = d + 40
                s.add(IdlePulse(d2 * 1e-9))
                s.add(VoltageOffset(0, 0, "q0:mw", "q0.01"))
                d = d + d2
                out.append((t, t + d))
            t = t + d
        return out, loops, t

    s = Schedule("s")
    s.add_resources([ClockResource("q0.01", 5.05e9), ClockResource("q9.01", 50e6)])
    s.add(SquarePulse(0.25, 100e-9, "q9:fl", "q9.01"))  # as reference for the start
    pulses, loops, total = fill(s, lay)
    pulses, total = [(u + 100, v + 100) for u, v in pulses], total + 200
    s.add(IdlePulse(100e-9))
    c = compile(s, cfg)
    seqs = sequencers(c)
    (o,) = origins(q1asm.run(ctx, next(x for (m, _), x in seqs.items() if m == "module1").sequence["program"]))
    ((_, seq),) = [(k, x) for k, x in seqs.items() if k[0] == "module2"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
    ctx.check(tr.end - o == total, "the program takes exactly the schedule duration", lambda: (tr.end - o, total))
    tau = ctx.int("tau", 0, 10**6)
    ctx.assume(tau < total)
    want, may, last = False, False, None
    for u, v in pulses:
        if last is not None and ctx.branch(u - last <= 2 * buffer):
            u = last
        want = want or (ctx.branch(tau >= u - buffer) and ctx.branch(tau < v + buffer))
        last = v
    if not want:  # a loop which can't switch inside its body may be on from its begin to its end
        may = any(ctx.branch(tau >= u + 100 - 3 * buffer) and ctx.branch(tau < v + 100 + 3 * buffer) for u, v in loops)
    got = state(ctx, name, tr, o + tau, rest)
    if may:
        return
    ctx.check(got == (rest | bit if want else rest), "the switch is on around the pulses only", lambda: (got, want, tau, pulses, tr.events))
    ctx.cover("on", want)
    ctx.cover("off", not want)


def HARNESSES(tier):
    flat = [["x"], ["x", "b"], ["x", "x"]]
    nested = [[["x"], "x"], ["x", ("x", "b")], [["x", "b"]]]
    b = "gaps 4..9000 ns, pulses of 4..9000 ns (a single one up to 70 us), every instant, added in the order of time and against it"
    plain = [("p",), ("p", "i", "p"), ("o",), ("p", "i", "o"), ("i", "t"), ("O", "I"), ("w", "I")]
    subs = [(("p", "i", "p"), "I"), ("p", "i", ("I", "p"))]
    loops = [(["I", "p", "I"], "I"), (["p"], "i"), ("I", "L", "I"), ("i", "C", "p"), (["p", "i"], "I"), ("i", ["i", "p"], "p"), (["I", ["i", "p"], "I"],)]
    if tier == "thorough":
        plain += [("p", "i", "p", "i", "p"), ("p", "i", "o", "I", "p")]
        subs += [("i", ("p", "i"), "p", "i", ("p",))]
        loops += [("p", "i", ["p", "i", "p"], "i", "p"), (["i", ["p", "I"], "i"], "p")]
    names = [x for x in OUT if not x.startswith("switch")]
    n2 = ["switch 0", "switch QRM"]
    return [
        H("markers", digital, FUNCS, f"pulses {flat} (x: after a gap; b: back to back) on {names}; {b}", dict(names=names, layouts=flat), ("on", "off")),
        H("switches", digital, FUNCS, f"RF switches on QCM-RF and QRM-RF, {flat}; {b}", dict(names=[x for x in OUT if x.startswith("switch")], layouts=flat), ("on", "off")),
        H("nested", digital, FUNCS, f"{nested} (lists are loops of 2, tuples sub-schedules), 2 repetitions; the first pulse of 4..9000 ns, others of 32 ns; {b}", dict(names=["QTM", "switch 1"], layouts=nested, reps=(2,)), ("on", "off")),
        H("auto", auto, AUTO, f"automatic switches around pulses of 4, 24 or 60 ns (p), 0..2000 ns apart (i), and offsets (o; O: of two values; w: with a pulse meanwhile), also within an operation (t), {plain}; gaps of 41..43 ns excluded", dict(names=n2, layouts=plain), ("on", "off")),
        H("auto_nested", auto, AUTO, f"automatic switches in sub-schedules {subs}", dict(names=n2[:1], layouts=subs), ("on", "off")),
        H("auto_loop", auto, AUTO, f"automatic switches and loops of 3 {loops} (L: of a single pulse without a schedule; C: nested in another such loop)", dict(names=n2[:1], layouts=loops), ("on", "off")),
        H("fine", fine, FUNCS, "delays of any n/128 ns, pulse of 40..9000 ns, also in a loop of 3 and in 2 repetitions", dict(layouts=[False, True]), ("end",)),
    ]
