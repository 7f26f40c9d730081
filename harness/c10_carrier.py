"""C10: the carrier under every pulse has the frequency and phase the schedule asks for."""

from __future__ import annotations

from harness.hw import *
from harness.signal import origins
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "SerialCompiler.compile (clock resources, frequency assignment, NCO strategies, program assembly)",
    "helpers.determine_clock_lo_interm_freqs, get_nco_phase_arguments, get_nco_set_frequency_arguments",
]
TURN = 10**9
GRAPH = [["c0.module1.complex_output_0", "q0:mw"]]


def mod_near(ctx, x, tol):
    """x is within tol of a multiple of a full turn."""
    k = ctx.exact(x) / TURN
    return ctx.near(ctx.exact(x) - TURN * round(k), 0, tol)


def phases(ctx, layouts, reps, loop=1):
    """S: shift, R: reset, P: pulse, F: set frequency, N: back to the clock's own frequency;
    lower case acts on a second clock of the same port."""
    f0 = {"q0.01": ctx.real("f0", -2e8, 2e8), "q0.12": ctx.real("f1", -2e8, 2e8)}
    n = ctx.choice("reps", list(reps))
    s = Schedule("s", repetitions=n)
    for c, f in f0.items():
        s.add_resource(ClockResource(c, f))
    seq = ctx.choice("layout", layouts)
    body = Schedule("body") if loop > 1 else s
    ph, nsh, fr, exp = {c: 0 for c in f0}, {c: 0 for c in f0}, dict(f0), {c: [] for c in f0}
    t = 0
    if loop > 1:
        for c, f in f0.items():
            body.add_resource(ClockResource(c, f))
    ops = []
    for i, x in enumerate(seq):
        c = "q0.01" if x.isupper() else "q0.12"
        x = x.upper()
        g = ctx.int(f"g{i}", 8, 2000)
        body.add(IdlePulse(g * 1e-9))
        t = t + g
        if x == "P":
            body.add(SquarePulse(0.5, 20e-9, "q0:mw", c))
            t = t + 20
            ops.append((x, c, 0))
        elif x == "S":
            v = ctx.real(f"ph{i}", -800, 800)
            body.add(ShiftClockPhase(v, c))
            ops.append((x, c, v))
        elif x == "R":
            body.add(ResetClockPhase(c))
            ops.append((x, c, 0))
        elif x in "FN":
            v = ctx.real(f"fr{i}", -4e8, 4e8) if x == "F" else None
            body.add(SetClockFrequency(c, clock_freq_new=v))
            ops.append((x, c, v))
    body.add(IdlePulse(40e-9))
    if loop > 1:
        s.add(LoopOperation(body, loop))
    for r in range(n):
        for c in f0:
            ph[c], nsh[c] = ctx.exact(0), 0
        for _ in range(loop):
            for x, c, v in ops:
                if x == "P":
                    exp[c].append((ph[c], nsh[c], fr[c]))
                elif x == "S":
                    ph[c] = ph[c] + ctx.exact(v)
                    nsh[c] += 1
                elif x == "R":
                    ph[c], nsh[c] = ctx.exact(0), 0
                elif x == "F":
                    fr[c] = v
                else:
                    fr[c] = f0[c]
    comp = compile(s, CFG)
    byclock = {}
    for k, st in sequencers(comp).items():
        m = [c for c, f in f0.items() if ctx.branch(st.modulation_freq == f)]
        tr = q1asm.run(ctx, st.sequence["program"])
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        byclock.setdefault(tuple(m), []).append((st, tr))
    used = [c for c in f0 if exp[c]]
    for c in used:
        cand = [(st, tr) for m, v in byclock.items() if c in m for st, tr in v]
        ctx.check(cand != [], "the NCO of the clock's sequencer starts at the clock frequency")
    ctx.check(sum(len(v) for v in byclock.values()) >= len(used), "every clock has its own sequencer")
    if len(used) == 2:
        ctx.assume(f0["q0.01"] != f0["q0.12"])
    for c in used:
        ((st, tr),) = [(st, tr) for m, v in byclock.items() if c in m for st, tr in v]
        ctx.check(st.nco_en is True, "the NCO is on")
        plays = tr.of("play")
        ctx.check(len(plays) == len(exp[c]), "every pulse is played")
        for p, (phi, m, f) in zip(plays, exp[c]):
            d = ctx.exact(0)
            for x in p.par.get("phase", ()):
                d = d + ctx.exact(x)
            want = phi * TURN / 360
            ctx.check(mod_near(ctx, d - want, m + 0.01), "the phase under every pulse is the sum of its shifts", lambda: (d, want))
            nco = ctx.exact(p.par["set_freq"]) / 4 if "set_freq" in p.par else ctx.exact(st.modulation_freq)
            ctx.check(ctx.near(nco, ctx.exact(f), 0.13), "the frequency under every pulse is the clock's", lambda: (nco, f))
    ctx.cover("end")


CFG = config(hw_dict({"1": {"instrument_type": "QCM"}}, GRAPH))


NAMES = [("q0.01", "qq0.01"), ("q0.01", "q0.012"), ("q0.0", "q0.0.1")]


def ports(ctx, layouts):
    """Two clocks on two ports of one instrument: what is done to one must not reach the other."""
    a, b = ctx.choice("names", NAMES)
    if ctx.choice("swap", [False, True]):
        a, b = b, a
    home = {a: ("q0:mw", ("module1", "seq0")), b: ("q1:mw", ("module1", "seq1"))}
    f = {a: ctx.real("fa", -2e8, 2e8), b: ctx.real("fb", -2e8, 2e8)}
    s = Schedule("s")
    for c in f:
        s.add_resource(ClockResource(c, f[c]))
    ph, fr, exp = {a: (ctx.exact(0), 0), b: (ctx.exact(0), 0)}, dict(f), {a: [], b: []}
    for i, x in enumerate(ctx.choice("layout", layouts)):
        c = a if x.isupper() else b
        s.add(IdlePulse(ctx.int(f"g{i}", 8, 2000) * 1e-9))
        x = x.upper()
        if x == "P":
            s.add(SquarePulse(0.5, 20e-9, home[c][0], c))
            exp[c].append((*ph[c], fr[c]))
        elif x == "S":
            v = ctx.real(f"ph{i}", -800, 800)
            s.add(ShiftClockPhase(v, c))
            ph[c] = (ph[c][0] + ctx.exact(v), ph[c][1] + 1)
        elif x == "R":
            s.add(ResetClockPhase(c))
            ph[c] = (ctx.exact(0), 0)
        else:
            fr[c] = ctx.real(f"fr{i}", -4e8, 4e8)
            s.add(SetClockFrequency(c, clock_freq_new=fr[c]))
    s.add(IdlePulse(40e-9))
    comp = compile(s, PORTS)
    for c, (_, key) in home.items():
        st = sequencers(comp)[key]
        ctx.check(ctx.near(st.modulation_freq, ctx.exact(f[c]), 0.13), "the NCO starts at the clock frequency")
        tr = q1asm.run(ctx, st.sequence["program"])
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        plays = tr.of("play")
        ctx.check(len(plays) == len(exp[c]), "every pulse is played")
        for p, (phi, m, fq) in zip(plays, exp[c]):
            d = ctx.exact(0)
            for x in p.par.get("phase", ()):
                d = d + ctx.exact(x)
            ctx.check(mod_near(ctx, d - phi * TURN / 360, m + 0.01), "the phase under every pulse is the sum of its shifts", lambda: (d, phi))
            nco = ctx.exact(p.par["set_freq"]) / 4 if "set_freq" in p.par else ctx.exact(st.modulation_freq)
            ctx.check(ctx.near(nco, ctx.exact(fq), 0.13), "the frequency under every pulse is the clock's", lambda: (nco, fq))
    ctx.cover("end")


PORTS = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}},
        [["c0.module1.complex_output_0", "q0:mw"], ["c0.module1.complex_output_1", "q1:mw"]],
    )
)


def lo_if(ctx, modes):
    """RF modules and external local oscillators: clock = LO + IF (or its mirror with a downconverter)."""
    mode, given, down = ctx.choice("mode", modes)
    f = ctx.real("f", 4e9, 6e9)
    dc = ctx.real("dc", 10e9, 20e9) if down else None
    # keep the frequencies involved representable
    eff = (dc - f) if down else f
    IF = ctx.real("if", -4e8, 4e8)
    ctx.assume(IF != 0)
    LO = eff - IF
    pc = "q0:mw-q0.01"
    opt = {"modulation_frequencies": {pc: {"lo_freq": 1e9} if given == "lo" else {"interm_freq": 1e6}}}
    graph = [["c0.module1.complex_output_0", "q0:mw"]]
    kw = {}
    kind = "QCM_RF" if mode in ("rf", "rf_qrm") else "QCM"
    if mode == "rf_qrm":
        kind = "QRM_RF"
    mods = {"1": {"instrument_type": kind}}
    if mode == "ext":
        graph = [
            ["c0.module1.complex_output_0", "iq0.if"],
            ["lo0.output", "iq0.lo"],
            ["iq0.rf", "q0:mw"],
        ]
        kw["instruments"] = {
            "lo0": {"instrument_type": "LocalOscillator", "power": 1},
            "iq0": {"instrument_type": "IQMixer"},
        }
    d = hw_dict(mods, graph, opt, **kw)
    if down:
        tgt = d["hardware_description"]["c0"]["modules"]["1"]
        tgt.setdefault("complex_output_0", {})["downconverter_freq"] = 1.0

    def tweak(hw):
        m = hw.hardware_options.modulation_frequencies[pc]
        if given == "lo":
            m.__dict__["lo_freq"] = LO
        else:
            m.__dict__["interm_freq"] = IF
        if down:
            hw.hardware_description["c0"].modules[1].complex_output_0.__dict__["downconverter_freq"] = dc

    s = Schedule("s")
    s.add_resource(ClockResource("q0.01", f))
    s.add(IdlePulse(20e-9))
    s.add(SquarePulse(0.5, 20e-9, "q0:mw", "q0.01"))
    df = ctx.real("df", -5e7, 5e7)
    s.add(SetClockFrequency("q0.01", clock_freq_new=f + df))
    s.add(IdlePulse(20e-9))
    s.add(SquarePulse(0.5, 20e-9, "q0:mw", "q0.01"))
    s.add(IdlePulse(20e-9))
    c = compile(s, config(d, tweak=tweak))
    ((key, st),) = sequencers(c).items()
    if mode == "ext":
        lo = c.compiled_instructions["generic"]["lo0.frequency"]
    else:
        ms = c.compiled_instructions["c0"]["c0_module1"]["settings"]
        lo = ms.lo0_freq
    ctx.check(st.nco_en is True, "the NCO is on")
    E = ctx.exact
    out = E(lo) + E(st.modulation_freq)
    want = E(dc) - E(f) if down else E(f)
    ctx.check(ctx.near(out, want, 0.01), "LO and NCO frequency add up to the clock frequency", lambda: (out, want))
    ctx.check(
        ctx.near(E(lo), E(LO), 0.01) if given == "lo" else ctx.near(E(st.modulation_freq), E(IF), 0.01),
        "the given LO or IF is used as given",
    )
    tr = q1asm.run(ctx, st.sequence["program"])
    plays = tr.of("play")
    ctx.check(len(plays) == 2, "both pulses play")
    ctx.check("set_freq" not in plays[0].par, "the first pulse has the initial frequency")
    nco = E(plays[1].par["set_freq"]) / 4 if "set_freq" in plays[1].par else E(st.modulation_freq)
    want = want - E(df) if down else want + E(df)
    ctx.check(ctx.near(E(lo) + nco, want, 0.15), "after a change of the clock frequency LO and NCO add up to the new one", lambda: (float(lo), float(nco), want))
    ctx.cover("end")


def shared_lo(ctx, modes, clocks=("q0.01", "q0.12")):
    """Two carriers on one output share its LO; the frequencies given for either are used."""
    E = ctx.exact
    mode, given = ctx.choice("mode", modes), (ctx.choice("g0", ["lo", "if", None]), ctx.choice("g1", ["lo", "if", None]))
    ctx.assume(given != (None, None))
    LO = ctx.real("lo", 3e9, 5e9)
    IF = [ctx.real(f"if{k}", -4e8, 4e8) for k in (0, 1)]
    ctx.assume(ctx.And(IF[0] != 0, IF[1] != 0))
    clocks = ctx.choice("names", [clocks, clocks[::-1]])
    pcs = [f"q0:mw-{c}" for c in clocks]
    freqs = {pc: ({"lo_freq": 1e9} if g == "lo" else {"interm_freq": 1e6}) for pc, g in zip(pcs, given) if g}
    graph, kw = [["c0.module1.complex_output_0", "q0:mw"]], {}
    if mode == "ext":
        graph = [["c0.module1.complex_output_0", "iq0.if"], ["lo0.output", "iq0.lo"], ["iq0.rf", "q0:mw"]]
        kw["instruments"] = {
            "lo0": {"instrument_type": "LocalOscillator", "power": 1},
            "iq0": {"instrument_type": "IQMixer"},
        }
    d = hw_dict({"1": {"instrument_type": "QCM" if mode == "ext" else mode}}, graph, {"modulation_frequencies": freqs}, **kw)

    def tweak(hw):
        for pc, g, i in zip(pcs, given, IF):
            if g:
                m = hw.hardware_options.modulation_frequencies[pc]
                m.__dict__["lo_freq" if g == "lo" else "interm_freq"] = LO if g == "lo" else i

    s = Schedule("s")
    for c, i in zip(clocks, IF):
        s.add_resource(ClockResource(c, LO + i))
    s.add(IdlePulse(20e-9))
    for c in clocks:
        s.add(SquarePulse(0.5, 20e-9, "q0:mw", c))
        s.add(IdlePulse(20e-9))
    try:
        c = compile(s, config(d, tweak=tweak))
    except ValueError as e:
        ctx.check(
            "lo" not in given and "underconstrained" in str(e), "frequencies that determine the LO are accepted", lambda: repr(e)[:300]
        )
        return
    if mode == "ext":
        lo = c.compiled_instructions["generic"]["lo0.frequency"]
    else:
        lo = c.compiled_instructions["c0"]["c0_module1"]["settings"].lo0_freq
    st = sorted(sequencers(c).items())
    ctx.check(len(st) == 2, "a sequencer for every carrier")
    order = sorted((0, 1), key=lambda k: pcs[k])
    for k, (_, q) in zip(order, st):
        ctx.check(q.nco_en is True, "the NCO is on")
        ctx.check(ctx.near(E(lo) + E(q.modulation_freq), E(LO) + E(IF[k]), 10), "LO and NCO add up to the clock frequency",
                  lambda: (float(lo), q.modulation_freq, k))
    ctx.check(ctx.near(E(lo), E(LO), 10), "the LO has the frequency given", lambda: (lo, LO))
    ctx.cover("end")


def HARNESSES(tier):
    one = ["SP", "PSP", "SSP", "PRP", "SPRSP", "FP", "PFPNP", "SFP"]
    two = ["SPp", "PspSP", "sPRp", "FPp", "PfpP"]
    big = ["SPSPRPSP", "SpSPsPp", "FPfPNPp", "SFSPRFP"]
    modes = [("rf", "lo", False), ("rf", "if", False), ("ext", "lo", False), ("ext", "if", False), ("rf_qrm", "lo", False)]
    down = [("rf", "lo", True), ("rf", "if", True)]
    b = "phases +-800 degrees, frequencies +-200 MHz, changes to +-400 MHz, gaps 8..2000 ns"
    return [
        H("one", phases, FUNCS, f"operations {one} on one clock; {b}", dict(layouts=one, reps=(1, 2)), ("end",)),
        H("two", phases, FUNCS, f"operations {two} on two clocks of a port; {b}", dict(layouts=two, reps=(1,)), ("end",)),
        H("loop", phases, FUNCS, f"operations {one[:6]} in a loop of 3; {b}", dict(layouts=one[:6], reps=(1, 2), loop=3), ("end",)),
        H("lo_if", lo_if, FUNCS, "RF modules and external LO, LO or IF given; clock 4..6 GHz, IF +-400 MHz", dict(modes=modes), ("end",)),
        H("downconverter", lo_if, FUNCS, "RF module with downconverter; clock 4..6 GHz", dict(modes=down), ("end",)),
        H("ports", ports, FUNCS, f"two clocks (names that start or end with each other) on two ports; {b}", dict(layouts=["SPp", "FPp", "pSFpP"]), ("end",)),
        H("shared_lo", shared_lo, FUNCS, "two clocks on the output of an RF module or a mixer with LO, LO or IF given for either; LO 3..5 GHz, IF +-400 MHz", dict(modes=["QCM_RF", "QRM_RF", "ext"]), ("end",)),
        H("big", phases, FUNCS, f"operations {big}; {b}", dict(layouts=big, reps=(1, 2)), ("end",), thorough_only=True),
    ]
