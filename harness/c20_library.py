"""C20: the schedules of the library play the experiments they document."""

from __future__ import annotations

import numpy as np

from harness.c22_gates import NUM, Device, flat, mod360, wrap
from quantify_scheduler.enums import BinMode
from quantify_scheduler.operations import *
from quantify_scheduler.schedules import *
from quantify_scheduler.schedules.timedomain_schedules import cpmg_sched, rabi_pulse_sched
from quantify_scheduler.schedules.two_qubit_transmon_schedules import chevron_cz_sched
from quantify_scheduler.schedules.verification import acquisition_staircase_sched, awg_staircase_sched, multiplexing_staircase_sched
from symx.runner import H

W = "quantify_scheduler.waveforms."
PULSED = ["schedules.timedomain_schedules, spectroscopy_schedules, trace_schedules, verification", "SerialCompiler.compile: device compilation, absolute timing"]
CIRCUIT = ["schedules.timedomain_schedules", "Schedule.add", *PULSED[1:]]


def events(c):
    """What is played and acquired, by port and clock, each in the order of time as added."""
    out = {}
    for t, p, kind in flat(c):
        if kind == "acquisition":
            k = "acq"
        elif p["wf_func"] is not None:
            k = "pulse"
        elif p.get("clock_freq_new") is not None:
            k = "freq"
        elif p.get("offset_path_I") is not None:
            k = "offset"
        else:
            continue
        out.setdefault((k, p["port"], p["clock"]), []).append((t, p))
    return out


class Expect:
    def __init__(self, ctx):
        self.ctx, self.all, self.end = ctx, {}, 0

    def add(self, k, port, clock, t, **fields):
        self.all.setdefault((k, port, clock), []).append((t, fields))

    def square(self, port, clock, t, amp, dur):
        self.add("pulse", port, clock, t, wf_func=W + "square", amp=amp, duration=dur)

    def acq(self, port, clock, t, dur, ch, **more):
        self.add("acq", port, clock, t, duration=dur, acq_channel=ch, **more)

    def check(self, c):
        ctx, got = self.ctx, events(c)
        ctx.check(set(got) == set(self.all), "these ports and clocks are used", lambda: (set(got), set(self.all)))
        for k, exp in self.all.items():
            ev = got[k]
            ctx.check(len(ev) == len(exp), "every pulse and acquisition once", lambda: (k, ev, exp))
            for (t, p), (u, f) in zip(ev, exp):
                ctx.check(ctx.near(t, u, 1e-12), "pulses and acquisitions are on time", lambda: (k, t, u))
                for key, v in f.items():
                    g = p[key]
                    if key == "phase":
                        ok = mod360(ctx, g - ctx.exact(v))
                    elif isinstance(v, (str, BinMode)) or v is None:
                        ok = g == v
                    else:
                        ok = ctx.near(g, v, 1e-9 if key in ("amp", "G_amp", "D_amp") else 1e-13 if key == "duration" else 1e-3)
                    ctx.check(ok, f"{key} as asked for", lambda: (k, t, key, g, v))
        ctx.cover("end")


class Circuit(Expect):
    """Gates of one qubit, as its device parameters prescribe."""

    def __init__(self, ctx, names=("q0",)):
        super().__init__(ctx)
        self.d = Device(ctx, ro=True, names=names)
        self.p = self.d.q["q0"]
        self.t = 0

    def reset(self):
        self.t = self.t + self.p["reset"]
        return self.t

    def rxy(self, theta, phi=0, t=None):
        ctx, p = self.ctx, self.p
        t = self.t if t is None else t
        self.add("pulse", "q0:mw", "q0.01", t, wf_func=W + "drag", G_amp=p["amp180"] * theta / 180, duration=p["dur"], phase=phi)
        self.t = t + p["dur"]
        return t

    def measure(self, t=None, **more):
        p = self.p
        t = self.t if t is None else t
        self.square("q0:res", "q0.ro", t, p["ro_amp"], p["ro_dur"])
        self.acq("q0:res", "q0.ro", t + p["acq_delay"], p["acq_dur"], "ch0", **more)
        a, b = p["ro_dur"], p["acq_delay"] + p["acq_dur"]
        self.t = t + (a if self.ctx.branch(a >= b) else b)
        return t

    def run(self, s):
        self.check(self.d.compile(s))


def times(ctx, n, lo=0, hi=100000, unit=1):
    """Lists (or a number) of times."""
    n = n if ctx.choice("several", [False, True]) else 1
    return [ctx.int(f"t{i}", lo, hi) * unit * 1e-9 for i in range(n)]


def scalar(ctx, x):
    return x[0] if len(x) == 1 and ctx.choice("scalar", [False, True]) else x


def t1(ctx, n):
    e, x = Circuit(ctx), times(ctx, n, 20)
    s = t1_sched(scalar(ctx, x), "q0", repetitions=7)
    for tau in x:
        e.reset()
        e.measure(e.rxy(180) + tau)
    ctx.check(s.repetitions == 7, "repetitions as asked for")
    e.run(s)


def ramsey(ctx, n, detunings):
    e, x = Circuit(ctx), times(ctx, n, 20)
    f = ctx.choice("detuning", detunings)
    s = ramsey_sched(scalar(ctx, x), "q0", artificial_detuning=f, repetitions=7)
    for tau in x:
        e.reset()
        e.rxy(90, 360 * f * tau, e.rxy(90) + tau)
        e.measure()
    ctx.check(s.repetitions == 7, "repetitions as asked for")
    e.run(s)


def echo(ctx, n):
    e, x = Circuit(ctx), times(ctx, n, 20, unit=2)
    s = echo_sched(scalar(ctx, x), "q0", repetitions=7)
    for tau in x:
        e.reset()
        t = e.rxy(90)
        e.rxy(180, 0, t + tau / 2)
        e.rxy(90, 0, t + tau)
        e.measure()
    ctx.check(s.repetitions == 7, "repetitions as asked for")
    e.run(s)


def cpmg(ctx, n, gates, detunings):
    N, variant = ctx.choice("gates", gates), ctx.choice("variant", ["X", "Y", "XY"])
    ctx.assume(N > 1 or variant != "XY")
    e, x = Circuit(ctx), times(ctx, n, 40, unit=2 * N)
    f = ctx.choice("detuning", detunings)
    s = cpmg_sched(N, scalar(ctx, x), "q0", variant=variant, artificial_detuning=f, repetitions=7)
    for tau in x:
        e.reset()
        t = e.rxy(90) + 4e-9  # documented in the code: the loop begins 4 ns later
        for i in range(N):
            e.rxy(180, 90 if variant == "Y" or (variant == "XY" and i % 2) else 0, t + tau * (2 * i + 1) / (2 * N))
        e.rxy(90, 360 * f * tau, t + tau)
        e.measure()
    ctx.check(s.repetitions == 7, "repetitions as asked for")
    e.run(s)


#: (180: pi, 90: pi/2; axis) as in section 5.2.3 of Reed's thesis
ALLXY = "ii XX YY XY YX xi yi xy yx xY yX Xy Yx xX Xx yY Yy Xi Yi xx yy".split()
ROT = {"i": (0, 0), "X": (180, 0), "Y": (180, 90), "x": (90, 0), "y": (90, 90)}


def allxy(ctx):
    e = Circuit(ctx)
    mode = ctx.choice("mode", ["all", "single", "list"])
    idx = list(range(21)) if mode == "all" else [ctx.choice("first", list(range(21)))]
    if mode == "list":
        idx.append(ctx.choice("second", [0, 7, 20]))
    s = allxy_sched("q0", repetitions=7) if mode == "all" else allxy_sched("q0", idx[0] if mode == "single" else idx, repetitions=7)
    for i in idx:
        e.reset()
        for g in ALLXY[i]:
            e.rxy(*ROT[g])
        e.measure()
    e.run(s)


def readout(ctx):
    e = Circuit(ctx)
    states = ctx.choice("states", [[0], [1], [0, 1], [1, 0, 1]])
    s = readout_calibration_sched("q0", states, repetitions=7)
    for x in states:
        e.reset()
        if x:
            e.rxy(180)
        e.measure(bin_mode=BinMode.APPEND)
    e.run(s)


def trace(ctx):
    e = Circuit(ctx)
    e.measure(protocol="Trace")
    e.run(trace_schedule_circuit_layer("q0", repetitions=7))


def rabi(ctx, n):
    e = Circuit(ctx)
    kind = ctx.choice("kind", ["amps", "durations", "both", "one"])
    k = 1 if kind == "one" else n
    na, nd = k if kind != "durations" else 1, k if kind != "amps" else 1
    amps = [ctx.real(f"a{i}", -1, 1) for i in range(na)]
    durs = [ctx.int(f"d{i}", 4, 2000) * 1e-9 for i in range(nd)]
    named = ctx.choice("named", [False, True])
    more = dict(port="q7:fl", clock="q7.x") if named else {}
    s = rabi_sched(amps if na > 1 else amps[0], durs if nd > 1 else durs[0], 5.25e9, "q0", **more, repetitions=7)
    for i in range(k):
        e.reset()
        a, d = amps[i % na], durs[i % nd]
        e.add("pulse", *((more["port"], more["clock"]) if named else ("q0:mw", "q0.01")), e.t, wf_func=W + "drag", G_amp=a, D_amp=0, duration=d, phase=0)
        e.t = e.t + d
        e.measure()
    c = e.d.compile(s)
    e.check(c)
    ctx.check(ctx.near(c.resources[more.get("clock", "q0.01")]["freq"], 5.25e9, 1e-3), "frequency as asked for")


def pulses(ctx, names):
    """Schedules of pulses."""
    which = ctx.choice("schedule", names)
    e = Expect(ctx)

    def time(n, lo, hi):
        return ctx.int(n, lo, hi) * 1e-9

    init = time("init", 4, 300000)
    ro = dict(amp=ctx.real("ro_amp", -1, 1), dur=time("ro_dur", 4, 20000))
    acq = dict(delay=time("acq_delay", -1000, 5000), dur=time("acq_dur", 4, 20000))
    # the delay may be negative, but nothing comes before the dead time
    ctx.assume(init + acq["delay"] >= 0)
    f = [ctx.real(f"f{i}", 1e6, 9e9) for i in range(3)]
    d = Device(ctx, names=("q0",))
    probe = dict(ro_pulse_amp=ro["amp"], ro_pulse_duration=ro["dur"], ro_pulse_port="r", ro_pulse_clock="r.c", ro_pulse_frequency=f[0], ro_acquisition_delay=acq["delay"], ro_integration_time=acq["dur"])
    want = {"r.c": f[0]}
    t = init
    if which in ("heterodyne", "trace"):
        more = {}
        out = "r"
        if which == "heterodyne":
            out = ctx.choice("port_out", ["r", "o"])
            if out != "r":
                more = dict(port_out=out)
            fn, shift = heterodyne_spec_sched, 0
        else:
            fn, shift = trace_schedule, time("shift", 0, 5000)
            more = dict(pulse_delay=shift)
        s = fn(pulse_amp=ro["amp"], pulse_duration=ro["dur"], frequency=f[0], acquisition_delay=acq["delay"], integration_time=acq["dur"], port="r", clock="r.c", init_duration=init, repetitions=7, **more)
        t = t + shift
        e.square(out, "r.c", t, ro["amp"], ro["dur"])
        e.acq("r", "r.c", t + acq["delay"], acq["dur"], 0, protocol="SSBIntegrationComplex" if which == "heterodyne" else "Trace")
    elif which in ("two_tone", "two_tone_trace", "rabi_pulse"):
        a, w, delay = ctx.real("amp", -1, 1), time("dur", 4, 20000), time("delay", 0, 5000)
        want["m.c"] = f[1]
        if which == "rabi_pulse":
            D = ctx.real("D", -1, 1)
            s = rabi_pulse_sched(mw_G_amp=a, mw_D_amp=D, mw_frequency=f[1], mw_clock="m.c", mw_port="m", mw_pulse_duration=w, ro_pulse_delay=delay, init_duration=init, repetitions=7, **probe)
            e.add("pulse", "m", "m.c", t, wf_func=W + "drag", G_amp=a, D_amp=D, duration=w, phase=0)
        else:
            n = "spec" if which == "two_tone" else "qubit"
            fn = two_tone_spec_sched if which == "two_tone" else two_tone_trace_schedule
            s = fn(**{f"{n}_pulse_amp": a, f"{n}_pulse_duration": w, f"{n}_pulse_port": "m", f"{n}_pulse_clock": "m.c", f"{n}_pulse_frequency": f[1]}, ro_pulse_delay=delay, init_duration=init, repetitions=7, **probe)
            e.square("m", "m.c", t, a, w)
        t = t + w + delay
        e.square("r", "r.c", t, ro["amp"], ro["dur"])
        e.acq("r", "r.c", t + acq["delay"], acq["dur"], 0, protocol="Trace" if which == "two_tone_trace" else "SSBIntegrationComplex")
    elif which in ("acq_staircase", "awg_staircase"):
        amps = [ctx.real(f"a{i}", -1, 1) for i in range(3)]
        amps = amps[:1] if ctx.choice("one", [False, True]) else amps
        given = amps[0] if len(amps) == 1 else amps
        rest = dict(readout_frequency=f[0], acquisition_delay=acq["delay"], integration_time=acq["dur"], init_duration=init, acq_channel="c", repetitions=7)
        if which == "acq_staircase":
            s = acquisition_staircase_sched(given, ro["dur"], port="r", clock="r.c", **rest)
            out = ("r", "r.c")
        else:
            s = awg_staircase_sched(given, ro["dur"], mw_port="m", ro_port="r", mw_clock="m.c", ro_clock="r.c", **rest)
            out, want["m.c"] = ("m", "m.c"), f[0]
        t = 0
        for a in amps:
            t = t + init
            e.square(*out, t, a, ro["dur"])
            e.acq("r", "r.c", t + acq["delay"], acq["dur"], "c")
            t = t + acq["delay"] + acq["dur"]  # the next follows the acquisition
    elif which in ("heterodyne_nco", "two_tone_nco"):
        f = f if ctx.choice("frequencies", [1, 3]) == 3 else f[:1]
        freqs, t = np.array(f, dtype=object), 0
        two = which == "two_tone_nco"
        if two:
            a, w, delay = ctx.real("amp", -1, 1), time("dur", 4, 20000), time("delay", 0, 5000)
            probe["ro_pulse_frequency"] = want["r.c"] = 7.04e9
            s = two_tone_spec_sched_nco(a, w, "m", "m.c", freqs, ro_pulse_delay=delay, init_duration=init, repetitions=7, **probe)
        else:
            out = ctx.choice("port_out", ["r", "o"])
            s = heterodyne_spec_sched_nco(ro["amp"], ro["dur"], freqs, acq["delay"], acq["dur"], "r", "r.c", init, 7, None if out == "r" else out)
        for i, x in enumerate(f):
            t = t + init
            e.add("freq", None, "m.c" if two else "r.c", t, clock_freq_new=x)
            if two:
                e.square("m", "m.c", t, a, w)
                t = t + w + delay
            e.square("r" if two else out, "r.c", t, ro["amp"], ro["dur"])
            e.acq("r", "r.c", t + acq["delay"], acq["dur"], 0, acq_index=i, bin_mode=BinMode.AVERAGE)
            t = t + acq["delay"] + acq["dur"]
    elif which == "multiplexing":
        amps = [ctx.real(f"a{i}", -1, 1) for i in range(3)]
        s = multiplexing_staircase_sched(amps, ro["dur"], acq["delay"], acq["dur"], "r", "r.c", "r.d", f[0], f[1], init, 7)
        want["r.d"] = f[1]
        for i in range(3):
            for ch, (clk, a) in enumerate([("r.c", amps[i]), ("r.d", amps[2 - i])]):
                e.square("r", clk, t, a, ro["dur"])
                e.acq("r", clk, t + acq["delay"], acq["dur"], ch)
            t = t + ro["dur"]
    ctx.check(s.repetitions == 7, "repetitions as asked for")
    c = d.compile(s)
    e.check(c)
    for clk, x in want.items():
        ctx.check(ctx.near(c.resources[clk]["freq"], x, 1e-3), "frequency as asked for", lambda: (clk, c.resources[clk], x))


def chevron(ctx, n):
    """Both qubits are excited, then the flux pulse, then both are measured."""
    e = Circuit(ctx, ("q0", "q1"))
    lf, hf = ctx.choice("qubits", [("q0", "q1"), ("q1", "q0")])
    port = ctx.choice("port", [None, "q5:x"])
    amps, d = [ctx.real(f"a{i}", -1, 1) for i in range(n)], ctx.int("d", 4, 2000) * 1e-9
    amps = amps[:1] if ctx.choice("one", [False, True]) else amps
    s = chevron_cz_sched(lf, hf, amps if len(amps) > 1 else amps[0], d, **({"flux_port": port} if port else {}), repetitions=7)
    ctx.check(s.repetitions == 7, "repetitions as asked for")

    def later(a, b):
        return a if ctx.branch(a >= b) else b

    if len(amps) > 1:  # for fewer cases
        for p in e.d.q.values():
            ctx.assume(p["acq_delay"] + p["acq_dur"] >= p["ro_dur"])
    t = 0
    for a in amps:
        ps = [e.d.q[q] for q in (lf, hf)]
        t = t + later(ps[0]["reset"], ps[1]["reset"])
        for q, p in zip((lf, hf), ps):
            e.add("pulse", f"{q}:mw", f"{q}.01", t, wf_func=W + "drag", G_amp=p["amp180"], duration=p["dur"], phase=0)
        t = t + later(ps[0]["dur"], ps[1]["dur"])
        e.square(port or f"{hf}:fl", "cl0.baseband", t, a, d)
        t, end = t + d, 0
        for q, p in zip((lf, hf), ps):
            e.square(f"{q}:res", f"{q}.ro", t, p["ro_amp"], p["ro_dur"])
            e.acq(f"{q}:res", f"{q}.ro", t + p["acq_delay"], p["acq_dur"], p["ch"])
            end = later(later(t + p["ro_dur"], t + p["acq_delay"] + p["acq_dur"]), end)
        t = end
    e.run(s)


def HARNESSES(tier):
    n = 3 if tier == "thorough" else 2
    dev = "any drive amplitude, reset, readout and acquisition times of the device element"
    names = ["heterodyne", "trace", "two_tone", "two_tone_trace", "rabi_pulse", "acq_staircase", "awg_staircase", "multiplexing", "heterodyne_nco", "two_tone_nco"]
    det = [0, 250e3, -1e6]
    return [
        H("t1", t1, CIRCUIT, f"{n} waiting times of 20..100000 ns, and a single one; {dev}", dict(n=n), ("end",)),
        H("ramsey", ramsey, CIRCUIT, f"{n} waiting times, detunings {det}; {dev}", dict(n=n, detunings=det), ("end",)),
        H("echo", echo, CIRCUIT, f"{n} waiting times; {dev}", dict(n=n), ("end",)),
        H("cpmg", cpmg, CIRCUIT, f"{n} waiting times, 1, 2 or 4 gates, every variant, detunings {det[:2]}; {dev}", dict(n=n, gates=[1, 2, 4], detunings=det[:2]), ("end",)),
        H("allxy", allxy, CIRCUIT, f"all 21 combinations, each alone and pairs; {dev}", dict(), ("end",)),
        H("readout", readout, CIRCUIT, f"up to three states; {dev}", dict(), ("end",)),
        H("trace", trace, CIRCUIT, f"{dev}", dict(), ("end",)),
        H("rabi", rabi, CIRCUIT, f"{n} amplitudes and/or durations of 4..2000 ns; {dev}", dict(n=n), ("end",)),
        H("chevron", chevron, CIRCUIT, f"{n} amplitudes (acquisitions ending after the readout pulse) or one, flux pulse of 4..2000 ns; {dev}", dict(n=n), ("end",)),
        H("pulses", pulses, PULSED, f"{names}: any amplitude in [-1, 1], time and frequency; up to 3 amplitudes or frequencies; acquisition delays of -1000..5000 ns not before the dead time begins", dict(names=names), ("end",)),
    ]
