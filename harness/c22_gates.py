"""C22: a circuit becomes the pulses its device parameters prescribe, with the right phases and times."""

from __future__ import annotations

import warnings

import numpy as np
from qcodes.instrument import Instrument
from qcodes.utils import validators

from quantify_scheduler import Schedule
from quantify_scheduler.backends.graph_compilation import OperationCompilationConfig, SerialCompiler
from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.device_under_test.spin_element import BasicSpinElement
from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
from quantify_scheduler.enums import BinMode
from quantify_scheduler.operations import *
from quantify_scheduler.operations.composite_factories import cnot_as_h_cz_h
from quantify_scheduler.operations.gate_library import *
from symx.runner import H as Harness

FUNCS = [
    "SerialCompiler.compile: merge_rz_gates, circuit_to_device (single, two-element, multiplexed), absolute timing",
    "QuantumDevice.generate_compilation_config, device elements and edges; pulse, measurement and composite factories",
]


NUM = 3


def put(par, value):
    par.vals = validators.Anything()
    par(value)


class Device:
    """Two device elements and an edge from the first to the second, with symbolic parameters."""

    def __init__(self, ctx, cls=BasicTransmonElement, ro=False, cz=False, names=("q0", "q1")):
        Instrument.close_all()
        self.q = {}
        self.qd = QuantumDevice("dev")
        self.els = []
        self.names = names
        for i, n in enumerate(names):
            e = cls(n)
            p = {}

            def new(name, lo, hi, par, i=i, p=p):
                p[name] = ctx.real(f"{name}{i}", lo, hi)
                put(par, p[name])

            def time(name, lo, hi, par, i=i, p=p):
                p[name] = ctx.ns(f"{name}{i}", lo, hi)[0]
                put(par, p[name])

            new("amp180", -1, 1, e.rxy.amp180)
            if hasattr(e.rxy, "motzoi"):
                new("motzoi", -0.5, 0.5, e.rxy.motzoi)
            p["dur"] = (20 + 4 * i) * 1e-9
            e.rxy.duration(p["dur"])
            time("reset", 1000, 300000, e.reset.duration)
            for par in e.clock_freqs.parameters.values():
                par(5e9)
            if ro:
                new("ro_amp", -1, 1, e.measure.pulse_amp)
                time("ro_dur", 100, 2000, e.measure.pulse_duration)
                time("acq_delay", 0, 1000, e.measure.acq_delay)
                time("acq_dur", 100, 2000, e.measure.integration_time)
                e.measure.acq_channel(f"ch{i}")
                e.measure.num_points(NUM)
                p["ch"] = f"ch{i}"
            self.q[n] = p
            self.els.append(e)
            self.qd.add_element(e)
        self.clk = "01" if cls is BasicTransmonElement else "f_larmor"
        if cz:
            edge = CompositeSquareEdge(*names)
            self.cz = dict(
                amp=ctx.real("cz_amp", -1, 1),
                dur=4e-8,
                parent=ctx.real("cz_p", -360, 360),
                child=ctx.real("cz_c", -360, 360),
            )
            put(edge.cz.square_amp, self.cz["amp"])
            put(edge.cz.square_duration, self.cz["dur"])
            put(edge.cz.parameters[f"{names[0]}_phase_correction"], self.cz["parent"])
            put(edge.cz.parameters[f"{names[1]}_phase_correction"], self.cz["child"])
            self.qd.add_edge(edge)

    def compile(self, s):
        return SerialCompiler("c").compile(s, self.config())

    def config(self, hw=None):
        try:
            if hw:
                self.qd.hardware_config(hw)
            cfg = self.qd.generate_compilation_config()
            for e in cfg.device_compilation_config.edges.values():
                e["CNOT"] = OperationCompilationConfig(
                    factory_func=cnot_as_h_cz_h,
                    factory_kwargs=dict(control_qubit=self.names[0], target_qubit=self.names[1]),
                )
        finally:
            Instrument.close_all()
        return cfg


def flat(op, t=0.0):
    """(time, info, kind) of everything in a compiled schedule, in the order in which it is played."""
    out = []
    if isinstance(op, Schedule) or hasattr(op, "schedulables"):
        for sc in op.schedulables.values():
            out += flat(op.operations[sc["operation_id"]], t + sc["abs_time"])
        return out
    if isinstance(op, LoopOperation):
        for _ in range(op.data["control_flow_info"]["repetitions"]):
            out += flat(op.body, t)
            t = t + op.body.duration
        return out
    for kind in ("pulse", "acquisition"):
        for p in op.data[f"{kind}_info"]:
            out.append((t + p["t0"], p, kind))
    return out


def mod360(ctx, x, tol=1e-6):
    k = ctx.exact(x) / 360
    return ctx.near(ctx.exact(x) - 360 * round(k), 0, tol)


def wrap(ctx, theta):
    """The angle in (-180, 180] equivalent to theta (exact)."""
    t = ctx.exact(theta)
    for k in (-2, -1, 0, 1, 2):
        if ctx.branch(t > -180 + 360 * k) and ctx.branch(t <= 180 + 360 * k):
            return t - 360 * k
    ctx.assume(False)


def angle(ctx, name):
    k = ctx.int(name, -1600, 1600)
    ctx.assume(ctx.And(*[k != 1440 + 2880 * i for i in (-1, 0)]))  # +-180 degrees: see X
    return k * 0.125


def gates(ctx, layouts, cls=BasicTransmonElement, cz=False, names=("q0", "q1")):
    """R: rotation, Z: virtual rotation, O: rotation with overridden amplitude, A: Hadamard, X: X gate; lower case
    repeats the previous rotation/virtual rotation object of that kind.  C: CZ, c: CZ with swapped elements, N: CNOT."""
    dev = Device(ctx, cls, cz=cz, names=names)
    s = Schedule("s")
    E = ctx.exact
    ph = dict.fromkeys(names, E(0))
    want = []  # (qubit, kind, angle, amp180, axis + accumulated phase)
    last = {}
    first = None

    def rot(n, theta, phi, amp, d):
        want.append((n, "drive", E(theta), amp, E(phi) + ph[n], d))

    def hadamard(n):
        ph[n] = ph[n] + 180
        p = dev.q[n]
        rot(n, 90, 90, p["amp180"], p["dur"])

    def czgate():
        ph[names[0]] = ph[names[0]] + E(dev.cz["parent"])
        ph[names[1]] = ph[names[1]] + E(dev.cz["child"])

    seq = ctx.choice("layout", layouts)
    for i, x in enumerate(zip(seq[::2], seq[1::2])):
        k, n = x[0], names[int(x[1])]
        p = dev.q[n]
        if k == "R":
            last["R"] = (angle(ctx, f"th{i}"), angle(ctx, f"phi{i}"))
        if k in "Rr":
            th, phi = last["R"]
            if k == "R":
                last["Rop"] = Rxy(th, phi, n)
            sc = s.add(last["Rop"])
            first = first or sc
            rot(n, wrap(ctx, th), phi, p["amp180"], p["dur"])
        elif k == "O":
            th, phi, a = angle(ctx, f"th{i}"), 0, ctx.real(f"o{i}", -1, 1)
            d = 32e-9
            s.add(Rxy(th, phi, n, amp180=a, duration=d))
            rot(n, wrap(ctx, th), phi, a, d)
        elif k == "X":
            s.add(X(n))
            rot(n, 180, 0, p["amp180"], p["dur"])
        elif k in "Zz":
            if k == "Z":
                last["Z"] = angle(ctx, f"z{i}")
                last["op"] = Rz(last["Z"], n)
            s.add(last["op"])
            ph[n] = ph[n] + E(last["Z"])
        elif k == "B":
            # between the first two gates, which are 100 ns apart
            z = angle(ctx, f"z{i}")
            s.add(Rz(z, n), ref_op=first, ref_pt="end", rel_time=40e-9)
            for j, w in enumerate(want):
                if j and w[0] == n and w[1] == "drive":
                    want[j] = (*w[:4], w[4] + E(z), *w[5:])
            ph[n] = ph[n] + E(z)
        elif k == "G":
            s.add(IdlePulse(100e-9))
            want.append((n, "gap", 100e-9))
        elif k == "A":
            s.add(H(n))
            hadamard(n)
        elif k in "Cc":
            s.add(CZ(*names) if k == "C" else CZ(*names[::-1]))
            czgate()
            want.append((names[0], "cz"))
        elif k == "N":
            s.add(CNOT(*names))
            hadamard(names[1])
            czgate()
            want.append((names[0], "cz"))
            hadamard(names[1])
    cs = dev.compile(s)
    ev = sorted(flat(cs), key=lambda e: round(e[0] * 1e12))
    shift = dict.fromkeys(names, E(0))
    got = []
    t = 0.0
    for t0, p, kind in ev:
        ctx.check(kind == "pulse", "gates compile to pulses")
        if "phase_shift" in p:
            n = p["clock"].split(".")[0]
            ctx.check(p["clock"] == f"{n}.{dev.clk}" and n in shift, "a virtual rotation acts on the clock of its qubit")
            shift[n] = shift[n] + E(p["phase_shift"])
        elif p["wf_func"] is not None:
            got.append((t0, p, dict(shift)))
    ctx.check(len(got) == len([w for w in want if w[1] != "gap"]), "one pulse per rotation", lambda: (len(got), len(want)))
    got = iter(got)
    for w in want:
        n = w[0]
        if w[1] == "gap":
            t = t + w[2]
            continue
        t0, p, sh = next(got)
        ctx.check(ctx.near(t0, t, 1e-15), "gates follow one another", lambda: (t0, t))
        if w[1] == "cz":
            ctx.check(p["port"] == f"{n}:fl", "the CZ pulse is on the flux port of the parent")
            ctx.check(ctx.near(p["amp"], dev.cz["amp"], 1e-9), "CZ amplitude")
            d = dev.cz["dur"]
        else:
            ctx.check(p["port"] == f"{n}:mw" and p["clock"] == f"{n}.{dev.clk}", "a rotation is played on the port and clock of its qubit")
            g = p["G_amp"]
            ctx.check(ctx.near(E(g) * 180, w[2] * E(w[3]), 1e-6), "the amplitude is amp180 times the angle over 180 degrees", lambda: (g, w))
            if "motzoi" in dev.q[n]:
                ctx.check(ctx.near(p["D_amp"], dev.q[n]["motzoi"], 1e-9), "the derivative amplitude is the motzoi parameter")
            ctx.check(mod360(ctx, E(p["phase"]) + sh[n] - w[4]), "the phase is that of the axis plus all virtual rotations", lambda: (p["phase"], sh[n], w[4]))
            d = w[5]
        ctx.check(ctx.near(p["duration"], d, 1e-15), "duration of the pulse")
        t = t + d
    for n in names:
        ctx.check(mod360(ctx, shift[n] - ph[n]), "the phase at the end is the sum of all virtual rotations", lambda: (shift[n], ph[n]))
    ctx.check(ctx.near(cs.duration, t, 1e-15), "the circuit takes as long as its pulses")
    ctx.cover("end")


def unitary(ctx, layouts):
    """The rotations played are the product of the unitaries of the gates: a virtual rotation by a turns the axes of the
    rotations after it by -a."""
    dev = Device(ctx)
    s = Schedule("s")
    z, want = ctx.exact(0), []
    for i, k in enumerate(ctx.choice("layout", layouts)):
        if k == "R":
            phi = angle(ctx, f"phi{i}")
            s.add(Rxy(90, phi, "q0"))
            want.append(ctx.exact(phi) - z)
        else:
            a = angle(ctx, f"z{i}")
            s.add(Rz(a, "q0"))
            z = z + ctx.exact(a)
    sh, got = ctx.exact(0), []
    for _, p, _ in flat(dev.compile(s)):
        if "phase_shift" in p:
            sh = sh + ctx.exact(p["phase_shift"])
        elif p["wf_func"] is not None:
            got.append(ctx.exact(p["phase"]) + sh)
    for g, w in zip(got, want):
        ctx.check(mod360(ctx, g - w), "a circuit does what the product of its unitaries says", lambda: (g, w))
    ctx.cover("end")


def measure(ctx, layouts, cls=BasicTransmonElement, proto="SSBIntegrationComplex"):
    """m/M: measure of one element (with / without waiting for the acquisition), D: of both; I: reset; X: a gate on q0;
    F: with frequency override, f: the same without waiting, o: with overridden amplitude and delay."""
    dev = Device(ctx, cls, ro=True)
    s = Schedule("s")
    E = ctx.exact
    t, want = 0.0, []
    seq = ctx.choice("layout", layouts)
    mx = ctx.choice("mode", [BinMode.AVERAGE, BinMode.APPEND])
    total = 0.0

    def bigger(a, b):
        return a if ctx.branch(a >= b) else b

    def trace(n, t):
        p = dev.q[n]
        for j in range(NUM):
            long.append((n, t + p["acq_delay"] + j * p["acq_dur"]))
        offs.append((n, t, p["ro_amp"]))
        end = t + p["acq_delay"] + NUM * p["acq_dur"]
        offs.append((n, end, 0.0))
        return end + 4e-9

    long, offs = [], []

    def ro(n, t, idx, amp=None, delay=None, freq=None):
        p = dev.q[n]
        delay = p["acq_delay"] if delay is None else delay
        want.append((n, t, t + delay, p["ro_amp"] if amp is None else amp, idx, freq))
        return bigger(p["ro_dur"], delay + p["acq_dur"])

    k = 0
    for i, x in enumerate(seq):
        kw = dict(bin_mode=mx, acq_protocol=proto)
        if x in "mMFfo01":
            n = "q1" if x == "1" else "q0"
            wait = x not in "mf"
            ov = {}
            if x in "Ff":
                ov["freq"] = ctx.real(f"freq{i}", 4e9, 7e9)
            if x == "o":
                ov = dict(pulse_amp=ctx.real(f"oamp{i}", -1, 1), acq_delay=ctx.ns(f"odel{i}", 0, 1000)[0])
            s.add(Measure(n, acq_index=k, apply_acquisition_delay=wait, **kw, **ov))
            d = ro(n, t, k, ov.get("pulse_amp"), ov.get("acq_delay"), ov.get("freq"))
            end = t + d
            total = bigger(total, end)
            t = end if wait else end - dev.q[n]["acq_delay"]
        elif x in "DE":
            wait = x == "D"
            s.add(Measure("q0", "q1", acq_index=(k, k + 7), apply_acquisition_delay=wait, **kw))
            d0, d1 = ro("q0", t, k), ro("q1", t, k + 7)
            end = t + bigger(d0, d1)
            total = bigger(total, end)
            if not wait:
                end = end - bigger(dev.q["q0"]["acq_delay"], dev.q["q1"]["acq_delay"])
            t = end
        elif x == "I":
            s.add(Reset("q0", "q1"))
            t = t + bigger(dev.q["q0"]["reset"], dev.q["q1"]["reset"])
        elif x in "Ll":
            n = "q0" if x == "L" else "q1"
            s.add(Measure(n, acq_protocol="LongTimeTrace", bin_mode=BinMode.APPEND))
            t = trace(n, t)
        elif x == "X":
            s.add(X("q0"))
            want.append(("gate", t))
            t = t + dev.q["q0"]["dur"]
        k += 1
    total = bigger(total, t)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cs = dev.compile(s)
    got, acqs, gates, freqs, gl, go = [], [], [], [], [], []
    for t0, p, kind in flat(cs):
        if long and kind == "acquisition" and p["acq_index"] is None:
            gl.append((t0, p))
            continue
        if p.get("offset_path_I") is not None:
            go.append((t0, p))
            continue
        if kind == "acquisition":
            acqs.append((t0, p))
        elif "clock_freq_new" in p:
            freqs.append((t0, p))
        elif p.get("reset_clock_phase"):
            continue
        elif p["wf_func"] is not None:
            (gates if p["port"].endswith("mw") else got).append((t0, p))
    ctx.check(len(gl) == len(long) and len(go) == len(offs), "a long time trace has all its points")
    for (t0, p), (n, w) in zip(gl, long):
        ctx.check(ctx.near(t0, w, 1e-15), "a long time trace follows on without gaps", lambda: (t0, w))
        ctx.check(p["acq_channel"] == dev.q[n]["ch"] and p["port"] == f"{n}:res", "a long time trace uses the channel of its element")
        ctx.check(ctx.near(p["duration"], dev.q[n]["acq_dur"], 1e-15), "duration of the points of a long time trace")
    for (t0, p), (n, w, a) in zip(go, offs):
        ctx.check(ctx.near(t0, w, 1e-15) and p["port"] == f"{n}:res", "the tone is on during a long time trace", lambda: (t0, w))
        ctx.check(ctx.near(p["offset_path_I"], a, 1e-12), "amplitude during a long time trace")
    wr = [w for w in want if w[0] != "gate"]
    wg = [w for w in want if w[0] == "gate"]
    ctx.check(len(got) == len(wr) == len(acqs), "one readout pulse and acquisition per measurement")
    ctx.check(len(gates) == len(wg), "every gate is played")
    for (t0, p), (_, w) in zip(gates, wg):
        ctx.check(ctx.near(t0, w, 1e-15), "gates start when the operation before them is over", lambda: (t0, w))
    for (t0, p), w in zip(got, wr):
        n = w[0]
        q = dev.q[n]
        ctx.check(p["port"] == f"{n}:res" and p["clock"] == f"{n}.ro", "the readout pulse is on the port and clock of its element")
        ctx.check(ctx.near(t0, w[1], 1e-15), "a measurement starts when the operation before it is over", lambda: (t0, w[1]))
        ctx.check(ctx.near(p["amp"], w[3], 1e-12), "readout amplitude")
        ctx.check(ctx.near(p["duration"], q["ro_dur"], 1e-15), "readout duration")
    for (t0, p), w in zip(acqs, wr):
        n = w[0]
        q = dev.q[n]
        ctx.check(p["port"] == f"{n}:res" and p["clock"] == f"{n}.ro", "the acquisition is on the port and clock of its element")
        ctx.check(ctx.near(t0, w[2], 1e-15), "the acquisition starts after its delay", lambda: (t0, w[2]))
        ctx.check(ctx.near(p["duration"], q["acq_dur"], 1e-15), "integration time")
        ctx.check(p["acq_channel"] == q["ch"] and p["acq_index"] == w[4], "acquisition channel and index", lambda: (p["acq_channel"], p["acq_index"], w))
        ctx.check(p["bin_mode"] == mx and p["protocol"] == proto, "bin mode and protocol")
        # the frequency during the whole acquisition
        cur, inside = None, []
        for tf, pf in freqs:
            if pf["clock"] != f"{n}.ro":
                continue
            if ctx.branch(tf <= t0 + 1e-12):
                cur = pf["clock_freq_new"]
            elif ctx.branch(tf < t0 + q["acq_dur"] - 1e-12):
                inside.append(pf)
        if w[5] is None:
            ctx.check(cur is None, "a frequency override ends with its measurement", lambda: cur)
        else:
            ctx.check(cur is not None and ctx.near(cur, w[5], 1e-3), "the frequency override holds during its acquisition", lambda: (cur, w))
        ctx.check(not inside, "the frequency does not change during an acquisition")
    ctx.check(ctx.near(cs.duration, total, 1e-15), "duration of the circuit", lambda: (cs.duration, total))
    ctx.cover("end")


def HARNESSES(tier):
    b = "angles +-200 degrees in steps of 1/8, any amplitudes, motzoi parameters"
    one = ["R0R0", "R0Z0R0", "Z0Z0R0", "Z0R0Z0R0", "Z0R0z0Z0R0", "Z0Z1R0R1", "R0r0Z0r0", "O0R0", "R0O0R0", "Z0z0R0z0X0", "A0R0", "X0A0X0", "R0G0R0Z0B0"]
    two = ["C0R0R1", "c0R0R1", "R0C0Z1R1", "N0R0R1", "Z1N0R1", "C0C0R1R0"]
    ms = ["0X", "mX", "LX", "Xl0", "Mm0", "oXo0", "0F0", "f0", "fX0"]
    mux = ["DX", "EX", "I0"]
    return [
        Harness("rotations", gates, FUNCS, f"circuits {one}; {b}", dict(layouts=one), ("end",)),
        Harness("spin", gates, FUNCS, f"spin qubits, circuits {one[:5]}; {b}", dict(layouts=one[:5], cls=BasicSpinElement), ("end",)),
        Harness("two_qubit", gates, FUNCS, f"circuits {two} of CZ and CNOT; any phase corrections; {b}", dict(layouts=two, cz=True), ("end",)),
        Harness("unitary", unitary, FUNCS, "circuits RR, RZR", dict(layouts=["RR", "RZR"]), ("end",)),
        Harness("measure", measure, FUNCS, f"circuits {ms}; any readout times up to 2 us", dict(layouts=ms), ("end",)),
        Harness("multiplexed", measure, FUNCS, f"circuits {mux} on two elements", dict(layouts=mux), ("end",)),
        Harness("multiplexed_more", measure, FUNCS, "circuits D1X, 0D, DL, EE on two elements", dict(layouts=["D1X", "0D", "DL", "EE"]), ("end",), thorough_only=True),
    ]
