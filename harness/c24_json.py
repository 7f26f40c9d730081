"""C24: schedules and devices mean the same after being written to JSON and read back."""

from __future__ import annotations

import contextlib
import json
from fractions import Fraction as F

import numpy as np
from qcodes.instrument import Instrument
from qcodes.utils import validators

from harness import c05_acq, fake
from harness.c17_reuse import SETUP, Device, P, circuit, freeze, numerical, result, same
from harness.hw import *
from quantify_scheduler import json_utils
from quantify_scheduler.backends.qblox.operations.pulse_factories import *
from quantify_scheduler.device_under_test import nv_element, spin_edge, spin_element, transmon_element
from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.enums import BinMode, TimeRef, TriggerCondition
from quantify_scheduler.operations import *
from quantify_scheduler.operations.gate_library import *
from quantify_scheduler.operations.pulse_library import ReferenceMagnitude
from quantify_scheduler.schedules.schedule import CompiledSchedule
from symx.runner import H as Harness
from symx.values import SymComplex, is_sym

FUNCS = [
    "JSONSerializable.to_json / from_json / to_dict / from_dict, SchedulerJSONEncoder, SchedulerJSONDecoder",
    "__getstate__ / __setstate__ of Schedule, CompiledSchedule, Schedulable, Operation, Resource, ...",
    "DeviceElement, Edge, QuantumDevice: __json_getstate__ / __json_setstate__ / constructors",
]


@contextlib.contextmanager
def tokens():
    """Symbolic numbers pass through the text as tokens: JSON keeps numbers exactly."""
    held = []
    E, D = json_utils.SchedulerJSONEncoder, json_utils.SchedulerJSONDecoder
    enc, dec = E.default, D.custom_object_hook
    # in a symbolic run the modules have stand-ins for these types
    shims = {vars(json_utils).get(t.__name__, t): t for t in (int, float, complex)}
    back = {v: k for k, v in shims.items()}

    def default(self, o):
        if is_sym(o) or type(o) is SymComplex:
            held.append(o)
            return {"__symbolic__": len(held) - 1}
        if isinstance(o, np.ndarray):
            o = o.view(np.ndarray)
        return enc(self, shims[o] if isinstance(o, type) and o in shims else o)

    def hook(self, o):
        if isinstance(o, dict) and "__symbolic__" in o:
            return held[o["__symbolic__"]]
        r = dec(self, o)
        return back[r] if isinstance(r, type) and r in back else r

    E.default, D.custom_object_hook = default, hook
    try:
        yield
    finally:
        E.default, D.custom_object_hook = enc, dec


def through(obj, how="json", cls=None):
    cls = cls or type(obj)
    with tokens():
        if how == "dict":
            return cls.from_dict(obj.to_dict())
        out = cls.from_json(obj.to_json())
        return cls.from_json(out.to_json()) if how == "twice" else out


def programs(ctx, setup, whats, form):
    d, tweak = SETUP[setup](ctx)
    p = P(ctx, "p", ctx.choice("what", whats), setup)
    how = ctx.choice("how", ["json", "dict", "twice"])
    want = compile(p(), config(d, tweak=tweak))
    if form == "schedule":
        s = p()
        before = freeze(s)
        got = compile(through(s, how), config(d, tweak=tweak))
        same(ctx, freeze(s), before, "writing a schedule leaves it as it was")
        same(ctx, result(ctx, got), result(ctx, want), "a schedule read back compiles to the same programs")
    else:
        with tokens():
            got = CompiledSchedule.from_json(compile(p(), config(d, tweak=tweak)).to_json())
        compare_runs(ctx, d, want, got)
    ctx.cover("end")


def compare_runs(ctx, d, want, got):
    kinds = {int(k): v["instrument_type"] for k, v in d["hardware_description"]["c0"]["modules"].items()}
    states = []
    for c in (want, got):
        comp, cl = fake.component(kinds)
        comp.prepare(c.compiled_instructions["c0"])
        state = {}
        for m in cl.modules:
            for n in (m, *m.sequencers, *m.io_channels):
                for k, par in dict.items(n.parameters):
                    v = par()
                    if k == "sequence":
                        v = json.dumps(plain(v)) if not any_sym(v) else {a: b for a, b in v.items()}
                    state[".".join(map(str, par._path))] = v
        m = {
            name: {k: getattr(v, k) for k in ("acq_index_dim_name", "protocol", "bin_mode", "coords")}
            for name, v in c.compiled_instructions["c0"]["acq_channels_data"].items()
        }
        states.append(freeze((state, m, c.repetitions)))
    same(ctx, states[1], states[0], "a compiled schedule read back puts the instrument in the same state")


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    return x


def any_sym(x):
    if isinstance(x, dict):
        return any(map(any_sym, x.values()))
    return any(map(any_sym, x)) if isinstance(x, (list, tuple)) else is_sym(x)


class Ops:
    """Every kind of operation, with symbolic arguments; built afresh at every call."""

    def __init__(self, ctx, what):
        self.a, self.b = ctx.real("a", F(1, 10), 1), ctx.real("b", F(1, 10), 1)
        self.g = ctx.int("g", 8, 400) * 1e-9
        self.phi = ctx.real("phi", -360, 360)
        self.n = ctx.choice("n", [1, 3])
        self.what = what

    def __call__(self):
        a, b, g, w = self.a, self.b, self.g, self.what
        mw, ro = dict(port="q0:mw", clock="q0.01"), dict(port="q0:res", clock="q0.ro")
        s = schedule(repetitions=5)
        first = s.add(IdlePulse(20e-9), label="first")
        if w == "pulses":
            s.add(SquarePulse(a, 40e-9, **mw, reference_magnitude=ReferenceMagnitude(0.5, "V")), rel_time=g)
            s.add(SquarePulse(np.float64(0.25) + 0.5j, 20e-9, **mw))
            s.add(SquarePulse(np.float32(0.25), 20e-9, **mw))
            s.add(SquarePulse(np.complex64(0.25j), np.float64(20e-9), **mw))
            s.add(SquarePulse(np.int64(1), 20e-9, port="q1:mw", clock="q1.01"), ref_op="first", ref_pt="center")
        elif w == "shapes":
            s.add(RampPulse(0.5, 20e-9, **mw), ref_op=first, ref_pt="start", ref_pt_new="start", rel_time=g)
            s.add(DRAGPulse(0.5, 0.25, 20, 20e-9, **mw))
            s.add(StaircasePulse(0.0, 0.5, 4, 40e-9, port="q1:mw", clock="q1.01"))
            s.add(NumericalPulse(np.array([0.1, 0.2j, 0.3]), np.arange(3) * 1e-9, **mw))
            s.add(NumericalPulse([0.1, 0.2, 0.3], [0, 1e-9, 2e-9], port="q1:mw", clock="q1.01"))
            s.add(SkewedHermitePulse(20e-9, 0.1, 0.0, 10.0, **mw))
            s.add(ChirpPulse(0.5, 40e-9, **mw, start_freq=1e6, end_freq=2e6))
            s.add(SoftSquarePulse(0.5, 40e-9, **mw))
        elif w == "virtual":
            s.add(ShiftClockPhase(self.phi, "q0.01"))
            s.add(SquarePulse(0.5, 20e-9, **mw))
            s.add(SetClockFrequency("q0.01", clock_freq_new=FREQ + a * 1e6), rel_time=g)
            s.add(ResetClockPhase("q0.01"), rel_time=8e-9)
            s.add(VoltageOffset(b, 0.25, "q1:mw", "q1.01"), rel_time=8e-9)
            s.add(IdlePulse(20e-9))
            s.add(VoltageOffset(0.0, 0.0, "q1:mw", "q1.01"))
            s.add(IdlePulse(20e-9))
        elif w == "stitched":
            s.add(long_square_pulse(a, 2e-6, "q0:mw", clock="q0.01"))
            s.add(staircase_pulse(0.0, 0.5, 4, 2e-6, "q1:mw", clock="q1.01"), rel_time=g)
            s.add(long_ramp_pulse(0.5, 4e-6, "q0:mw", clock="q0.01", offset=0.25), rel_time=g)
            s.add(IdlePulse(20e-9))
        elif w == "acquisitions":
            s.add(SSBIntegrationComplex(**ro, duration=100e-9, acq_channel="ch", bin_mode=BinMode.APPEND, coords={"x": 1, "y": 0.5}), rel_time=g)
            s.add(SSBIntegrationComplex(**ro, duration=100e-9, acq_channel=3, coords={"x": 2}), rel_time=400e-9)
            s.add(SSBIntegrationComplex(**ro, duration=100e-9, acq_channel=3, coords={"x": 3}), rel_time=400e-9)
        elif w == "thresholded":
            s.add(ThresholdedAcquisition(**ro, duration=100e-9, acq_rotation=0.0, acq_threshold=a, feedback_trigger_label="q"), rel_time=g)
            s.add(ConditionalOperation(SquarePulse(b, 40e-9, **mw), "q", hardware_buffer_time=g), rel_time=800e-9)
            s.add(IdlePulse(20e-9))
        elif w == "weights":
            s.add(
                NumericalSeparatedWeightedIntegration(
                    **ro, weights_a=np.array([0.5, 1, 0.25, 0.5] * 25), weights_b=[0.5, -1, 0.75, 0.5] * 25, interpolation="linear"
                ),
                rel_time=g,
            )
        elif w == "trace":
            s.add(Trace(400e-9, **ro, acq_channel=1), rel_time=g)
        elif w == "nested":
            inner = schedule()
            inner.add(SquarePulse(a, 40e-9, **mw))
            inner.add(IdlePulse(g))
            outer = schedule()
            outer.add(inner)
            outer.add(SquarePulse(b, 40e-9, **mw))
            outer.add(IdlePulse(20e-9))
            s.add(LoopOperation(outer, self.n))
            s.add(inner)
            s.add(LoopOperation(SSBIntegrationComplex(**ro, duration=100e-9, bin_mode=BinMode.APPEND), self.n))
            s.add(IdlePulse(400e-9))
        elif w == "compensated":
            body = schedule()
            body.add(SquarePulse(0.5, 40e-9, **mw))
            body.add(SquarePulse(0.25, 60e-9, port="q1:mw", clock="q1.01"), ref_pt="start")
            s.add(PulseCompensation(body, max_compensation_amp={"q0:mw": 0.5, "q1:mw": 0.25}, time_grid=4e-9, sampling_rate=1e9), rel_time=g)
            s.add(IdlePulse(20e-9))
        else:
            raise NotImplementedError(w)
        return s


KINDS = ["pulses", "shapes", "virtual", "stitched", "acquisitions", "thresholded", "weights", "trace", "nested", "compensated"]


def operations(ctx, whats, form):
    o = Ops(ctx, ctx.choice("what", whats))
    if form == "schedule":
        how = ctx.choice("how", ["json", "dict", "twice"])
        want = compile(o(), config(STD))
        got = compile(through(o(), how), config(STD))
        same(ctx, result(ctx, got), result(ctx, want), "a schedule read back compiles to the same programs")
    else:
        want = compile(o(), config(STD))
        with tokens():
            got = CompiledSchedule.from_json(compile(o(), config(STD)).to_json())
        compare_runs(ctx, STD, want, got)
    ctx.cover("end")


def retrieval(ctx, cases):
    """Acquisitions measured with a compiled schedule that was read back (the checks of C05)."""
    kind, mode, layouts = cases[ctx.choice("case", list(range(len(cases))))]
    c05_acq.scheduled(ctx, kind, BinMode(mode), layouts, (2,), reread=lambda c: through(c, cls=CompiledSchedule))


@contextlib.contextmanager
def lenient():
    """Symbolic values (always within the range of their parameter) pass the validators of qcodes."""
    kinds = [validators.Numbers, validators.Ints, *_subclasses(validators.Numbers), *_subclasses(validators.Ints)]
    old = [(k, k.__dict__["validate"]) for k in kinds if "validate" in k.__dict__]

    def patched(f):
        return lambda self, value, *a, **k: None if is_sym(value) else f(self, value, *a, **k)

    for k, f in old:
        k.validate = patched(f)
    try:
        yield
    finally:
        for k, f in old:
            k.validate = f


def _subclasses(cls):
    return [y for x in cls.__subclasses__() for y in (x, *_subclasses(x))]


def parameters(node, path=()):
    for k, par in node.parameters.items():
        yield (*path, k), par
    for k, sub in node.submodules.items():
        yield from parameters(sub, (*path, k))


ELEMENTS = {
    "transmon": transmon_element.BasicTransmonElement,
    "spin": spin_element.BasicSpinElement,
    "sensor": spin_element.ChargeSensor,
    "nv": nv_element.BasicElectronicNVElement,
}
EDGES = {"transmon": CompositeSquareEdge, "spin": spin_edge.SpinEdge}
SKIP = {"IDN"}


def bound(v, name, default):
    x = getattr(v, name, None)
    try:
        x = float(x)
    except (TypeError, ValueError):
        return default
    return default if not np.isfinite(x) or abs(x) > 1e12 else F(x)


def populate(ctx, tag, node, magnitude):
    """Give every parameter a value other than its default, symbolic if it is a number."""
    out = {}
    for path, par in parameters(node):
        if path[-1] in SKIP or not par.settable:
            continue
        v, key = par.vals, f"{tag}.{'.'.join(path)}"
        if path[-2:-1] == ("reference_magnitude",):
            if not path[-1].endswith("_" + magnitude):
                continue
            x = ctx.real(key, F(1, 100), 1)
        elif isinstance(v, validators.Ints):
            x = ctx.int(key, int(bound(v, "_min_value", 0)) + 1, min(int(bound(v, "_max_value", 100)), 100))
        elif isinstance(v, validators.Numbers):
            lo, hi = bound(v, "_min_value", F(-1)), bound(v, "_max_value", F(10**9))
            x = ctx.real(key, lo, max(lo + 1, hi) if hi < lo else hi)
        elif isinstance(v, validators.Bool):
            x = not par()
        elif isinstance(v, validators.Enum):
            x = next(iter(sorted((y for y in v._values if y != par()), key=str)), par())
        elif isinstance(v, validators.Arrays):
            x = np.array([0.25, 0.5, -1.0])
        elif isinstance(v, validators.Strings):
            x = f"other:{path[-1]}"
        elif path[-1] == "acq_channel":
            x = f"channel_{tag}"
        else:
            continue
        par(x)
        out[path] = x
    return out


def values(node):
    return {".".join(p): par() for p, par in parameters(node) if p[-1] not in SKIP}


def device(ctx, kind, specials=("none",)):
    """A device read back has the same elements, edges, parameters and compilation configuration."""
    how = ctx.choice("how", ["json", "dict", "twice", "element"])
    special = ctx.choice("special", list(specials))
    # Reference magnitudes and compilation options are recorded findings, so they are looked at on their own.
    suffix = {"none": "", "options": " (with other compilation options)"}.get(special, " (with a reference magnitude)")
    with lenient():
        Instrument.close_all()
        qd = QuantumDevice("dev")
        e1, e2 = (ELEMENTS[kind](n) for n in ("q0", "q1"))
        nodes = [e1, e2]
        if kind in EDGES:
            nodes.append(EDGES[kind]("q0", "q1"))
        for n in nodes:
            populate(ctx, n.name, n, special)
            (qd.add_edge if n is nodes[-1] and kind in EDGES else qd.add_element)(n)
        if how != "element":
            qd.cfg_sched_repetitions(7)
            if special == "options":
                qd.keep_original_schedule(False)
                qd.scheduling_strategy("alap")
        options = qd.keep_original_schedule(), qd.scheduling_strategy()
        want = freeze([values(n) for n in nodes]), freeze(qd.generate_device_config())
        with tokens():
            if how == "dict":
                text = qd.to_dict()
            else:
                text = [n.to_json() for n in nodes] if how == "element" else qd.to_json()
            Instrument.close_all()
            if how == "element":
                got = [type(n).from_json(t) for n, t in zip(nodes, text)]
                same(ctx, freeze([values(n) for n in got]), want[0], "every parameter of an element read back is the same" + suffix)
                ctx.cover("end")
                return
            new = QuantumDevice.from_dict(text) if how == "dict" else QuantumDevice.from_json(text)
            if how == "twice":
                text = new.to_json()
                Instrument.close_all()
                new = QuantumDevice.from_json(text)
        ctx.check(
            (new.elements(), new.edges()) == (["q0", "q1"], [n.name for n in nodes[2:]]), "the device has the same elements and edges"
        )
        got = [new.get_element("q0"), new.get_element("q1"), *(new.get_edge(n.name) for n in nodes[2:])]
        ctx.check([type(n) for n in got] == [type(n) for n in nodes], "elements and edges have the same types")
        same(ctx, freeze([values(n) for n in got]), want[0], "every parameter of a device read back is the same" + suffix)
        ctx.check(new.cfg_sched_repetitions() == 7, "a device read back does the same number of repetitions")
        ctx.check(
            (new.keep_original_schedule(), new.scheduling_strategy()) == options,
            "the compilation options of a device read back are the same" + suffix,
        )
        same(ctx, freeze(new.generate_device_config()), want[1], "a device read back compiles gates the same way" + suffix)
    ctx.cover("end")


def gates(ctx, whats):
    """A circuit read back, compiled with a device."""
    dev = Device(ctx, ro=True, cz=True)
    theta, amp, freq = ctx.real("theta", -90, 90), ctx.real("over", F(1, 10), 1), ctx.real("ofreq", 1e8, 2e8)
    what, how = ctx.choice("what", whats), ctx.choice("how", ["json", "dict", "twice"])
    mk = lambda: circuit(what, theta, amp, freq)
    cfg = dev.config()
    want = numerical(SerialCompiler("c").compile(mk(), cfg))
    got = numerical(SerialCompiler("c").compile(through(mk(), how), cfg))
    same(ctx, got, want, "a circuit read back compiles to the same pulses")
    ctx.cover("end")


def trace(ctx, modules):
    c05_acq.trace(ctx, modules, reread=lambda c: through(c, cls=CompiledSchedule))


def HARNESSES(tier):
    out = []
    for i, ks in enumerate((KINDS[:4], KINDS[4:])):
        for form in ("schedule", "compiled"):
            out.append(Harness(f"{form}_{i}", operations, FUNCS, f"{ks}, any amplitudes, gaps, angles", dict(whats=ks, form=form), ("end",)))
    cases = [("ssb", "append", [[0, "x", 0], [[0, 1], 0]]), ("ssb", "average", [[0, 1, 0]])]
    cases += [("thr", "append", [[[0], 0]]), ("trig", "append", [[0, 1]])]
    out.append(Harness("retrieval", retrieval, FUNCS, f"acquisitions {cases}, gaps 4..60000 ns, any acquired values", dict(cases=cases), ("retrieved",)))
    W = ["flat", "loop", "freq", "cond", "long", "ro"]
    for form in ("schedule", "compiled"):
        out.append(Harness(f"programs_{form}", programs, FUNCS, f"programs {W} on an RF module and an external LO, any gaps, amplitudes, frequencies, corrections", dict(setup="rf", whats=W, form=form), ("end",)))
    W = ["xy", "rz", "cz", "measure", "over"]
    out.append(Harness("gates", gates, FUNCS, f"circuits {W} with any device parameters", dict(whats=W), ("end",)))
    mods = list(c05_acq.TRACES)
    out.append(Harness("trace", trace, FUNCS, f"scope traces on {mods} at any time, any samples", dict(modules=mods), ("retrieved",)))
    for k in ELEMENTS:
        b = f"two {k} elements and an edge, any value of every numeric parameter; device or single element, once or twice"
        out.append(Harness(f"device_{k}", device, FUNCS, b, dict(kind=k), ("end",)))
        what = b + ", other compilation options"
        out.append(Harness(f"device_{k}_options", device, FUNCS, what, dict(kind=k, specials=("options",)), ("end",)))
        if k != "nv":
            what = b + ", with reference magnitudes"
            out.append(Harness(f"device_{k}_magnitude", device, FUNCS, what, dict(kind=k, specials=("dBm", "V", "A")), ("end",)))
    return out
