"""C16: after prepare the instrument has the settings of the compiled program, whatever it did before."""

from __future__ import annotations

from fractions import Fraction as F

from harness import c16_distortion, fake
from harness.hw import *
from quantify_scheduler.backends.qblox.enums import LoCalEnum, SidebandCalEnum
from quantify_scheduler.enums import BinMode, TimeRef, TimeSource, TriggerCondition
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "QbloxHardwareOptions / module and sequencer settings, SerialCompiler.compile",
    "ClusterComponent.prepare: global, sequencer, LO, mixer and acquisition settings; lazy_set",
]

OUT = {"QCM": 2, "QRM": 1, "QCM_RF": 2, "QRM_RF": 1, "QRC": 2}
READ = {"QRM", "QRM_RF", "QRC"}
DC = {"QCM": 2.5, "QRM": 0.5, "QCM_RF": F(499, 10000), "QRM_RF": F(499, 10000)}


def rf(kind):
    return kind not in ("QCM", "QRM")


def lo_param(kind, k):
    return {"QCM_RF": f"out{k}_lo_freq", "QRM_RF": "out0_in0_lo_freq", "QRC": f"out{k}_in{k}_lo_freq"}[kind]


def dc_params(kind, k):
    if rf(kind):
        return f"out{k}_offset_path0", f"out{k}_offset_path1"
    return f"out{2 * k}_offset", f"out{2 * k + 1}_offset"


class _Focus:
    """Symbolic values for one group of options of one output, any fixed values for the others."""

    def __init__(self, ctx, tag, group, k):
        self.ctx, self.tag, self.group, self.k = ctx, tag, group, k

    def _on(self, group, k):
        return self.group == group and self.k == k

    def real(self, group, k, name, lo, hi):
        if self._on(group, k):
            return self.ctx.real(f"{self.tag}{name}{k}", lo, hi)
        return float(lo + (hi - lo) * F(3 if self.tag == "a" else 5, 8))

    def int(self, group, k, name, lo, hi):
        if self._on(group, k):
            return self.ctx.int(f"{self.tag}{name}{k}", lo, hi)
        return int(lo + (hi - lo) * F(3 if self.tag == "a" else 5, 8) // 2 * 2) + k


def program(ctx, kind, tag, given, twin, focus):
    """Compile a program with symbolic hardware options; (instructions, {(node, parameter): value})."""
    fx = _Focus(ctx, tag, *focus)
    E = ctx.exact
    graph, opts, want = [], {}, {}
    pcs = []
    for k in range(OUT[kind]):
        port = f"q{k}:mw"
        graph.append([f"c0.module1.complex_output_{k}", port])
        if kind in READ and k == 0:
            graph.append([f"c0.module1.complex_input_{k}", port])
        pcs.append((k, f"{port}-q{k}.01"))
    if given:
        opts["sequencer_options"] = {
            pc: {f"init_{x}_awg_path_{y}": 0.5 for x in ("offset", "gain") for y in "IQ"} for _, pc in pcs
        }
        if kind != "QRC":
            opts["mixer_corrections"] = {pc: {"dc_offset_i": 0.0, "dc_offset_q": 0.0, "amp_ratio": 1.0, "phase_error": 0.0} for _, pc in pcs}
        if rf(kind):
            opts["output_att"] = {pc: 2 for _, pc in pcs}
        if kind == "QRM_RF":
            opts["input_att"] = {pcs[0][1]: 2}
        if kind == "QRM":
            opts["input_gain"] = {pcs[0][1]: {"gain_I": 0, "gain_Q": 0}}
    if rf(kind):
        opts["modulation_frequencies"] = {pc: {"lo_freq": 5e9} for _, pc in pcs}
    s = Schedule("s")
    s.add(IdlePulse(20e-9))
    clock, lo = {}, {}
    for k, pc in pcs:
        base = 5e9 if rf(kind) else 0.0
        # on the NCO's own frequency grid (multiples of 0.25 Hz)
        lo[pc] = E(fx.int("freq", k, "lo", 20 * 10**9, 22 * 10**9)) / 4 if rf(kind) else E(0)
        clock[pc] = lo[pc] + E(fx.int("freq", k, "if", 1, 16 * 10**8)) / 4

    def tweak(hw):
        o = hw.hardware_options
        for k, pc in pcs:
            seq = want.setdefault(("pc", pc), {})
            if given:
                so = o.sequencer_options[pc]
                for f, p in (
                    ("init_offset_awg_path_I", "offset_awg_path0"),
                    ("init_offset_awg_path_Q", "offset_awg_path1"),
                    ("init_gain_awg_path_I", "gain_awg_path0"),
                    ("init_gain_awg_path_Q", "gain_awg_path1"),
                ):
                    so.__dict__[f] = seq[p] = fx.real("seq", k, p, -1, 1)
                if kind != "QRC":
                    m = o.mixer_corrections[pc]
                    for f, p in zip(("dc_offset_i", "dc_offset_q"), dc_params(kind, k)):
                        m.__dict__[f] = v = fx.real("mix", k, p, -DC[kind], DC[kind])
                        want["mod", p] = E(v) * (1000 if rf(kind) else 1)  # the RF modules take millivolts
                    m.__dict__["amp_ratio"] = seq["mixer_corr_gain_ratio"] = fx.real("mix", k, "ar", F(1, 2), 2)
                    m.__dict__["phase_error"] = seq["mixer_corr_phase_offset_degree"] = fx.real(
                        "mix", k, "pe", -45, 45
                    )
                if rf(kind):
                    o.output_att[pc] = want["mod", f"out{k}_att"] = fx.int("att", k, "oa", 0, 60)
                if kind == "QRM_RF" and k == 0:
                    o.input_att[pc] = want["mod", "in0_att"] = fx.int("att", 0, "ia", 0, 30)
                if kind == "QRM":
                    g = o.input_gain[pc]
                    g.__dict__["gain_I"] = want["mod", "in0_gain"] = fx.int("att", 0, "g0", -6, 26)
                    g.__dict__["gain_Q"] = want["mod", "in1_gain"] = fx.int("att", 0, "g1", -6, 26)
            if rf(kind):
                o.modulation_frequencies[pc].__dict__["lo_freq"] = lo[pc]
                want["mod", lo_param(kind, k)] = lo[pc]

    from quantify_scheduler.resources import ClockResource

    for k, pc in pcs:
        s.add_resource(ClockResource(f"q{k}.01", clock[pc]))
        s.add(SquarePulse(0.5, 20e-9, f"q{k}:mw", f"q{k}.01"))
        s.add(IdlePulse(20e-9))
    if twin:
        # a second carrier on the first output, for which no options are given
        f2 = lo[pcs[0][1]] + E(fx.int("freq", 0, "twin", 1, 16 * 10**8)) / 4
        s.add_resource(ClockResource("q0.12", f2))
        s.add(SquarePulse(0.5, 20e-9, "q0:mw", "q0.12"))
        s.add(IdlePulse(20e-9))
        pcs2 = [(0, "q0:mw-q0.12")]
        clock["q0:mw-q0.12"] = f2
        if rf(kind):
            opts["modulation_frequencies"]["q0:mw-q0.12"] = {"lo_freq": 5e9}
            lo["q0:mw-q0.12"] = lo[pcs[0][1]]
    else:
        pcs2 = []
    d = hw_dict({"1": {"instrument_type": kind}}, graph, opts)

    def tw(hw):
        tweak(hw)
        if twin and rf(kind):
            hw.hardware_options.modulation_frequencies["q0:mw-q0.12"].__dict__["lo_freq"] = lo["q0:mw-q0.12"]

    c = compile(s, config(d, tweak=tw))
    ci = c.compiled_instructions["c0"]
    for k, pc in pcs + pcs2:
        f = clock[pc] - lo[pc] if pc in lo else clock[pc]
        want.setdefault(("pc", pc), {})["nco_freq"] = f
        if kind != "QRC":  # its NCO is always on
            want["pc", pc]["mod_en_awg"] = True
        if kind in ("QRM", "QRM_RF"):
            want["pc", pc]["demod_en_acq"] = True
        for j in range(OUT[kind] if rf(kind) else 2 * OUT[kind]):
            want["pc", pc][f"connect_out{j}"] = (
                ("IQ" if j == k else "off") if rf(kind) else ("off" if j // 2 != k else "IQ"[j % 2])
            )
        want["pc", pc]["sync_en"] = True
    return ci, want


def same(ctx, a, b):
    if isinstance(b, (str, bool)) or b is None:
        return a == b
    return ctx.near(ctx.exact(a), ctx.exact(b), F(1, 10**9))


def settings(ctx, kind, twins=(False,)):
    a, b = ctx.choice("a", [False, True]), ctx.choice("b", [False, True])
    twin = ctx.choice("twin", list(twins))
    groups = ["seq", "freq"] + ["mix"] * (kind != "QRC") + ["att"] * (kind != "QCM")
    focus = ctx.choice("group", groups), ctx.choice("output", list(range(OUT[kind])))
    comp, cl = fake.component({1: kind})
    m = cl.module(1)
    pa, wa = program(ctx, kind, "a", a, False, focus)
    comp.prepare(pa)
    if ctx.choice("reset", [False, True]):
        for n in (m, *m.sequencers):
            for p in dict.values(n.parameters):
                p.valid = False
    pb, wb = program(ctx, kind, "b", b, twin, focus)
    comp.prepare(pb)
    seqs = pb["c0_module1"]["sequencers"]
    used = sorted(int(n.removeprefix("seq")) for n in seqs)
    for i in range(len(m.sequencers)):
        ctx.check(m.sequencers[i].parameters["sync_en"]() == (i in used), "only the sequencers in use synchronise")
    for (kind_, name), val in wb.items():
        if kind_ == "mod":
            got = m.parameters[name]()
            ctx.check(got is not None, "the setting is made", lambda: name)
            ctx.check(same(ctx, got, val), "module settings are those of the program", lambda: (name, got, val))
    for (kind_, name), val in wa.items():
        if kind_ == "mod" and (kind_, name) not in wb:
            got = m.parameters[name]()
            ctx.check(same(ctx, got, val), "settings not given are left alone", lambda: (name, got, val))
    # each port-clock has a sequencer of its own, with its own settings
    taken = set()
    pcs = [(n, v) for (k, n), v in wb.items() if k == "pc"]
    ctx.check(len(pcs) == len(used), "one sequencer for every port-clock", lambda: (pcs, used))
    for n, v in pcs:
        hit = None
        for i in used:
            st = seqs[f"seq{i}"]
            nd = m.sequencers[i].parameters
            if i in taken:
                continue
            if all(nd[p]() == x for p, x in v.items() if isinstance(x, str)) and _is(
                ctx, nd["nco_freq"](), v["nco_freq"]
            ):
                hit = i
                break
        ctx.check(hit is not None, "a sequencer plays at the frequency and on the output of the port-clock", lambda: n)
        taken.add(hit)
        nd = m.sequencers[hit].parameters
        ctx.check(nd["sequence"]() == seqs[f"seq{hit}"].sequence, "the program is loaded")
        for p, x in v.items():
            got = nd[p]()
            ctx.check(got is not None and same(ctx, got, x), "sequencer settings are those of the program", lambda: (n, p, got, x))
    m.armed.clear()
    comp.start()
    ctx.check(sorted(m.armed) == used, "exactly the sequencers of the program are armed", lambda: (m.armed, used))
    ctx.cover("end")


def _is(ctx, a, b):
    return a is not None and ctx.branch(ctx.exact(a) == ctx.exact(b))


A, B = "q0:res", "q1:res"
GRAPH = {
    "QRM": [["c0.module2.complex_output_0", A], ["c0.module2.complex_input_0", A]],
    "QRM_RF": [["c0.module2.complex_output_0", A], ["c0.module2.complex_input_0", A]],
    "ttl": [["c0.module2.real_input_0", A], ["c0.module2.real_input_1", B]],
    "QTM": [["c0.module2.digital_input_0", A], ["c0.module2.digital_input_3", B]],
}
CH = {"ttl": (0, 1), "QTM": (0, 3)}
REFS = {
    TimeRef.START: "start",
    TimeRef.END: "end",
    TimeRef.FIRST: "first",
    TimeRef.TIMESTAMP: "sequencer",
    TimeRef.PORT: "first3",
}


def acq_config(kind):
    o = {}
    if kind == "ttl":
        o["sequencer_options"] = {f"{p}-q0.ro": {"ttl_acq_threshold": 0.25} for p in (A, B)}
    if kind == "QTM":
        o["digitization_thresholds"] = {f"{p}-q0.ro": {"analog_threshold": 0.25} for p in (A, B)}
    if kind == "QRM_RF":
        o["modulation_frequencies"] = {f"{A}-q0.ro": {"interm_freq": 5e7}}
    mods = {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM" if kind == "ttl" else kind}}
    return hw_dict(mods, [["c0.module1.complex_output_0", "q0:mw"], *GRAPH[kind]], o)


def acquiring(ctx, kind, what, tag):
    """(instructions, expected settings {parameter: value}, sequencer index or channel)."""
    E = ctx.exact
    port = A
    s = schedule(clocks=("q0.01",))
    s.add_resource(ClockResource("q0.ro", 6.05e9 if kind == "QRM_RF" else FREQ))
    s.add(IdlePulse(20e-9))
    dur = ctx.int(f"{tag}dur", 5, 1000) * 4
    th, rot = ctx.real(f"{tag}th", -1, 1), ctx.real(f"{tag}rot", 0, 360)
    lim = ctx.real(f"{tag}lim", -1, 1)
    want, label = {}, None
    kw = dict(duration=dur * 1e-9, acq_channel=0)
    if what.startswith(("thr", "ttc")) and what[-1] in "LI":
        label = "q0"
    if what == "ssb":
        s.add(SSBIntegrationComplex(port, "q0.ro", **kw))
        want["integration_length_acq"] = dur
    elif what in ("thr", "thrL"):
        s.add(
            ThresholdedAcquisition(
                port, "q0.ro", acq_threshold=th, acq_rotation=rot, feedback_trigger_label=label, **kw
            )
        )
        want |= {
            "integration_length_acq": dur,
            "thresholded_acq_rotation": rot,
            "thresholded_acq_threshold": E(th) * E(dur),
        }
    elif what in ("count", "dist"):
        mode = BinMode.DISTRIBUTION if what == "dist" else BinMode.APPEND
        s.add(TriggerCount(port, "q0.ro", bin_mode=mode, **kw))
    elif what.startswith("ttc"):
        c = TriggerCondition.LESS_THAN if what[-1] == "I" else TriggerCondition.GREATER_THAN_EQUAL_TO
        cnt = ctx.int(f"{tag}cnt", 0, 1000)
        s.add(
            ThresholdedTriggerCount(
                port, "q0.ro", threshold=cnt, feedback_trigger_condition=c, feedback_trigger_label=label, **kw
            )
        )
    elif what.startswith("tag"):
        ref = list(REFS)[ctx.choice(f"{tag}ref", list(range(len(REFS))))]
        src = ctx.choice(f"{tag}src", list(TimeSource))
        if ref == TimeRef.TIMESTAMP:
            s.add(Timestamp(port, clock="q0.ro"))
        s.add(
            Timetag(
                port=port,
                clock="q0.ro",
                time_source=src,
                time_ref=ref,
                time_ref_port=B if ref == TimeRef.PORT else None,
                **kw,
            )
        )
        if ref == TimeRef.PORT:
            s.add(TriggerCount(B, "q0.ro", duration=dur * 1e-9, acq_channel=1), ref_pt="start")
        want["io binned_acq_time_source"] = str(src.value)
        want["io binned_acq_time_ref"] = REFS[ref]
    elif what == "trace":
        s.add(TimetagTrace(port=port, clock="q0.ro", **kw))
        want["io scope_mode"] = "timetags-windowed"
        want["io scope_trigger_mode"] = "sequencer"
    elif what == "scope":
        s.add(Trace(port=port, clock="q0.ro", bin_mode=BinMode.FIRST, **kw))
        want["io scope_mode"] = "scope"
        want["io scope_trigger_mode"] = "sequencer"
    s.add(IdlePulse(400e-9))
    if label:
        s.add(ConditionalOperation(X(), "q0"))
    else:
        s.add(SquarePulse(0.5, 40e-9, "q0:mw", "q0.01"))
    s.add(IdlePulse(400e-9))

    def tweak(hw):
        o = hw.hardware_options
        if kind == "ttl":
            o.sequencer_options[f"{A}-q0.ro"].__dict__["ttl_acq_threshold"] = lim
        if kind == "QTM":
            o.digitization_thresholds[f"{A}-q0.ro"].__dict__["analog_threshold"] = lim

    c = compile(s, config(acq_config(kind), tweak=tweak))
    if what == "none":
        return c.compiled_instructions["c0"], {}, None, {"used": set(sequencers(c))}
    if kind == "ttl":
        want |= {"ttl_acq_threshold": lim, "ttl_acq_auto_bin_incr_en": what == "dist", "ttl_acq_input_select": 0}
    if kind == "QTM":
        want |= {"io analog_threshold": lim, "io mode": "input", "io forward_trigger_en": False}
    if kind in ("QRM", "QRM_RF"):
        want |= {"demod_en_acq": True}
        want |= {"connect_acq": "in0"} if kind == "QRM_RF" else {"connect_acq_I": "in0", "connect_acq_Q": "in1"}
    read = {"used": {(m, q) for m, q in sequencers(c)}}
    for (m, q), st in sequencers(c).items():
        if m == "module1":
            read |= dict(st.thresholded_acq_trigger_read_settings)
    return c.compiled_instructions["c0"], want, label, read


def X():
    s = Schedule("x")
    s.add(SquarePulse(0.5, 40e-9, "q0:mw", "q0.01"))
    return s


def acquisitions(ctx, kind, progs):
    """Acquisition settings and triggers after a second program are those of the second program."""
    w1, w2 = ctx.choice("first", progs), ctx.choice("second", [*progs, "none"])
    comp, cl = fake.component({1: "QCM", 2: "QRM" if kind == "ttl" else kind})
    m = cl.module(2)
    p1, _, _, _ = acquiring(ctx, kind, w1, "a")
    comp.prepare(p1)
    if w2 == "none":  # a module without program is only left out after stop()
        comp.stop()
    p2, want, label, read = acquiring(ctx, kind, w2, "b")
    comp.prepare(p2)
    names = ["seq0"] if w2 == "none" else list(p2["c0_module2"]["sequencers"])
    used, i = read.pop("used"), 0
    for k in (1, 2):
        on = {(f"module{k}", f"seq{j}") for j, q in enumerate(cl.module(k).sequencers) if q.parameters["sync_en"]()}
        ctx.check(on == {x for x in used if x[0] == f"module{k}"}, "only the sequencers in use synchronise", lambda: (on, used))
    ctx.check("seq0" in names, "the port is read by its own sequencer", lambda: names)
    sq, io = m.sequencers[i].parameters, m.io_channels[i].parameters
    for name, val in want.items():
        got = io[name[3:]]() if name.startswith("io ") else sq[name]()
        ctx.check(got is not None and same(ctx, got, val), "acquisition settings are those of the program", lambda: (name, got, val))
    if kind == "QTM":
        ad = [io[f"thresholded_acq_trigger_address_{k}"]() or 0 for k in ("low", "mid", "high", "invalid")]
        sent = {x for x in ad if x} if io["thresholded_acq_trigger_en"]() else set()
    else:
        sent = {sq["thresholded_acq_trigger_address"]()} if sq["thresholded_acq_trigger_en"]() else set()
    if label:
        ctx.check(len(read) == 1 and sent == set(read), "a result is sent to who waits for it", lambda: (sent, read))
        (ad,) = read
        qc = cl.module(1).sequencers[0].parameters
        ctx.check(
            qc[f"trigger{ad}_threshold_invert"]() == read[ad].thresholded_acq_trigger_invert
            and same(ctx, qc[f"trigger{ad}_count_threshold"](), read[ad].thresholded_acq_trigger_count),
            "the waiting side has its own condition",
        )
    elif w2 != "none":
        ctx.check(not sent, "no result is sent on the trigger network without a label", lambda: sent)
    ctx.cover("end")


CAL = {"QCM_RF": ["out0_lo_cal"], "QRM_RF": ["out0_in0_lo_cal"]}


def calibration(ctx, kind, n):
    """Automatic mixer calibrations run when documented, and their results are kept."""
    E = ctx.exact
    lo_cal = ctx.choice("lo_cal", [LoCalEnum.OFF, LoCalEnum.ON_LO_FREQ_CHANGE, LoCalEnum.ON_LO_INTERM_FREQ_CHANGE])
    sb_cal = ctx.choice("sideband_cal", list(SidebandCalEnum))
    port, pc = "q0:mw", "q0:mw-q0.01"
    graph = [["c0.module1.complex_output_0", port]]
    comp, cl = fake.component({1: kind})
    m = cl.module(1)
    sq = m.sequencers[0]
    runs, done = [], []

    def calibrate(k, params):
        def run():
            runs.append(k)
            for p in params:
                done.append(p)
                node = sq if k == "sideband" else m
                node.parameters[p]._v = cal[k, p, len(runs)] = ctx.real(f"cal{len(done)}{p}", -1, 1)
                node.parameters[p].valid = cached

        return run

    cached = ctx.choice("cached", [False, True])
    cal = {}
    m.__dict__[CAL[kind][0]] = calibrate("lo", ["out0_offset_path0", "out0_offset_path1"])
    sq.__dict__["sideband_cal"] = calibrate("sideband", ["mixer_corr_gain_ratio", "mixer_corr_phase_offset_degree"])
    prev, last = None, {}
    for r in range(n):
        mix = {"auto_lo_cal": lo_cal.value, "auto_sideband_cal": sb_cal.value}
        d = hw_dict(
            {"1": {"instrument_type": kind}},
            graph,
            {"modulation_frequencies": {pc: {"lo_freq": 5e9}}, "mixer_corrections": {pc: mix}},
        )
        lo, f = E(ctx.int(f"lo{r}", 20 * 10**9, 22 * 10**9)) / 4, E(ctx.int(f"if{r}", 1, 16 * 10**8)) / 4

        def tweak(hw):
            hw.hardware_options.modulation_frequencies[pc].__dict__["lo_freq"] = lo

        s = Schedule("s")
        s.add_resource(ClockResource("q0.01", lo + f))
        s.add(IdlePulse(20e-9))
        s.add(SquarePulse(0.5, 20e-9, port, "q0.01"))
        s.add(IdlePulse(20e-9))
        c = compile(s, config(d, tweak=tweak))
        runs.clear()
        cal.clear()
        comp.prepare(c.compiled_instructions["c0"])
        new_lo = prev is None or ctx.branch(prev[0] != lo)
        new_if = prev is None or ctx.branch(prev[1] != f)
        prev = lo, f
        want_lo = {
            LoCalEnum.OFF: False,
            LoCalEnum.ON_LO_FREQ_CHANGE: new_lo,
            LoCalEnum.ON_LO_INTERM_FREQ_CHANGE: new_lo or new_if,
        }[lo_cal]
        want_sb = sb_cal != SidebandCalEnum.OFF and new_if
        ctx.check(
            sorted(runs) == ["lo"] * want_lo + ["sideband"] * want_sb,
            "calibrations run exactly when the frequencies they depend on change",
            lambda: (runs, want_lo, want_sb),
        )
        for (k, p, _), v in cal.items():
            last[k, p] = v
        for (k, p), v in last.items():
            got = (sq if k == "sideband" else m).parameters[p]()
            ctx.check(same(ctx, got, v), "what a calibration found is kept", lambda: (p, got, v))
        if sb_cal == SidebandCalEnum.OFF:
            ctx.check(
                sq.parameters["mixer_corr_gain_ratio"]() == 1 and sq.parameters["mixer_corr_phase_offset_degree"]() == 0,
                "no correction is made by default",
            )
    ctx.cover("end")


def HARNESSES(tier):
    out = []
    for kind in OUT:
        out.append(
            H(
                f"settings_{kind}",
                settings,
                FUNCS,
                "any two programs, one after the other; every value in range",
                dict(kind=kind, twins=(False, True) if kind in ("QCM_RF", "QRM_RF", "QCM") else (False,)),
                ("end",),
            )
        )
    for kind, progs in {
        "QRM": ["ssb", "thr", "thrL"],
        "QRM_RF": ["ssb", "thrL"],
        "ttl": ["count", "dist", "ttc", "ttcL", "ttcI"],
        "QTM": ["count", "ttc", "ttcL", "ttcI", "tag", "trace", "scope"],
    }.items():
        out.append(
            H(
                f"acquisitions_{kind}",
                acquisitions,
                FUNCS,
                f"any two of the acquisitions {progs}, one after the other; durations up to 4 us, any threshold and rotation",
                dict(kind=kind, progs=progs),
                ("end",),
            )
        )
    for layout in c16_distortion.LAYOUT:
        for first in (False, True):
            out.append(
                H(
                    f"filters_{layout}_{'twice' if first else 'range'}",
                    c16_distortion.filters,
                    FUNCS,
                    "distortion corrections of a QCM, any coefficients; "
                    + ("after a program with other corrections" if first else "in range or not"),
                    dict(layout=layout, first=first),
                    ("end",) if first else ("end", "refused"),
                )
            )
    for kind in CAL:
        out.append(
            H(
                f"calibration_{kind}",
                calibration,
                FUNCS,
                "two programs (thorough: three), any LO and NCO frequencies",
                dict(kind=kind, n=2 if tier == "quick" else 3),
                ("end",),
            )
        )
    return out
