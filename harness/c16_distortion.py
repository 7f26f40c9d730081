"""C16, part: the real-time predistortion filters of a QCM are those of the program."""

from __future__ import annotations

from harness import fake
from harness.hw import *
from quantify_scheduler.backends.qblox.enums import DistortionCorrectionLatencyEnum as D
from quantify_scheduler.operations import IdlePulse, SquarePulse

FILTERS = ["exp0", "exp1", "exp2", "exp3", "fir"]
MASK = dict(zip(FILTERS, (D.EXP0, D.EXP1, D.EXP2, D.EXP3, D.FIR)))
BASE = "cl0.baseband"
# channel -> (port, clock, real outputs)
LAYOUT = {
    "complex": {"complex_output_0": ("q0:mw", "q0.01", (0, 1)), "complex_output_1": ("q1:mw", "q1.01", (2, 3))},
    "mixed": {"complex_output_0": ("q0:mw", "q0.01", (0, 1)), "real_output_2": ("q2:fl", BASE, (2,)), "real_output_3": ("q3:fl", BASE, (3,))},
    "real": {"real_output_1": ("q1:fl", BASE, (1,)), "real_output_2": ("q2:fl", BASE, (2,))},
}


def program(ctx, tag, layout, plans, channels, within):
    """``plans``: {output: filters}; ``channels``: {channel: (marker debug, compensation)}."""
    lay = LAYOUT[layout]
    want, opts, sym, module = {}, {}, {}, {"instrument_type": "QCM"}
    inside = []
    for ch, (port, clock, outs) in lay.items():
        if ch not in channels:
            continue
        pc = f"{port}-{clock}"
        debug, comp = channels[ch]
        if debug or comp:
            module[ch] = {"marker_debug_mode_enable": debug, "distortion_correction_latency_compensation": comp}
        given = []
        for o in outs:
            g = {}
            for f in FILTERS:
                st = "delay_comp" if comp & MASK[f].value else "bypassed"
                want[o, f] = [st, None, st if debug else "bypassed"]
            for f in plans.get(o, ()):
                if tag == "a":
                    v = [0.5] * 32 if f == "fir" else [100, 0.5]
                elif f == "fir":
                    # a coefficient at either end
                    i = ctx.choice(f"{tag}place{o}", [0, 31])
                    v = [0.25] * 32
                    v[i] = ctx.real(f"{tag}fir{o}", -3, 3)
                    inside.append(ctx.And(v[i] >= -2, v[i] < 2))
                else:
                    v = [ctx.real(f"{tag}{f}tau{o}", 1, 10000), ctx.real(f"{tag}{f}amp{o}", -2, 2)]
                    inside.append(ctx.And(v[0] >= 6, v[1] >= -1, v[1] < 1))
                g[f] = v
                want[o, f] = ["enabled", v, "delay_comp" if debug else "bypassed"]
            given.append(g)
        if any(given):
            dummy = [{f"{f}_coeffs": [7, 0] for f in g} for g in given]
            opts[pc] = dummy if len(outs) == 2 else dummy[0]
            sym[pc] = given

    if within:
        for x in inside:
            ctx.assume(x)
    graph = [[f"c0.module1.{ch}", lay[ch][0]] for ch in channels]

    def tweak(hw):
        dc = hw.hardware_options.distortion_corrections
        for pc, given in sym.items():
            for c, g in zip(dc[pc] if isinstance(dc[pc], list) else [dc[pc]], given):
                for f, v in g.items():
                    c.__dict__[f"{f}_coeffs"] = v

    s = schedule(clocks=("q0.01", "q1.01"))
    for ch in channels:
        port, clock, _ = lay[ch]
        s.add(SquarePulse(0.5, 20e-9, port, clock))
        s.add(IdlePulse(20e-9))
    d = hw_dict({"1": module}, graph, {"distortion_corrections": opts} if opts else {})
    cfg = config(d, tweak=tweak)
    try:
        c = compile(s, cfg)
    except ValueError as e:
        ctx.cover("refused")
        ctx.check(not ctx.branch(ctx.And(*inside)), "valid distortion corrections are accepted", lambda: str(e))
        return None, None
    ctx.check(ctx.And(*inside) if inside else True, "coefficients outside the range of the filters are refused")
    return c.compiled_instructions["c0"], want


def plan(ctx, tag, layout, within):
    """Filters of one or all outputs, the others are empty."""
    lay = LAYOUT[layout]
    channels = list(lay)
    outs = [o for ch in channels for o in lay[ch][2]]
    who = ctx.choice(f"{tag}who", ["none", *outs, "all"])
    filt = ctx.choice(f"{tag}filter", FILTERS) if who != "none" else None
    if not within:
        # only coefficients in and out of range
        return {o: [filt] for o in outs[:2]} if who == "all" else {who: [filt]}, dict.fromkeys(channels, (False, 0))
    if who == "all":
        plans = {o: [filt] for o in outs}
    elif who == "none":
        plans = {}
    else:
        plans = {who: [filt, FILTERS[(FILTERS.index(filt) + 2) % 5]]}
    comp = ctx.choice(f"{tag}compensation", [0, 36, 62])
    debug = ctx.choice(f"{tag}debug", [False, True])
    k = ctx.choice(f"{tag}channel", [0, len(channels) - 1]) if (comp or debug) else 0
    return plans, {ch: (debug, comp) if i == k else (False, 0) for i, ch in enumerate(channels)}


def filters(ctx, layout, first):
    comp, cl = fake.component({1: "QCM"})
    m = cl.module(1)
    if first:
        # a program that used every filter on every output
        lay = LAYOUT["real"]
        outs = {"real_output_1": 1, "real_output_2": 2}
        pa, wa = program(ctx, "a", "real", {o: ["exp1", "fir"] for o in outs.values()}, {ch: (True, 62) for ch in lay}, True)
        if pa is None:
            return
        comp.prepare(pa)
    pb, want = program(ctx, "b", layout, *plan(ctx, "b", layout, first), first)
    if pb is None:
        return
    comp.prepare(pb)
    for o in range(4):
        for f in FILTERS:
            state, v, marker = want.get((o, f), ("bypassed", None, "bypassed"))
            got = m.parameters[f"out{o}_{f}_config"]()
            ctx.check(got == state, "a filter is in the state of the program", lambda: (o, f, got, state))
            got = m.parameters[f"marker{o}_{f}_config"]()
            ctx.check(got == marker, "the marker of an output is delayed with it", lambda: (o, f, got, marker))
            if v is None:
                continue
            if f == "fir":
                got = m.parameters[f"out{o}_fir_coeffs"]()
            else:
                got = [m.parameters[f"out{o}_{f}_{p}"]() for p in ("time_constant", "amplitude")]
            ctx.check(
                len(got) == len(v) and ctx.And(*(ctx.exact(x) == ctx.exact(y) for x, y in zip(got, v))),
                "a filter has the coefficients of its output",
                lambda: (o, f, got, v),
            )
    ctx.cover("end")
