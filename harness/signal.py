"""What a compiled sequencer actually puts out, from its program, as a function of time."""

from __future__ import annotations

from symx.q1asm import LATCHING

FS = 32768


def origins(trace):
    """Instrument times at which each repetition of the schedule starts (after the phase reset)."""
    out, n = [], 0
    for e in trace.events:
        if e.kind in LATCHING and e.par.get("resets", 0) > n:
            n = e.par["resets"]
            out.append(e.t + e.dur)
    return out


def waves(settings):
    return {v["index"]: v["data"] for v in settings.sequence["waveforms"].values()}


def sample(ctx, data, k):
    """data[k] for a (symbolic) k known to be in range; constant runs need no case split."""
    n = len(data)
    i = 0
    while i < n:
        j = i + 1
        while j < n and data[j] is not None and _same(data[j], data[i]):
            j += 1
        if j == n or ctx.branch(k < j):
            return data[i]
        i = j
    raise IndexError


def _same(a, b):
    if a is b:
        return True
    la, lb = getattr(a, "lin", None), getattr(b, "lin", None)
    if la is not None or lb is not None:
        return la is lb
    return a == b


def level(ctx, settings, trace, t):
    """AWG output (path I, path Q) in units of 1/32768 at instrument time t [ns]."""
    w = waves(settings)
    par, play = {}, None
    for e in trace.events:
        if not ctx.branch(e.t <= t):
            break
        if e.kind in LATCHING:
            par = e.par
            if e.kind == "play":
                play = e
    offs = par.get("set_awg_offs", (0, 0))
    gain = par.get("set_awg_gain", (0, 0))
    out = []
    for p in (0, 1):
        v = ctx.exact(offs[p])
        if play is not None:
            data = w[int(play.args[p])]
            k = t - play.t
            if ctx.branch(k < len(data)):
                v = v + ctx.exact(sample(ctx, data, k)) * ctx.exact(gain[p])
        out.append(v)
    return out


def gate_square(ctx, t, start, dur, amp):
    """amp while start <= t < start + dur, else 0."""
    if ctx.branch(t >= start) and ctx.branch(t < start + dur):
        return ctx.exact(amp)
    return ctx.exact(0)
