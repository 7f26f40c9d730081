"""C03: the samples of every pulse are those of its documented shape."""

from __future__ import annotations

import math
from fractions import Fraction as F

import numpy as np

from quantify_scheduler.backends.qblox.helpers import generate_waveform_data
from quantify_scheduler.operations import *
from quantify_scheduler import waveforms
from symx.runner import H

FUNCS = ["waveforms (all functions)", "operations.pulse_library: parameters of every pulse", "helpers.waveforms.exec_waveform_function", "backends.qblox.helpers.generate_waveform_data"]


def played(op):
    (p,) = op.data["pulse_info"]
    return p, [generate_waveform_data(p, 1e9)]


def hann(m):
    return [1.0] if m == 1 else [0.5 - 0.5 * math.cos(2 * math.pi * k / (m - 1)) for k in range(m)]


def gauss(d, sigma, t):
    return math.exp(-((t - d / 2) ** 2) / (2 * sigma**2))


def shape(ctx, kinds, durs):
    kind = ctx.choice("kind", kinds)
    d = ctx.choice("d", durs)
    E = ctx.exact
    a, b = ctx.real("a", -1, 1), ctx.real("b", -1, 1)
    T = d * 1e-9
    im = direct = None
    if kind == "square":
        op = SquarePulse(ctx.cplx(a, b), T, "p", "c")
        re, im = [a] * d, [b] * d
    elif kind == "ramp":
        op = RampPulse(a, T, "p", "c", offset=b)
        re = [E(b) + E(a) * F(k, d) for k in range(d)]
    elif kind == "staircase":
        n = ctx.choice("n", [2, 3, 4, 5, 8])
        op = StaircasePulse(a, b, n, T, "p", "c")
        re = [E(a) + (E(b) - E(a)) * F(k * n // d, n - 1) for k in range(d)]
    elif kind == "soft":
        op = SoftSquarePulse(a, T, "p", "c")
        w = hann(d // 2)
        if sum(w) == 0:
            w = [1.0]
        m = len(w)
        # convolution, of which as many samples as the pulse has are taken from the middle
        re = [E(a) * F(sum(w[j] for j in range(m) if 0 <= k + (m - 1) // 2 - j < d) / sum(w)) for k in range(d)]
    elif kind == "chirp":
        f0, f1 = ctx.choice("f", [(0, 50e6), (10e6, -20e6), (30e6, 30e6)])
        op = ChirpPulse(a, T, "p", "c", f0, f1)
        ph = [2 * math.pi * (f0 * k * 1e-9 + (f1 - f0) / T * (k * 1e-9) ** 2 / 2) for k in range(d)]
        re, im = [E(a) * F(math.cos(x)) for x in ph], [E(a) * F(math.sin(x)) for x in ph]
    elif kind in ("drag", "gauss"):
        sigma = ctx.choice("sigma", [None, 0.2])
        s = d / 8 if sigma is None else sigma * d
        phase = ctx.choice("phase", [0, 30, -135])
        more = {} if sigma is None else {"sigma": sigma * T}
        D = ctx.choice("D", [0, 0.4, -0.3]) if kind == "drag" else 0
        sub = ctx.choice("sub", ["average", "first", "last", "none"]) if kind == "drag" else "average"
        if kind == "drag":
            op = DRAGPulse(G_amp=a, D_amp=D, duration=T, port="p", clock="c", phase=phase, **more)
            if sub != "average":  # only available for the function itself
                kw = {"sigma": sigma * T, "nr_sigma": None} if sigma else {"nr_sigma": 4}
                direct = waveforms.drag(np.arange(d) / 1e9, a, D, T, phase=phase, subtract_offset=sub, **kw)
        else:
            op = GaussPulse(G_amp=a, phase=phase, duration=T, port="p", clock="c", **more)
        g = [gauss(d, s, k) for k in range(d)]
        q = [-D * (k - d / 2) / s * x for k, x in enumerate(g)]

        def shift(x):
            o = {"average": (x[0] + x[-1]) / 2, "first": x[0], "last": x[-1], "none": 0}[sub]
            return [v - o for v in x]

        g, q = shift(g), shift(q)
        c, n = math.cos(math.radians(phase)), math.sin(math.radians(phase))
        re = [E(a) * F(c * x - n * y) for x, y in zip(g, q)]
        im = [E(a) * F(n * x + c * y) for x, y in zip(g, q)]
    elif kind == "hermite":
        skew, phase = ctx.choice("skew", [0.0, 3e-9, -1e-9]), ctx.choice("phase", [0, 30, 90, -135])
        op = SkewedHermitePulse(T, a, skew, phase, "p", "c")
        x = [(k - d / 2) / (d / 6) for k in range(d)]
        g = [(1 - 0.956 * v**2) * math.exp(-(v**2)) for v in x]
        q = [skew / math.pi * (v / (T / 6)) * (0.956 + 1 - 0.956 * v**2) * math.exp(-(v**2)) for v in x]
        c, n = math.cos(math.radians(phase)), math.sin(math.radians(phase))
        re = [E(a) * F(c * u - n * v) for u, v in zip(g, q)]
        im = [E(a) * F(n * u + c * v) for u, v in zip(g, q)]
    elif kind == "netzero":
        arm, mid, corr = d // 2, ctx.choice("mid", [0, 1, 3]), ctx.choice("corr", [1, 4])
        B, scale = ctx.choice("B", [0.5, 1.0, -0.25]), ctx.choice("scale", [1.0, 0.8])
        op = SuddenNetZeroPulse(a, B, scale, 2 * arm * 1e-9, mid * 1e-9, corr * 1e-9, "p", "c")
        w = [F(1)] * arm + [F(0)] * mid + [-F(scale)] * arm
        w[arm - 1] = F(B)
        w[arm + mid] = -F(scale) * F(B)
        if arm == 1:
            w[0] = F(B)
        w += [-sum(w) / corr] * corr
        re, d = [E(a) * x for x in w], len(w)
    elif kind == "numerical":
        # every second sample is given, or every one; or complex
        step = ctx.choice("step", [1, 2])
        n = 5
        v = [ctx.real(f"v{i}", -1, 1) for i in range(n)]
        # the signs of the imaginary parts of the samples; those of the last add up to zero
        signs = ctx.choice("signs", [(0,) * n, (1,) * n, (0, 1, 1, 1, 1), (0, 0, 0, 0, 1), (0, 0, 1, 0, 0), (0, 1, 0, -1, 0)])
        cplx = any(signs)
        op = NumericalPulse([ctx.cplx(x, b if g > 0 else -b) if g else x for x, g in zip(v, signs)], [i * step * 1e-9 for i in range(n)], "p", "c")
        d = (n - 1) * step
        lin = lambda w, k: E(w[k // step]) + (E(w[k // step + 1]) - E(w[k // step])) * F(k % step, step)
        u = [E(b) * g for g in signs]
        re = [lin(v, k) for k in range(d)]
        im = [lin(u, k) for k in range(d)] if cplx else None
    p, ws = played(op)
    ws = ws if direct is None else [direct]
    ctx.check(ctx.near(p["duration"], d * 1e-9, 1e-13), "the duration is as asked for", lambda: (p["duration"], d))
    for w in ws:
        ctx.check(len(w) == d, "there is a sample for every ns", lambda: (len(w), d))
        for k in range(d):
            x, y = parts(w[k])
            ok = ctx.And(ctx.near(x, re[k], 1e-7), ctx.near(y, 0 if im is None else im[k], 1e-7))
            ctx.check(ok, "samples are those of the documented shape", lambda: (kind, k, w[k], re[k], im and im[k]))
    ctx.cover("end")


def parts(v):
    return (v.real, v.imag) if hasattr(v, "imag") else (v, 0)


def HARNESSES(tier):
    durs = [4, 5, 8, 20, 31, 62] if tier != "thorough" else list(range(4, 80))
    kinds = [["square", "ramp"], ["staircase"], ["soft"], ["chirp"], ["gauss"], ["drag"], ["hermite"], ["netzero"], ["numerical"]]
    return [
        H(k[0], shape, FUNCS, f"{k}: durations {durs} ns, any amplitude(s) in [-1, 1], every sample; phases, widths, numbers of steps etc. from lists", dict(kinds=k, durs=durs if k[0] != "numerical" else durs[:1]), ("end",))
        for k in kinds
    ]
