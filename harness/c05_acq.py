"""C05: every acquisition happens when scheduled and comes back under its own channel and index."""

from __future__ import annotations

import numpy as np

from harness import fake
from harness.hw import *
from harness.signal import origins
from quantify_scheduler.enums import BinMode
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "SerialCompiler.compile (acquisition data generation, acquisition strategies, bin allocation, program assembly)",
    "ClusterComponent.prepare/start/retrieve_acquisition and the acquisition managers of QRM and QTM",
]
SPACE = 1000
AP, AV = BinMode.APPEND, BinMode.AVERAGE
CFG = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module2.complex_output_0", "q0:res"],
            ["c0.module2.complex_input_0", "q0:res"],
            ["c0.module2.real_input_0", "q1:res"],
        ],
        {"digitization_thresholds": {"q1:res-q0.ro": {"analog_threshold": 0.5}}},
    )
)


def add(kind, ch, mode, coords=None, **more):
    kw = dict(acq_channel=ch, bin_mode=mode, coords=coords, **more)
    p, c = "q0:res", "q0.ro"
    if kind == "trig":
        return TriggerCount("q1:res", c, duration=400e-9, **kw)
    if kind == "ssb":
        return SSBIntegrationComplex(p, c, duration=400e-9, **kw)
    if kind == "thr":
        return ThresholdedAcquisition(p, c, duration=400e-9, **kw)
    if kind == "sep":
        return NumericalSeparatedWeightedIntegration(p, c, [0.5] * 20, [0.25] * 20, **kw)
    if kind == "num":
        return NumericalWeightedIntegration(p, c, [0.5] * 20, [0.25] * 20, **kw)
    raise KeyError(kind)


def build(ctx, s, layout, kind, mode, count, out, k):
    """Fill ``s``; ints/str are channels, lists loops, tuples sub-schedules.  Returns the duration.

    ``out``: [(op number, channel, [start times in execution order])].
    """
    s.add(IdlePulse(20e-9))
    t = 20
    for item in layout:
        if isinstance(item, (list, tuple)):
            inner, sub = schedule(), []
            d = build(ctx, inner, item, kind, mode, count, sub, k)
            n = count if isinstance(item, list) else 1
            s.add(LoopOperation(inner, n) if isinstance(item, list) else inner)
            out += [(j, ch, [t + r * d + x for r in range(n) for x in xs]) for j, ch, xs in sub]
            t = t + n * d
        else:
            g = ctx.int(f"g{k[0]}", 4, 60000)
            s.add(add(kind, item, mode, {f"x_{item}": k[0]}), rel_time=g * 1e-9)
            out.append((k[0], item, [t + g]))
            s.add(IdlePulse(SPACE * 1e-9), ref_pt="start")
            t = t + g + SPACE
            k[0] += 1
    return t


def scheduled(ctx, kind, mode, layouts, reps=(1, 2), count=3, reread=lambda c: c):
    n = ctx.choice("reps", list(reps))
    layout = ctx.choice("layout", layouts)
    s = schedule(n)
    ops = []
    total = build(ctx, s, layout, kind, mode, count, ops, [0])
    ops.sort(key=lambda x: x[0])
    judge(ctx, s, kind, mode, n, ops, total, reread)


def unordered(ctx, kind, mode, channels, reps=(1, 2), wrap=(None,)):
    """Acquisitions added in another order than they happen in: each placed freely after an anchor."""
    n = ctx.choice("reps", list(reps))
    chs = ctx.choice("channels", channels)
    w = ctx.choice("wrap", list(wrap))
    whole = s = schedule(n)
    if w:
        s = schedule()
    anchor = s.add(IdlePulse(20e-9))
    ts, ops = [], []
    for i, ch in enumerate(chs):
        r = ctx.int(f"r{i}", 4, 9000)
        for u in ts:
            ctx.assume(ctx.Or(r >= u + SPACE, u >= r + SPACE))
        ts.append(r)
        s.add(add(kind, ch, mode, {f"x_{ch}": i}), ref_op=anchor, ref_pt="end", rel_time=r * 1e-9)
        ops.append((i, ch, [20 + r]))
    order = []
    for i in range(len(ts)):
        k = 0
        while k < len(order) and ctx.branch(ts[order[k]] < ts[i]):
            k += 1
        order.insert(k, i)
    s.add(IdlePulse(12000e-9), ref_op=anchor, ref_pt="end", rel_time=0)
    total = 12020
    if w == "schedule":
        whole.add(s)
    elif w == "loop":
        whole.add(LoopOperation(s, 2))
        ops = [(i, ch, [t0, t0 + 12020]) for i, ch, (t0,) in ops]
        total = 2 * 12020
    judge(ctx, whole, kind, mode, n, [ops[i] for i in order], total)


def judge(ctx, s, kind, mode, n, ops, total, reread=lambda c: c):
    exp, size, cells, coord = [], {}, {}, {}  # exp: (time, channel, index)
    for k, ch, times in ops:
        i0 = size.get(ch, 0)
        exp += [(t, ch, i0 + (j if mode == AP else 0)) for j, t in enumerate(times)]
        size[ch] = i0 + (len(times) if mode == AP else 1)
        coord.setdefault(ch, []).extend([k] * (len(times) if mode == AP else 1))
    c = compile(s, CFG)
    seq = sequencers(c)["module2", "seq0"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
    o = origins(tr)
    ctx.check(len(o) == n, "one origin per repetition")
    ctx.check(tr.end - o[-1] == total, "the program takes exactly the schedule duration")
    ev = tr.of("acquire", "acquire_weighed")
    if kind in ("trig", "ttc"):
        ev = [e for e in tr.of("acquire_ttl") if int(e.args[2]) == 1]
        off = [e for e in tr.of("acquire_ttl") if int(e.args[2]) == 0]
        ctx.check(len(ev) == len(off), "each counting window is closed")
        ctx.check(
            ctx.And([b.t + b.dur - a.t == 400 and a.args[:2] == b.args[:2] for a, b in zip(ev, off)]),
            "counting windows have the requested length",
        )
    ctx.check(len(ev) == n * len(exp), "every acquisition happens once per repetition", lambda: (ev, exp))
    decl = seq.sequence["acquisitions"]
    bins = {int(d["index"]): int(d["num_bins"]) for d in decl.values()}
    ctx.check(all(b <= 131072 for b in bins.values()), "declared bins within the memory")
    for r in range(n):
        left = list(ev[r * len(exp) : (r + 1) * len(exp)])
        for t, ch, idx in exp:
            m = [e for e in left if ctx.branch(e.t == o[r] + t)]
            ctx.check(
                len(m) == 1, "the acquisition starts at its scheduled time", lambda: (r, ch, idx, str(t), left, o[r])
            )
            left.remove(m[0])
            a, b = int(m[0].args[0]), int(m[0].args[1])
            ctx.check(a in bins and 0 <= b < bins[a], "the bin is declared", lambda: (a, b, bins))
            cells.setdefault((ch, idx), []).append((a, b))
    used = [x for v in cells.values() for x in (set(v) if mode == AV else v)]
    ctx.check(len(used) == len(set(used)), "no two acquisitions share a bin", lambda: cells)
    if mode == AV:
        ctx.check(all(len(set(v)) == 1 for v in cells.values()), "averages accumulate in one bin")
    # what the hardware would hand out
    val, raw = {}, {}
    for j, x in enumerate(sorted(set(used))):
        if kind in ("ssb", "sep", "num"):
            val[x] = (ctx.real(f"i{j}", -1000, 1000), ctx.real(f"q{j}", -1000, 1000))
        else:
            val[x] = ctx.int(f"v{j}", 0, 1 if kind == "thr" else 10**6)
    for a, nb in bins.items():
        z = lambda f, d: [f(val[a, b]) if (a, b) in val else d for b in range(nb)]
        B = {"integration": {"path0": [], "path1": []}, "threshold": [], "avg_cnt": []}
        if kind in ("ssb", "sep", "num"):
            B["integration"] = {"path0": z(lambda v: v[0], 0.0), "path1": z(lambda v: v[1], 0.0)}
        elif kind == "thr":
            B["threshold"] = z(lambda v: v, 0)
        else:
            B["avg_cnt"] = z(lambda v: v, 0)
        raw[str(a)] = {"index": a, "acquisition": {"bins": B, "scope": {}}}
    comp, cl = fake.component({1: "QCM", 2: "QRM"})
    comp.prepare(reread(c).compiled_instructions["c0"])
    comp.start()
    cl.module(2).data = {0: raw}
    ds = comp.retrieve_acquisition()
    ctx.check(sorted(ds.data_vars, key=str) == sorted(size, key=str), "exactly the used channels come back")
    for ch, num in size.items():
        da = ds[ch]
        shape = (num,) if mode == AV else (n, num)
        ctx.check(da.shape == shape, "the data have one entry per acquisition", lambda: (da.shape, shape))
        ctx.check(
            sorted(lab := [int(x) for x in da[f"acq_index_{ch}"].values]) == list(range(num)),
            "every index from 0 comes back once",
        )
        got = [int(x) for x in da[f"x_{ch}"].values]
        ctx.check(
            [got[lab.index(i)] for i in range(num)] == coord[ch], "every value comes with the coordinates of its acquisition"
        )
        for idx in range(num):
            for r in range(n if mode == AP else 1):
                got = da.values[lab.index(idx)] if mode == AV else da.values[r][lab.index(idx)]
                same(ctx, kind, got, val[cells[ch, idx][r]])
    ctx.cover("retrieved")


def explicit(ctx, kind, mode, patterns, wrap=(None,)):
    """Some acquisitions with an index of their own: these come first, the others in the order of time after them."""
    pattern, w = ctx.choice("pattern", patterns), ctx.choice("wrap", list(wrap))
    n = 2
    whole = s = schedule(n)
    if w == "schedule":
        s = schedule()
    s.add(IdlePulse(20e-9))
    t, ops = 20, []
    for i, idx in enumerate(pattern):
        g = ctx.int(f"g{i}", 4, 60000)
        kw = {} if idx is None else {"acq_index": idx}
        s.add(add(kind, 0, mode, {"x_0": i}, **kw), rel_time=g * 1e-9)
        s.add(IdlePulse(SPACE * 1e-9), ref_pt="start")
        ops.append((i, 0, [t + g]))
        t = t + g + SPACE
    if w == "schedule":
        whole.add(s)
    order = [i for i, x in enumerate(pattern) if x is not None] + [i for i, x in enumerate(pattern) if x is None]
    judge(ctx, whole, kind, mode, n, [ops[i] for i in order], t)


TRACES = {"QRM": ("QRM", "0"), "QRC": ("QRC", "0"), "QRC second input": ("QRC", "1")}


def trace(ctx, modules, reread=lambda c: c):
    """A scope trace: the samples of its own input, from its own start, for its own duration."""
    kind, io = TRACES[ctx.choice("module", modules)]
    ch = ctx.choice("channel", [0, "tr"])
    dur = ctx.choice("duration", [8, 20])
    mode = ctx.choice("mode", ["default", AV])
    graph = [["c0.module2.complex_output_0", "q0:res"], [f"c0.module2.complex_input_{io}", "q0:res"]]
    opts = {}
    if kind == "QRC":
        opts = {"modulation_frequencies": {"q0:res-q0.ro": {"interm_freq": 50e6}}}
        if io == "1":
            graph = [[f"c0.module2.complex_input_{io}", "q0:res"]]
    cfg = config(hw_dict({"2": {"instrument_type": kind}}, graph, opts))
    s = schedule(2, clocks=("q0.ro",))
    s.resources["q0.ro"]["freq"] = 5e9 if kind == "QRC" else FREQ
    s.add(IdlePulse(20e-9))
    g = ctx.int("g", 4, 60000)
    kw = {} if mode == "default" else {"bin_mode": mode}
    s.add(Trace(dur * 1e-9, "q0:res", "q0.ro", acq_channel=ch, coords={"x": 7}, **kw), rel_time=g * 1e-9)
    s.add(IdlePulse(1000e-9), ref_pt="start")
    c = compile(s, cfg)
    ((_, name), seq), *more = sequencers(c).items()
    ctx.check(not more, "one sequencer")
    tr = q1asm.run(ctx, seq.sequence["program"])
    o = origins(tr)
    ev = tr.of("acquire")
    ctx.check(len(ev) == 2 and len(o) == 2, "one trace per repetition")
    ctx.check(ctx.And([e.t == x + 20 + g for e, x in zip(ev, o)]), "the trace starts at its scheduled time")
    comp, cl = fake.component({2: kind})
    comp.prepare(reread(c).compiled_instructions["c0"])
    comp.start()
    module, a = cl.module(2), int(ev[0].args[0])
    samples = {
        p: [ctx.real(f"s{p}_{i}", -1, 1) if i < dur else 0.125 for i in range(dur + 4)] for p in range(4 if kind == "QRC" else 2)
    }
    scope = {f"path{p}": {"data": v, "out-of-range": False, "avg_cnt": 2} for p, v in samples.items()}
    n = int(name[3:])
    module.data = {
        n: {str(a): {"index": a, "acquisition": {"bins": {"integration": {"path0": [], "path1": []}, "threshold": [], "avg_cnt": []}, "scope": scope}}}
    }
    ds = comp.retrieve_acquisition()
    ctx.check(list(ds.data_vars) == [ch], "exactly the used channels come back")
    got = ds[ch].values.reshape(-1)
    ctx.check(ds[ch].shape == (1, dur), "the trace has one value per nanosecond", lambda: ds[ch].shape)
    ctx.check(module.stored == [(n, str(a))], "the scope memory is fetched", lambda: module.stored)
    x, y = (samples[2], samples[3]) if io == "1" else (samples[0], samples[1])
    for i in range(dur):
        ctx.check(
            ctx.And(ctx.near(got[i].real, x[i], 1e-9), ctx.near(got[i].imag, y[i], 1e-9)),
            "every sample of the trace comes back, of its own input",
            lambda: (i, got[i], x[i], y[i]),
        )
    ctx.cover("retrieved")


QTM = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QTM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module2.digital_input_0", "q0:res"],
            ["c0.module2.digital_input_4", "q1:res"],
        ],
    )
)


def windows(ctx, kind, layouts, reps=(1, 2)):
    """Windows of the time tagger: opened and closed on time, also by fractions of a nanosecond, each with its own bin."""
    n = ctx.choice("reps", list(reps))
    layout = ctx.choice("layout", layouts)
    k = [0]

    def build(s, layout, out):
        s.add(IdlePulse(20e-9))
        t = 20
        for item in layout:
            if isinstance(item, (list, tuple)):
                inner, sub = Schedule(f"inner{k[0]}"), []
                d = build(inner, item, sub)
                m = 2 if isinstance(item, list) else 1
                s.add(LoopOperation(inner, m) if isinstance(item, list) else inner)
                out += [(p, t + r * d + x, dur, f) for r in range(m) for p, x, dur, f in sub]
                t = t + m * d
                continue
            i, k[0] = k[0], k[0] + 1
            g, dur = ctx.int(f"g{i}", 4, 9000), ctx.int(f"d{i}", 24, 9000 if len(layout) > 1 else 140000)
            fine = (0, 0)
            if kind in ("tag", "trace"):
                fine = (1000 + i, 3 * i) if i else (ctx.int("f", 0, 2047), ctx.int("e", 0, 2047))
            kw = dict(port=f"q{item}:res", clock="q0.ro", duration=dur * 1e-9, acq_channel=item)
            if kind in ("tag", "trace"):
                kw |= dict(fine_start_delay=fine[0] / 128e9, fine_end_delay=fine[1] / 128e9)
            s.add({"tag": Timetag, "trace": TimetagTrace, "trig": TriggerCount}[kind](**kw), rel_time=g * 1e-9)
            s.add(IdlePulse(150000e-9), ref_pt="start")
            out.append((item, t + g, dur, fine))
            t = t + g + 150000
        return t

    s, ops = schedule(n), []
    s.add(SquarePulse(0.25, 20e-9, "q0:mw", "q0.01"))  # as reference for the start
    total = 20 + build(s, layout, ops)
    c = compile(s, QTM)
    o = origins(q1asm.run(ctx, sequencers(c)["module1", "seq0"].sequence["program"]))
    ctx.check(len(o) == n, "one origin per repetition")
    for port in {x[0] for x in ops}:
        exp = [x[1:] for x in ops if x[0] == port]
        seq = sequencers(c)["module2", f"seq{4 * port}"]
        tr = q1asm.run(ctx, seq.sequence["program"])
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        ctx.check(tr.end - o[-1] == total, "the program takes exactly the schedule duration", lambda: (tr.end - o[-1], total))
        ev = tr.of("acquire_ttl", "acquire_timetags")
        ctx.check(len(ev) == 2 * n * len(exp), "every acquisition happens once per repetition", lambda: (ev, exp))
        cells, size = [], {int(d["index"]): int(d["num_bins"]) for d in seq.sequence["acquisitions"].values()}
        for r in range(n):
            now = ev[2 * r * len(exp) : 2 * (r + 1) * len(exp)]
            for (a, b), (t, dur, f) in zip(zip(now[::2], now[1::2]), exp):
                ctx.check(int(a.args[2]) == 1 and int(b.args[2]) == 0, "windows are opened and closed in turn")
                ctx.check(a.t == o[r] + 20 + t, "the acquisition starts at its scheduled time", lambda: (a, t))
                ctx.check(b.t + b.dur == o[r] + 20 + t + dur, "windows have the requested length", lambda: (a, b, dur))
                if kind != "trig":
                    ctx.check(
                        ctx.And(ctx.exact(a.args[3]) == ctx.exact(f[0]), ctx.exact(b.args[3]) == ctx.exact(f[1])),
                        "windows are opened and closed as delayed as asked for",
                        lambda: (a.args, b.args, f),
                    )
                ctx.check(list(map(int, a.args[:2])) == list(map(int, b.args[:2])), "a window is closed in its own bin")
                cell = int(a.args[0]), int(a.args[1])
                ctx.check(cell[0] in size and 0 <= cell[1] < size[cell[0]], "the bin is declared", lambda: (cell, size))
                cells.append(cell)
        ctx.check(len(set(cells)) == len(cells), "no two acquisitions share a bin", lambda: cells)
    ctx.cover("end")


def same(ctx, kind, got, v):
    lab = "the value of every acquisition comes back at its own place"
    if kind in ("ssb", "sep", "num"):
        i, q = v
        if kind == "ssb":
            i, q = ctx.exact(i) / 400, ctx.exact(q) / 400
        if kind == "num":
            i, q = ctx.exact(i) + ctx.exact(q), 0
        ctx.check(ctx.And(ctx.near(got.real, i, 1e-9), ctx.near(got.imag, q, 1e-9)), lab, lambda: (got, v))
    else:
        ctx.check(got == v, lab, lambda: (got, v))


def HARNESSES(tier):
    b = "gaps 4..60000 ns, arbitrary acquired values"
    flat = [[0], [0, 1, 0], [0, "x", 0, 1], [0, (1, 0), 1]]
    loops = [[0, [0, 1], 1], [[0], 0], [[0, 0, 1], [1]], [[0, [1, 0]], 1], [(0, [1]), (0, [1])]]
    out = []
    for kind, mode, lay, reps in [
        ("ssb", AP, flat, (1, 3)),
        ("ssb", AV, flat + loops, (1, 3)),
        ("ssb", AP, loops, (1, 2)),
        ("sep", AP, [[0, [1]], [[0, 1], 0]], (2,)),
        ("num", AV, [[0, 1], [[0], 1]], (2,)),
        ("thr", AP, [[[0], 0]], (2,)),
        ("trig", AP, [[0, [0]], [0, 1, 0]], (2,)),
    ]:
        nm = f"{kind}_{mode.name.lower()}_{'loops' if lay is loops else 'flat'}"
        out.append(
            H(
                nm,
                scheduled,
                FUNCS,
                f"acquisition layouts {lay} (lists are loops of 3, tuples sub-schedules), repetitions {reps}; {b}",
                dict(kind=kind, mode=mode, layouts=lay, reps=reps),
                ("retrieved",),
            )
        )
    pats = [[None, 0], [None, 0, None, 1], [0, None, 1]]
    for kind, mode in [("ssb", AP), ("ssb", AV), ("thr", AP), ("trig", AP)]:
        out.append(
            H(
                f"explicit_{kind}_{mode.name.lower()}",
                explicit,
                FUNCS,
                f"acquisitions with and without index {pats}, also in a sub-schedule; {b}",
                dict(kind=kind, mode=mode, patterns=pats, wrap=[None, "schedule"]),
                ("retrieved",),
            )
        )
    out.append(
        H("trace", trace, FUNCS, f"scope traces on {list(TRACES)} at any time, any samples", dict(modules=list(TRACES)), ("retrieved",))
    )
    lay = [[0], [0, 1, 0], [0, [0, 0]], [[0], 1]]
    for kind in ("tag", "trace", "trig"):
        out.append(
            H(
                f"windows_{kind}",
                windows,
                FUNCS,
                f"windows of the time tagger, {lay} (lists are loops of 2), 1 or 2 repetitions, gaps 4..9000 ns, 24..140000 ns long, any delays of n/128 ns",
                dict(kind=kind, layouts=lay),
                ("end",),
            )
        )
    for kind, mode in [("ssb", AP), ("ssb", AV), ("trig", AP)]:
        chs = [[0, 0, 0], [0, 1, 0]]
        out.append(
            H(
                f"unordered_{kind}_{mode.name.lower()}",
                unordered,
                FUNCS,
                f"acquisitions on channels {chs}, each at any time in 9 us, in any order; {b}",
                dict(kind=kind, mode=mode, channels=chs),
                ("retrieved",),
            )
        )
        out.append(
            H(
                f"unordered_inside_{kind}_{mode.name.lower()}",
                unordered,
                FUNCS,
                f"acquisitions on channels {chs}, each at any time in 9 us, in any order, in a sub-schedule or loop; {b}",
                dict(kind=kind, mode=mode, channels=[[0, 0], [0, 1, 0]], reps=(2,), wrap=["schedule", "loop"]),
                ("retrieved",),
            )
        )
    return out
