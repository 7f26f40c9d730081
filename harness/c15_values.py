"""C15: what the instrument measured comes back as the quantity each acquisition protocol promises."""

from __future__ import annotations

import math

from harness import fake
from harness.hw import *
from harness.signal import origins
from quantify_scheduler.enums import BinMode, TriggerCondition
from quantify_scheduler.operations import *
from symx.runner import H

FUNCS = [
    "SerialCompiler.compile (acquisition data and settings of every protocol)",
    "ClusterComponent.prepare/start/retrieve_acquisition, acquisition managers of QRM, QRM-RF, QRC and QTM",
]
AP, AV, SUM, DIST, FIRST = BinMode.APPEND, BinMode.AVERAGE, BinMode.SUM, BinMode.DISTRIBUTION, BinMode.FIRST
NAN = float("nan")
TH = {"digitization_thresholds": {f"q{i}:res-q0.ro": {"analog_threshold": 0.5} for i in (0, 1)}}


def cfg(kind, graph):
    rf = {"QRM_RF": 6e9, "QRC": 6e9}.get(kind)
    opt = dict(TH)
    if rf:
        opt["modulation_frequencies"] = {f"q{i}:res-q0.ro": {"interm_freq": 5e7} for i in (0, 1)}
        opt["digitization_thresholds"] = {}
    return config(hw_dict({"1": {"instrument_type": "QCM"}, "2": {"instrument_type": kind}}, graph, opt))


A, B = "q0:res", "q1:res"
CFGS = {
    "QRM": cfg("QRM", [["c0.module2.complex_output_0", A], ["c0.module2.complex_input_0", A]]),
    "ttl": cfg("QRM", [["c0.module2.real_input_0", A], ["c0.module2.real_input_1", B]]),
    "QRM_RF": cfg("QRM_RF", [["c0.module2.complex_output_0", A], ["c0.module2.complex_input_0", A]]),
    "QRC0": cfg("QRC", [["c0.module2.complex_output_0", A], ["c0.module2.complex_input_0", A]]),
    "QRC1": cfg("QRC", [["c0.module2.complex_output_1", A], ["c0.module2.complex_input_1", A]]),
    "QTM": cfg("QTM", [["c0.module2.digital_input_0", A], ["c0.module2.digital_input_3", B]]),
}
KIND = {"ttl": "QRM", "QRC0": "QRC", "QRC1": "QRC"}


def run(s, name, raw, scope=None):
    """Compile for CFGS[name], let the instrument answer {sequencer: raw}, return the dataset and the module."""
    c = compile(s, CFGS[name])
    comp, cl = fake.component({1: "QCM", 2: KIND.get(name, name)})
    comp.prepare(c.compiled_instructions["c0"])
    comp.start()
    m = cl.module(2)
    m.data = raw
    for k, v in (scope or {}).items():
        m.io_channels[k].get_scope_data = lambda v=v: v
    return comp.retrieve_acquisition(), m


def bins(n, **kw):
    d = {"integration": {"path0": [0.0] * n, "path1": [0.0] * n}, "threshold": [0.0] * n, "avg_cnt": [0] * n}
    d.update(kw)
    return {"index": 0, "acquisition": {"bins": d, "scope": {}}}


def make(ctx, s, n, op):
    """n equal acquisitions, one after the other."""
    s.add(IdlePulse(20e-9))
    for i in range(n):
        s.add(op(i))
        s.add(IdlePulse(400e-9))


def flat(da, n, mode, reps):
    """The values of a channel in order of repetition, then of acquisition index."""
    lab = [int(x) for x in da["acq_index_0"].values]
    assert sorted(lab) == list(range(n)), lab
    pick = lambda row: [row[lab.index(i)] for i in range(n)]
    return sum((pick(da.values[r]) for r in range(reps)), []) if mode in (AP,) else pick(da.values)


def integrated(ctx, protocol, mode, module):
    """SSB: the mean of the samples.  Weighted separated: the pair of weighted sums.  Weighted: their sum."""
    reps, n = ctx.choice("reps", [1, 2]), ctx.choice("n", [1, 3])
    kw = dict(acq_channel=0, bin_mode=mode)
    L = ctx.int("length", 4, 16 * 10**6) if protocol == "ssb" else 20
    s = schedule(reps, clocks=())
    s.add_resource(ClockResource("q0.ro", 6.05e9 if module not in ("QRM", "ttl") else FREQ))

    def op(i):
        if protocol == "ssb":
            return SSBIntegrationComplex(A, "q0.ro", duration=L * 1e-9, **kw)
        if protocol == "sep":
            return NumericalSeparatedWeightedIntegration(A, "q0.ro", [0.5] * 20, [0.25] * 20, **kw)
        if protocol == "wsep":
            w = {"wf_func": "quantify_scheduler.waveforms.square", "duration": 20e-9}
            return WeightedIntegratedSeparated(
                w | {"amp": 0.5}, w | {"amp": 0.25}, A, "q0.ro", duration=20e-9, **kw
            )
        return NumericalWeightedIntegration(A, "q0.ro", [0.5] * 20, [0.25] * 20, **kw)

    make(ctx, s, n, op)
    m = n * reps if mode == AP else n
    v = [(ctx.real(f"i{k}", -(10**7), 10**7), ctx.real(f"q{k}", -(10**7), 10**7)) for k in range(m)]
    raw = bins(m, integration={"path0": [i for i, _ in v], "path1": [q for _, q in v]})
    ds, mod = run(s, module, {0: {"0": raw}})
    ctx.check(list(ds.data_vars) == [0], "exactly the channel of the schedule comes back")
    if protocol == "ssb":
        ctx.check(
            mod.sequencers[0].parameters["integration_length_acq"]() == L, "the instrument integrates for the duration"
        )
    got = flat(ds[0], n, mode, reps)
    ctx.check(len(got) == m, "one value per acquisition")
    for g, (i, q) in zip(got, v):
        i, q = ctx.exact(i), ctx.exact(q)
        if protocol == "num":
            i, q = i + q, 0
        d = ctx.exact(L) if protocol == "ssb" else 1
        ctx.check(
            ctx.And(ctx.near(g.real, i / d, 1e-6), ctx.near(g.imag, ctx.exact(q) / d, 1e-6)),
            "the integrated value is the one measured (mean, weighted pair, or weighted sum)",
            lambda: (g, i, q, d),
        )
    ctx.cover("end")


def thresholded(ctx, protocol, mode, module):
    reps, n = ctx.choice("reps", [1, 2]), ctx.choice("n", [1, 2])
    kw = dict(acq_channel=0, bin_mode=mode)
    s = schedule(reps, clocks=())
    s.add_resource(ClockResource("q0.ro", 6.05e9 if module not in ("QRM", "ttl") else FREQ))
    if protocol == "thr":
        op = lambda i: ThresholdedAcquisition(A, "q0.ro", duration=200e-9, **kw)
    else:
        op = lambda i: WeightedThresholdedAcquisition(A, "q0.ro", [0.5] * 20, [0.25] * 20, **kw)
    make(ctx, s, n, op)
    m = n * reps if mode == AP else n
    v = [NAN if ctx.choice(f"nan{k}", [False, True]) else ctx.real(f"v{k}", 0, 1) for k in range(m)]
    ds, _ = run(s, module, {0: {"0": bins(m, threshold=v)}})
    got = flat(ds[0], n, mode, reps)
    ctx.check(len(got) == m, "one value per acquisition")
    for g, x in zip(got, v):
        if x is NAN:
            ctx.check(g == -1, "an acquisition without result gives -1")
        else:
            ctx.check(g == x, "the thresholded result is the one measured", lambda: (g, x))
    ctx.cover("end")


def counted(ctx, module, mode):
    """Trigger counts, appended or summed."""
    reps, n = ctx.choice("reps", [1, 2, 3]), ctx.choice("n", [1, 2])
    s = schedule(reps)
    make(ctx, s, n, lambda i: TriggerCount(A, "q0.ro", duration=200e-9, acq_channel=0, bin_mode=mode))
    m = n * reps if mode == AP else n
    v = [ctx.int(f"c{k}", 0, 10**7) for k in range(m)]
    kw = {"avg_cnt": v}
    if module == "QTM":
        kw = {"count": v, "avg_cnt": [7] * m, "threshold": [0] * m, "timedelta": [0] * m}
    ds, _ = run(s, module, {0: {"0": bins(m, **kw)}})
    got = flat(ds[0], n, mode, reps)
    ctx.check(len(got) == m, "one value per acquisition")
    k = reps if mode == SUM and module == "QTM" else 1  # the QTM averages over the repetitions
    for g, x in zip(got, v):
        ctx.check(g == x * k, "the count is the one measured", lambda: (g, x))
    ctx.cover("end")


def threshold_counted(ctx, module):
    """ThresholdedTriggerCount compares the count with the threshold of its own acquisition."""
    reps, n = ctx.choice("reps", [1, 2]), 2
    cond = ctx.choice("condition", [TriggerCondition.GREATER_THAN_EQUAL_TO, TriggerCondition.LESS_THAN])
    th = ctx.int("threshold", 0, 10**6)
    s = schedule(reps)
    make(
        ctx,
        s,
        n,
        lambda i: ThresholdedTriggerCount(
            A, "q0.ro", duration=200e-9, threshold=th, acq_channel=0, feedback_trigger_condition=cond
        ),
    )
    m = n * reps
    bad = ctx.choice("nan", [None, 0, m - 1])
    v = [NAN if bad == k else ctx.int(f"c{k}", 0, 10**7) for k in range(m)]
    kw = {"count": v, "avg_cnt": [7] * m} if module == "QTM" else {"avg_cnt": v}
    ds, _ = run(s, module, {0: {"0": bins(m, **kw)}})
    got = flat(ds[0], n, AP, reps)
    for g, x in zip(got, v):
        if x is NAN:
            ctx.check(g == -1, "an acquisition without result gives -1")
            continue
        yes = x >= th if cond == TriggerCondition.GREATER_THAN_EQUAL_TO else x < th
        ctx.check(ctx.And(ctx.Or(ctx.Not(yes), g == 1), ctx.Or(yes, g == 0)), "the count is compared with the threshold")
    ctx.cover("end")


def dual(ctx):
    reps, n = ctx.choice("reps", [1, 2]), 2
    s = schedule(reps)
    make(
        ctx,
        s,
        n,
        lambda i: DualThresholdedTriggerCount(
            A, "q0.ro", duration=200e-9, threshold_low=2, threshold_high=5, acq_channel=0
        ),
    )
    m = n * reps
    v = [ctx.int(f"c{k}", 0, 10**7) for k in range(m)]
    ds, _ = run(s, "QTM", {0: {"0": bins(m, count=v, avg_cnt=[7] * m)}})
    got = flat(ds[0], n, AP, reps)
    ctx.check(ctx.And([g == x for g, x in zip(got, v)]), "the raw counts come back")
    ctx.cover("end")


def distribution(ctx, size):
    """The instrument gives in bin k how often more than k counts were seen."""
    s = schedule(ctx.choice("reps", [1, 4]))
    make(ctx, s, 1, lambda i: TriggerCount(A, "q0.ro", duration=200e-9, acq_channel=0, bin_mode=DIST, coords={"x": 7}))
    d = [ctx.int(f"d{k}", 0, 10**6) for k in range(size)]  # d[k]: times that k+1 counts were seen
    used = ctx.choice("filled", range(size + 1))
    cum = []
    for k in range(size):
        cum.append(sum(d[j] for j in range(k, used)) if k < used else NAN)
    ds, _ = run(s, "ttl", {0: {"0": bins(size, avg_cnt=cum)}})
    da = ds[0]
    got = {int(c): x for c, x in zip(da["counts_0"].values, da.values)}
    ctx.check(len(got) == len(da.values), "every number of counts appears once")
    for k in range(size):
        if k + 1 in got:
            ctx.check(got[k + 1] == (d[k] if k < used else 0), "the occurrences of a number of counts", lambda: (k, got))
        elif k < used:
            ctx.check(d[k] == 0, "a number of counts that was seen comes back", lambda: (k, got))
    ctx.check(list(da["acq_index_0"].values) == list(range(len(got))), "indices are consecutive")
    ctx.check(all(int(x) == 7 for x in da["x"].values), "coordinates are kept")
    ctx.cover("end")


def trace(ctx, module, n):
    """The first samples of the scope memory of the input that is connected."""
    s = schedule(1, clocks=())
    s.add_resource(ClockResource("q0.ro", 6.05e9 if module not in ("QRM", "ttl") else FREQ))
    s.add(IdlePulse(20e-9))
    L = ctx.int("duration", 4, n)
    s.add(Trace(L * 1e-9, A, "q0.ro", acq_channel=0, bin_mode=AV))
    s.add(IdlePulse(400e-9))
    paths = [[ctx.real(f"p{p}_{k}", -1, 1) for k in range(n)] for p in range(4)]
    raw = bins(1)
    raw["acquisition"]["scope"] = {
        f"path{p}": {"data": list(paths[p]), "out-of-range": False, "avg_cnt": 1} for p in range(4)
    }
    ds, mod = run(s, module, {0: {"0": raw}})
    a, b = (2, 3) if module == "QRC1" else (0, 1)
    ctx.check(mod.stored == [(0, "0")], "the scope memory of the right sequencer is read")
    v = ds[0].values
    ctx.check(v.shape[0] == 1 and ctx.exact(L) == v.shape[1], "as many samples as asked for", lambda: v.shape)
    for k in range(v.shape[1]):
        ctx.check(
            ctx.And(v[0][k].real == paths[a][k], v[0][k].imag == paths[b][k]), "the samples of the connected input"
        )
    ctx.cover("end")


def timetag(ctx, mode):
    reps, n = ctx.choice("reps", [1, 2]), ctx.choice("n", [1, 2])
    s = schedule(reps)
    make(ctx, s, n, lambda i: Timetag(200e-9, A, "q0.ro", acq_channel=0, bin_mode=mode))
    m = n * reps if mode == AP else n
    v = [ctx.int(f"t{k}", -(10**9), 10**9) for k in range(m)]
    ds, _ = run(s, "QTM", {0: {"0": bins(m, timedelta=v, count=[1] * m)}})
    got = flat(ds[0], n, mode, reps)
    ctx.check(len(got) == m, "one value per acquisition")
    for g, x in zip(got, v):
        ctx.check(ctx.exact(g) * 2048 == x, "the time tag in nanoseconds")
    ctx.cover("end")


def timetag_trace(ctx, ns, loops, reps=(1, 2)):
    """Every window's events relative to the first one, which the instrument reports relative to the reference."""
    reps, n = ctx.choice("reps", list(reps)), ctx.choice("n", list(ns))
    loop = ctx.choice("loop", list(loops))
    s = schedule(reps)
    ops = schedule()
    make(ctx, ops if loop else s, n, lambda i: TimetagTrace(200e-9, A, "q0.ro", acq_channel=0))
    order = list(range(n))  # acquisition index of every window of a repetition
    if loop:
        s.add(LoopOperation(ops, 2))
        order = [2 * i + k for k in range(2) for i in range(n)]
        n *= 2
    m = n * reps
    (seq,) = [v for k, v in sequencers(compile(s, CFGS["QTM"])).items() if k[0] == "module2"]
    tr = q1asm.run(ctx, seq.sequence["program"])
    cell = [int(e.args[1]) for e in tr.of("acquire_timetags") if int(e.args[2]) == 1]
    ctx.check(sorted(cell) == list(range(m)), "every window has a bin of its own", lambda: cell)
    scope, first, exp, t = [], [0] * m, [], 0
    for w in range(m):
        t = t + 10**6
        scope.append(("OPEN", t))
        k = ctx.choice(f"events{w}", [0, 1, 2] if w in (0, m - 1) else [1, 2] if w == 1 else [1])
        ref, e, exp_w = ctx.int(f"ref{w}", 0, 400000), t, []
        for j in range(k):
            e = e + ctx.int(f"e{w}_{j}", 1, 100000)
            scope.append(("RISE", e))
            exp_w.append(e)
        first[cell[w]] = ref if k else 0
        exp.append([x - exp_w[0] + ref for x in exp_w])
        scope.append(("CLOSE", t + 409600))
    ds, _ = run(s, "QTM", {0: {"0": bins(m, timedelta=first, count=[1] * m)}}, {0: scope})
    v = ds[0].values
    lab = [int(x) for x in ds[0]["acq_index_0"].values]
    ctx.check(v.shape[:2] == (reps, n), "one window per acquisition", lambda: v.shape)
    for r in range(reps):
        for w in range(n):
            row, e = v[r][lab.index(order[w])], exp[r * n + w]
            row = [x for x in row if not (type(x).__name__ in ("float", "float64") and math.isnan(x))]
            moved = order[w] != w  # windows in another order than the indices
            ctx.check(
                len(row) == len(e),
                f"the number of events of a window{' out of index order' if moved else ''}",
                lambda: (r, w, row, e),
            )
            ctx.check(
                ctx.And([ctx.exact(x) * 2048 == y for x, y in zip(row, e)]),
                f"the events of a window{' out of index order' if moved else ''}, in nanoseconds",
                lambda: (r, w, row, e),
            )
    ctx.cover("end")


def digital_trace(ctx, n):
    s = schedule(1)
    s.add(IdlePulse(20e-9))
    L = ctx.int("duration", 8, n)
    s.add(Trace(L * 1e-9, A, "q0.ro", acq_channel=0, bin_mode=FIRST))
    s.add(IdlePulse(400e-9))
    v = [ctx.int(f"s{k}", 0, 1) for k in range(n)]
    ds, _ = run(s, "QTM", {0: {"0": bins(1)}}, {0: list(v)})
    g = ds[0].values
    ctx.check(g.shape[0] == 1 and ctx.exact(L) == g.shape[1], "as many samples as asked for", lambda: g.shape)
    ctx.check(ctx.And([a == b for a, b in zip(g[0], v)]), "the samples of the input")
    ctx.cover("end")


def several(ctx, kinds):
    """Every sequencer of a module has its own duration, and its values stay its own."""
    kind = ctx.choice("kind", kinds)
    s = schedule(1, clocks=())
    clocks = ["q0.ro", "q1.ro"]
    for c in clocks:
        s.add_resource(ClockResource(c, FREQ))
    s.add(IdlePulse(20e-9))
    tagger = kind == "tagger"
    L = [ctx.int(f"length{k}", 8, 12 if tagger or (kind == "trace" and k == 0) else 1000) for k in (0, 1)]
    for k, (c, n) in enumerate(zip(clocks, L)):
        if tagger:
            op = Trace(n * 1e-9, (A, B)[k], "q0.ro", acq_channel=k, bin_mode=FIRST)
        elif kind == "trace" and k == 0:
            op = Trace(n * 1e-9, A, c, acq_channel=k, bin_mode=AV)
        elif kind == "thr" and k == 1:
            op = ThresholdedAcquisition(A, c, duration=n * 1e-9, acq_channel=k, bin_mode=AP)
        else:
            op = SSBIntegrationComplex(A, c, duration=n * 1e-9, acq_channel=k, bin_mode=AV if kind == "trace" else AP)
        s.add(op)
        s.add(IdlePulse(400e-9))
    v = [(ctx.real(f"i{k}", -(10**7), 10**7), ctx.real(f"q{k}", -(10**7), 10**7)) for k in (0, 1)]
    x = ctx.real("result", 0, 1)
    p = [[ctx.int(f"s{k}_{j}", 0, 1) for j in range(12)] for k in (0, 1)]
    if tagger:
        ds, _ = run(s, "QTM", {0: {"0": bins(1)}, 3: {"0": bins(1)}}, {0: list(p[0]), 3: list(p[1])})
    else:
        raw = [bins(1, integration={"path0": [a], "path1": [b]}, threshold=[x]) for a, b in v]
        raw[0]["acquisition"]["scope"] = {
            f"path{j}": {"data": list(p[j]), "out-of-range": False, "avg_cnt": 1} for j in (0, 1)
        }
        ds, mod = run(s, "QRM", {0: {"0": raw[0]}, 1: {"0": raw[1]}})
        for k in (0, 1):
            if kind == "ssb" or k == 1:
                ctx.check(
                    mod.sequencers[k].parameters["integration_length_acq"]() == L[k],
                    "every sequencer integrates for the duration of its acquisitions",
                )
    ctx.check(sorted(ds.data_vars) == [0, 1], "exactly the channels of the schedule come back")
    for k in (0, 1):
        g = ds[k].values
        if tagger or (kind == "trace" and k == 0):
            ctx.check(ctx.exact(L[k]) == g.shape[1], "every trace has its own length", lambda: (k, g.shape, L))
            for j in range(g.shape[1]):
                y = g[0][j]
                ok = y == p[k][j] if tagger else ctx.And(y.real == p[0][j], y.imag == p[1][j])
                ctx.check(ok, "the samples are those of the acquisition's own input")
        elif kind == "thr" and k == 1:
            ctx.check(g.reshape(-1)[0] == x, "thresholded results stay with their acquisition", lambda: g)
        else:
            d, (a, b) = ctx.exact(L[k]), v[k]
            y = g.reshape(-1)[0]
            ctx.check(
                ctx.And(ctx.near(y.real, ctx.exact(a) / d, 1e-6), ctx.near(y.imag, ctx.exact(b) / d, 1e-6)),
                "the mean is taken over the acquisition's own duration",
                lambda: (k, y, a, b, L),
            )
    ctx.cover("end")


def HARNESSES(tier):
    out = []

    def add(name, fn, bounds, **params):
        out.append(H(name, fn, FUNCS, bounds, params, ("end",)))

    for p, m, mod in [
        ("ssb", AP, "QRM"),
        ("ssb", AV, "QRM_RF"),
        ("ssb", AP, "QRC1"),
        ("sep", AP, "QRM"),
        ("wsep", AV, "QRM"),
        ("num", AP, "QRM"),
        ("num", AV, "QRM_RF"),
    ]:
        add(f"{p}_{m.name}_{mod}", integrated, "values +-1e7, lengths 4 ns..16 ms", protocol=p, mode=m, module=mod)
    for p, m, mod in [("thr", AP, "QRM"), ("thr", AV, "QRM_RF"), ("wthr", AP, "QRM"), ("wthr", AV, "QRM")]:
        add(f"{p}_{m.name}_{mod}", thresholded, "results in [0, 1] or missing", protocol=p, mode=m, module=mod)
    for mod, m in [("ttl", AP), ("QTM", AP), ("ttl", SUM), ("QTM", SUM)]:
        add(f"count_{m.name}_{mod}", counted, "counts up to 1e7", module=mod, mode=m)
    for mod in ("ttl", "QTM"):
        add(f"ttc_{mod}", threshold_counted, "counts up to 1e7 or missing, thresholds up to 1e6", module=mod)
    add("dual", dual, "counts up to 1e7")
    add("distribution", distribution, "up to 4 bins, up to 1e6 occurrences each", size=4)
    for mod in ("QRM", "QRC0", "QRC1", "QRM_RF"):
        add(f"trace_{mod}", trace, "12 samples, any duration up to 12 ns", module=mod, n=12)
    add("timetag_append", timetag, "time tags +-1e9", mode=AP)
    add("timetag_average", timetag, "time tags +-1e9", mode=AV)
    add("timetag_trace", timetag_trace, "up to 6 windows, up to 2 events each", ns=[1, 2, 3], loops=[False])
    add("timetag_trace_loop", timetag_trace, "up to 4 windows, up to 2 events each", ns=[1], loops=[True])
    add(
        "timetag_trace_loop2",
        timetag_trace,
        "two acquisitions in a loop of 2, one repetition",
        ns=[2],
        loops=[True],
        reps=(1,),
    )
    add("several", several, "two sequencers of one module with durations of up to 1000 ns (traces 12 ns) each",
        kinds=["ssb", "thr", "trace", "tagger"])
    add("digital_trace", digital_trace, "16 samples, any duration up to 16 ns", n=16)
    return out
