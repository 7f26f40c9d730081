"""C01: absolute timing honours every timing constraint."""

from __future__ import annotations

from quantify_scheduler import Schedule
from quantify_scheduler.backends.graph_compilation import (
    CompilationConfig,
    DeviceCompilationConfig,
    SerialCompilationConfig,
)
from quantify_scheduler.compilation import _determine_absolute_timing
from quantify_scheduler.enums import SchedulingStrategy
from quantify_scheduler.operations.control_flow_library import (
    ConditionalOperation,
    LoopOperation,
)
from quantify_scheduler.operations.pulse_library import IdlePulse
from symx.runner import H

PTS = ["start", "center", "end"]
TOL = 1e-15
FUNCS = [
    "quantify_scheduler.compilation._determine_absolute_timing(+_schedule, _make_timing_constraints_explicit, "
    "_populate_references_graph, _apply_operation_delays, _get_start_time, _normalize_absolute_timing)",
    "quantify_scheduler.schedules.schedule.Schedule.add/get_schedule_duration, Schedulable.add_timing_constraint",
]


def cfg(strategy):
    return CompilationConfig(
        name="c",
        backend="quantify_scheduler.backends.graph_compilation.SerialCompiler",
        device_compilation_config=DeviceCompilationConfig(
            clocks={}, elements={}, edges={}, scheduling_strategy=strategy
        ),
    )


CFG = {s: cfg(s) for s in (SchedulingStrategy.ASAP, SchedulingStrategy.ALAP)}


def point(start, dur, pt):
    return {"start": start, "center": start + dur / 2, "end": start + dur}[pt]


def asap(ctx, n, hi, forks):
    """n operations; the newest references an arbitrary earlier one at arbitrary points."""
    s = Schedule("s")
    d, cons, handles = [], [], []
    for i in range(n):
        t, _ = ctx.ns(f"d{i}", 0, hi)
        d.append(t)
        if i == 0:
            handles.append(s.add(IdlePulse(t)))
            continue
        r, _ = ctx.ns(f"r{i}", -hi, hi)
        ref = ctx.choice(f"ref{i}", [None, *range(i)]) if i >= n - forks else None
        p = ctx.choice(f"p{i}", [None, *PTS]) if i >= n - forks else "end"
        q = ctx.choice(f"q{i}", [None, *PTS]) if i >= n - forks else "start"
        handles.append(
            s.add(
                IdlePulse(t),
                rel_time=r,
                ref_op=None if ref is None else handles[ref],
                ref_pt=p,
                ref_pt_new=q,
            )
        )
        cons.append((i, i - 1 if ref is None else ref, p or "end", q or "start", r))
    out = _determine_absolute_timing(s, config=CFG[SchedulingStrategy.ASAP])
    judge(ctx, out, d, cons, handles)


def judge(ctx, out, d, cons, handles):
    T = [ctx.exact(h["abs_time"]) for h in handles]
    D = [ctx.exact(x) for x in d]
    for i, j, p, q, r in cons:
        ctx.check(
            ctx.near(point(T[i], D[i], q), point(T[j], D[j], p) + ctx.exact(r), TOL * 20),
            "every constraint holds exactly",
        )
    ctx.check(ctx.And([t >= -ctx.exact(TOL) for t in T]), "no operation starts before 0")
    ctx.check(ctx.Or([ctx.near(t, 0, TOL) for t in T]), "some operation starts at 0")
    ends = [T[i] + D[i] for i in range(len(T))]
    dur = ctx.exact(out["duration"])
    ctx.check(
        ctx.And([dur >= e - ctx.exact(TOL) for e in ends]), "duration covers every operation"
    )
    ctx.check(
        ctx.Or([ctx.near(dur, e, TOL) for e in ends]), "duration is the end of the last operation"
    )
    ctx.cover("reached")


def alap(ctx, n, hi):
    """Every operation is by default placed against the next one (ALAP)."""
    s = Schedule("s")
    d, cons, handles = [], [], []
    for i in range(n):
        t, _ = ctx.ns(f"d{i}", 0, hi)
        r, _ = ctx.ns(f"r{i}", -hi, hi) if i < n - 1 else (0, 0)
        p = ctx.choice(f"p{i}", [None, *PTS]) if i == 0 else None
        q = ctx.choice(f"q{i}", [None, *PTS]) if i == 0 else None
        d.append(t)
        handles.append(s.add(IdlePulse(t), rel_time=r, ref_pt=p, ref_pt_new=q))
        if i < n - 1:
            cons.append((i, i + 1, p or "start", q or "end", r))
    out = _determine_absolute_timing(s, config=CFG[SchedulingStrategy.ALAP])
    judge(ctx, out, d, cons, handles)


def multi(ctx, hi, k):
    """An operation with several constraints starts at the latest time any of them asks for."""
    s = Schedule("s")
    d = [ctx.ns(f"d{i}", 0, hi)[0] for i in range(4)]
    a = s.add(IdlePulse(d[0]))
    ra = ctx.ns("ra", -hi, hi)[0]
    b = s.add(IdlePulse(d[1]), rel_time=ra, ref_op=a, ref_pt="start")
    c = s.add(IdlePulse(d[2]), rel_time=(r0 := ctx.ns("r0", -hi, hi)[0]), ref_op=a)
    handles = [a, b, c]
    mine = [(0, "end", "start", r0)]
    for j in range(k):
        p, q = ctx.choice(f"p{j}", PTS), ctx.choice(f"q{j}", PTS)
        r = ctx.ns(f"s{j}", -hi, hi)[0]
        j_ref = 1 if j == 0 else 0
        c.add_timing_constraint(r, handles[j_ref], p, q)
        mine.append((j_ref, p, q, r))
    last = s.add(IdlePulse(d[3]))
    handles.append(last)
    out = _determine_absolute_timing(s, config=CFG[SchedulingStrategy.ASAP])
    T = [ctx.exact(h["abs_time"]) for h in handles]
    D = [ctx.exact(x) for x in d]
    want = [point(T[j], D[j], p) + ctx.exact(r) - (point(T[2], D[2], q) - T[2]) for j, p, q, r in mine]
    ctx.check(
        ctx.And([T[2] >= w - ctx.exact(TOL * 20) for w in want]), "no constraint is violated"
    )
    ctx.check(
        ctx.Or([ctx.near(T[2], w, TOL * 20) for w in want]), "starts at the latest constraint"
    )
    judge(
        ctx, out, d, [(1, 0, "start", "start", ra), (3, 2, "end", "start", 0)], handles
    )


def nested(ctx, hi, kind, pts=PTS, counts=(3,), strategy="asap"):
    """Constraints inside and around a nested schedule, loop or conditional."""
    sub = Schedule("sub")
    d = [ctx.ns(f"d{i}", 0, hi)[0] for i in range(4)]
    r = [ctx.ns(f"r{i}", -hi, hi)[0] for i in range(3)]
    alap_ = strategy == "alap"
    p = ctx.choice("p", pts)
    ia = sub.add(IdlePulse(d[0]))
    ib = sub.add(IdlePulse(d[1]), rel_time=r[0], ref_pt=p, ref_pt_new="start", ref_op=None if alap_ else ia)
    subs = [ia, ib]
    n = 1
    buf = 0.0
    if kind == "schedule":
        body = sub
    elif kind in ("loop", "two_loops"):
        n = ctx.choice("n", list(counts))
        body = LoopOperation(sub, n)
    else:
        buf = ctx.ns("buf", 0, hi)[0]
        body = ConditionalOperation(sub, "q0", hardware_buffer_time=buf)
    s = Schedule("s")
    handles = [s.add(IdlePulse(d[2]))]
    q = ctx.choice("q", pts)
    handles.append(s.add(body, rel_time=r[1], ref_pt=q, ref_pt_new=q))
    dd, cons = [d[2], None], [(1, 0, q, q, r[1])]
    handles.append(s.add(IdlePulse(d[3]), rel_time=r[2], ref_op=handles[1], ref_pt=q))
    cons.append((2, 1, q, "start", r[2]))
    dd.append(d[3])
    if kind == "two_loops":
        handles.append(s.add(LoopOperation(sub, 3)))
        cons.append((3, 2, "end", "start", 0.0))
        dd.append(None)
    out = _determine_absolute_timing(s, config=CFG[SchedulingStrategy.ASAP])
    op = out.operations[handles[1]["operation_id"]]
    inner = op if kind == "schedule" else op.body
    hs = [inner.schedulables[str(h)] for h in subs]
    judge(ctx, inner, d[:2], [(1, 0, p, "start", r[0])], hs)
    T = [ctx.exact(h["abs_time"]) for h in hs]
    length = ctx.exact(inner["duration"])
    one = ctx.And([T[i] + ctx.exact(d[i]) <= length + ctx.exact(TOL) for i in (0, 1)])
    ctx.check(one, "a nested schedule spans its operations")
    total = length * n + ctx.exact(buf)
    ctx.check(
        ctx.near(op.duration, total, 1e-13),
        "loop duration is count times body, conditional is body plus buffer",
    )
    dd[1] = op.duration
    if kind == "two_loops":
        op2 = out.operations[handles[3]["operation_id"]]
        ctx.check(ctx.near(op2.duration, length * 3, 1e-13), "second loop has its own count")
        dd[3] = op2.duration
    judge(ctx, out, dd, cons, handles)


def history(ctx, hi, kinds):
    """Timed (in either unit), then extended inside and outside the nested part, then timed again."""
    kind = ctx.choice("kind", kinds)
    sub = Schedule("sub")
    d = [ctx.ns(f"d{i}", 0, hi)[0] for i in range(5)]
    r = [ctx.ns(f"r{i}", -hi, hi)[0] for i in range(2)]
    ia = sub.add(IdlePulse(d[0]))
    s = Schedule("s")
    if kind == "plain":
        body, sub, ha = None, s, s.add(IdlePulse(d[0]))
    else:
        body = sub if kind == "schedule" else LoopOperation(sub, 3)
        if kind == "conditional":
            body = ConditionalOperation(sub, "q0", hardware_buffer_time=0.0)
        ha = s.add(body)
    hb = s.add(IdlePulse(d[1]))
    first = ctx.choice("first", ["physical", "ideal"])
    s = _determine_absolute_timing(s, first, config=CFG[SchedulingStrategy.ASAP])
    cur = s
    if body is not None:
        op = s.operations[ha["operation_id"]]
        cur = op if kind == "schedule" else op.body
    ib = cur.add(IdlePulse(d[2]), rel_time=r[0])
    hc = s.add(IdlePulse(d[3]), rel_time=r[1])
    hd = s.add(IdlePulse(d[4]))
    out = _determine_absolute_timing(s, config=CFG[SchedulingStrategy.ASAP])
    if kind == "plain":
        judge(
            ctx,
            out,
            d[:5],
            [(1, 0, "end", "start", 0.0), (2, 1, "end", "start", r[0]), (3, 2, "end", "start", r[1]), (4, 3, "end", "start", 0.0)],
            [ha, hb, ib, hc, hd],
        )
        return
    op = out.operations[ha["operation_id"]]
    inner = op if kind == "schedule" else op.body
    judge(ctx, inner, [d[0], d[2]], [(1, 0, "end", "start", r[0])], [inner.schedulables[str(h)] for h in (ia, ib)])
    n = 3 if kind == "loop" else 1
    ctx.check(ctx.near(op.duration, ctx.exact(inner["duration"]) * n, 1e-13), "nested duration is up to date")
    judge(
        ctx,
        out,
        [op.duration, d[1], d[3], d[4]],
        [(1, 0, "end", "start", 0.0), (2, 1, "end", "start", r[1]), (3, 2, "end", "start", 0.0)],
        [ha, hb, hc, hd],
    )


def delay(ctx, hi, twice, pts=PTS):
    """A delay attached to an operation shifts exactly the operations that reference it."""
    s = Schedule("s")
    d = [ctx.ns(f"d{i}", 0, hi)[0] for i in range(3)]
    r = [ctx.ns(f"r{i}", -hi, hi)[0] for i in range(2)]
    w = ctx.ns("w", 0, hi)[0]
    op = IdlePulse(d[0])
    op.data["next_operation_delay"] = w
    p = ctx.choice("p", pts)
    a = s.add(op)
    b = s.add(IdlePulse(d[1]), rel_time=r[0], ref_op=a, ref_pt=p)
    ref = ctx.choice("ref", [0, 1])
    c = s.add(IdlePulse(d[2]), rel_time=r[1], ref_op=[a, b][ref])
    if twice:
        outer = Schedule("o")
        outer.add(LoopOperation(s, 2))
        outer.add(LoopOperation(s, 3))
        out = _determine_absolute_timing(outer, config=CFG[SchedulingStrategy.ASAP])
        ops = list(out.operations.values())
        views = [ops[0].body, ops[1].body]
    else:
        views = [_determine_absolute_timing(s, config=CFG[SchedulingStrategy.ASAP])]
    for v in views:
        judge(
            ctx,
            v,
            d,
            [
                (1, 0, p, "start", ctx.exact(r[0]) + ctx.exact(w)),
                (2, ref, "end", "start", ctx.exact(r[1]) + (ctx.exact(w) if ref == 0 else 0)),
            ],
            [v.schedulables[str(h)] for h in (a, b, c)],
        )


def HARNESSES(tier):
    hi = 10**6
    ns = "times on the 1 ns grid, 0..1 ms durations, -1..1 ms relative times"
    hs = [
        H("asap_2", asap, FUNCS, f"2 operations, any reference points; {ns}", dict(n=2, hi=hi, forks=1), ("reached",)),
        H("asap_3", asap, FUNCS, f"3 operations, the last with any reference; {ns}", dict(n=3, hi=hi, forks=1), ("reached",)),
        H("alap_3", alap, FUNCS, f"3 operations; {ns}", dict(n=3, hi=hi), ("reached",)),
        H("multi_1", multi, FUNCS, f"4 operations, one with 2 constraints; {ns}", dict(hi=hi, k=1), ("reached",)),
        H("delay", delay, FUNCS, f"3 operations; {ns}", dict(hi=hi, twice=False, pts=["center"]), ("reached",)),
        H("delay_twice", delay, FUNCS, f"3 operations inside two loops over the same schedule; {ns}", dict(hi=hi, twice=True, pts=["end"]), ("reached",)),
    ]
    kinds = ["plain", "schedule", "loop", "conditional"]
    hs.append(H("history", history, FUNCS, f"timed, extended, timed again; 3-5 operations; {ns}", dict(hi=hi, kinds=kinds), ("reached",)))
    for k in ("schedule", "loop", "conditional", "two_loops"):
        hs.append(
            H(
                f"nested_{k}",
                nested,
                FUNCS,
                f"2 inner, 2-3 outer operations, loop count 3; {ns}",
                dict(hi=hi, kind=k, pts=["center"] if k == "two_loops" else PTS),
                ("reached",),
            )
        )
        if k != "conditional" and k != "schedule":
            hs.append(
                H(
                    f"nested_{k}_counts",
                    nested,
                    FUNCS,
                    f"2 inner, 2-3 outer operations, loop counts 0, 1, 2, 50, 10000; {ns}",
                    dict(hi=hi, kind=k, pts=["start", "end"], counts=[0, 1, 2, 50, 10**4]),
                    ("reached",),
                    thorough_only=True,
                    opts={"max_paths": 60000},
                )
            )
    hs += [
        H("asap_3_all", asap, FUNCS, f"3 operations, any references; {ns}", dict(n=3, hi=hi, forks=2), ("reached",), thorough_only=True, opts={"max_paths": 60000}),
        H("asap_4", asap, FUNCS, f"4 operations; {ns}", dict(n=4, hi=hi, forks=1), ("reached",), thorough_only=True, opts={"max_paths": 60000}),
        H("alap_4", alap, FUNCS, f"4 operations; {ns}", dict(n=4, hi=hi), ("reached",), thorough_only=True),
        H("multi_2", multi, FUNCS, f"4 operations, one with 3 constraints; {ns}", dict(hi=hi, k=2), ("reached",), thorough_only=True, opts={"max_paths": 60000}),
    ]
    return hs
