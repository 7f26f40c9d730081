"""Schedules as trees, with the signal they ask for worked out independently of the compiler.

Nodes: ``"a"``/``"b"`` a 40 ns pulse on the first/second output (symbolic gap before it, its
own amplitude), ``"-"`` a pause (symbolic), ``[...]`` a loop, ``(...)`` a sub-schedule,
``{label: [...]}`` an acquisition followed by a conditional on its outcome.
"""

from __future__ import annotations

from harness.hw import *
from harness.signal import FS, origins, waves
from quantify_scheduler.operations import *

PORTS = {"a": ("q0:mw", "q0.01"), "b": ("q1:mw", "q1.01")}
DUR = 40
ACQ = 400


class Tree:
    def __init__(self, ctx, gap=(4, 60000), count=3, clocks=("q0.01", "q1.01", "q0.ro", "q1.ro"), acq="thr"):
        self.acq = acq
        self.ctx, self.gap, self.count, self.clocks = ctx, gap, count, clocks
        self.k = 0
        self.acqs = 0

    def sched(self, reps=1):
        return schedule(reps, self.clocks)

    def fill(self, s, nodes, inside=False):
        """Add nodes to s; returns (duration, events) with events (t, kind, key, amp, condition)."""
        ctx, t, ev = self.ctx, 0, []
        for x in nodes:
            k = self.k
            if isinstance(x, str):
                self.k += 1
                g = ctx.int(f"g{k}", *self.gap)
                if x == "-":
                    s.add(IdlePulse(g * 1e-9))
                    t = t + g
                    continue
                amp = round(0.93 - 0.13 * k, 2)
                s.add(IdlePulse(g * 1e-9))
                s.add(SquarePulse(amp, DUR * 1e-9, *PORTS[x]))
                ev.append((t + g, "play", x, amp, ()))
                t = t + g + DUR
            elif isinstance(x, list):
                inner = self.sched()
                d, e = self.fill(inner, x)
                n = self.ctx.choice(f"n{self.k}", self.count) if isinstance(self.count, (list, tuple)) else self.count
                self.k += 1
                s.add(LoopOperation(inner, n))
                ev += [(t + r * d + u, *rest) for r in range(n) for u, *rest in e]
                t = t + n * d
            elif isinstance(x, tuple):
                inner = self.sched()
                d, e = self.fill(inner, x)
                s.add(inner)
                ev += [(t + u, *rest) for u, *rest in e]
                t = t + d
            else:
                ((label, body),) = x.items()
                q = label
                s.add(acquisition(self.acq, label))
                ev.append((t, "acq", label, None, ()))
                self.k += 1
                g = ctx.int(f"c{k}", 400, 60000)
                s.add(IdlePulse(g * 1e-9))
                inner = self.sched()
                d, e = self.fill(inner, body)
                s.add(ConditionalOperation(inner, label))
                t = t + ACQ + g
                ev += [(t + u, kind, key, amp, (*c, label)) for u, kind, key, amp, c in e]
                t = t + d
        return t, ev


THRESHOLD = 4


def acquisition(kind, q):
    port, clock = f"{q}:res", f"{q}.ro"
    kw = dict(acq_channel=q, feedback_trigger_label=q)
    if kind == "thr":
        return ThresholdedAcquisition(port, clock, duration=ACQ * 1e-9, **kw)
    if kind == "weighted":
        w = [0.5] * ACQ
        return WeightedThresholdedAcquisition(port, clock, w, w, **kw)
    cond = "less_than" if kind.endswith("lt") else "greater_than_equal_to"
    return ThresholdedTriggerCount(
        port, clock, duration=ACQ * 1e-9, threshold=THRESHOLD, feedback_trigger_condition=cond, **kw
    )


def outcome(kind, x):
    """What the acquisition is asked to report for a measured x (a state, or a number of counts)."""
    if kind in ("thr", "weighted"):
        return x
    return x < THRESHOLD if kind.endswith("lt") else x >= THRESHOLD


def triggers(ctx, kind, x, sender):
    """How many triggers the instrument sends to which address for the measured x."""
    ctx.check(sender.thresholded_acq_trigger_write_en is True, "the acquisition sends a trigger")
    if not kind.startswith("qtm"):
        a = sender.thresholded_acq_trigger_write_address
        ctx.check(a is not None and 1 <= a <= 15, "the trigger address exists", lambda: a)
        return {int(a): (1 if x else 0) if kind in ("thr", "weighted") else x}
    g = lambda k: getattr(sender, "thresholded_acq_trigger_write_" + k)
    if ctx.branch(x >= g("threshold_high")):
        return {int(g("address_high")): 1}
    if ctx.branch(x < g("threshold_low")):
        return {int(g("address_low")): 1}
    return {int(g("address_mid")): 1}


def seen(reader, address, count):
    """State a sequencer derives from the counter of a trigger address."""
    r = (reader.thresholded_acq_trigger_read_settings or {}).get(address)
    need, inv = (1, False) if r is None else (r.thresholded_acq_trigger_count, r.thresholded_acq_trigger_invert)
    need = 1 if need is None else need
    return (count >= need) != bool(inv)


def condition(ctx, sent):
    """Latched trigger state as a function of how often the latches were reset before."""

    def state(tr, mask):
        k = len(tr.of("latch_rst")) - 1
        return {} if k < 0 else sent[k]

    return state


def check(ctx, nodes, reps=1, gap=(4, 60000), count=3, cfg=None, acq="thr", wave=True):
    kind = acq
    b = Tree(ctx, gap, count, acq=acq)
    n = ctx.choice("reps", list(reps)) if isinstance(reps, (list, tuple)) else reps
    s = b.sched(n)
    s.add(IdlePulse(20e-9))
    d, ev = b.fill(s, nodes)
    s.add(IdlePulse(100e-9))
    total = d + 120
    c = compile(s, cfg)
    seqs = sequencers(c)
    acq = [e for e in ev if e[1] == "acq"]
    # one outcome per executed acquisition
    def measured(name):
        return ctx.bool(name) if kind in ("thr", "weighted") else ctx.int(name, 0, 2 * THRESHOLD)

    xs = [[measured(f"bit{r}_{i}") for i in range(len(acq))] for r in range(n)]
    bits = [[ctx.branch(outcome(kind, x)) for x in row] for row in xs]
    flat = [x for row in bits for x in row]
    sent = [(e[2], triggers(ctx, kind, x, seqs[READ[e[2]]])) for row in xs for e, x in zip(acq, row)]
    address = {}
    for e in acq:
        g = lambda k: getattr(seqs[READ[e[2]]], "thresholded_acq_trigger_write_address" + k)
        address[e[2]] = {int(v) for v in ([g("_high"), g("_low"), g("_mid")] if kind.startswith("qtm") else [g("")]) if v}
        ctx.check(len(address[e[2]]) == 1, "a label has one trigger address", lambda: address)
    used = [v for a in address.values() for v in a]
    ctx.check(len(set(used)) == len(used), "one trigger address per label")
    out = {}
    for key, port in (("a", ("module1", "seq0")), ("b", ("module1", "seq1"))):
        want = [e for e in ev if e[1] == "play" and e[2] == key]
        if not want:
            ctx.check(port not in seqs or True, "unused outputs have no program")
            continue
        st = seqs[port]
        mine = {lab for e in want for lab in e[4]}
        latched = []
        for lab, tg in sent:
            if lab in mine:
                (a,) = address[lab]
                latched.append({a: ctx.branch(seen(st, a, tg.get(a, 0)))})
        tr = q1asm.run(ctx, st.sequence["program"], condition(ctx, latched))
        out[key] = tr
        ctx.check(tr.stopped and not tr.hazards, "the program runs to its end", lambda: tr.hazards)
        o = origins(tr)
        ctx.check(len(o) == n, "one origin per repetition")
        for r in range(1, n):
            ctx.check(o[r] - o[r - 1] == o[1] - o[0], "repetitions follow each other evenly")
            ctx.check(o[r] - o[r - 1] >= total, "a repetition lasts as long as the schedule")
        ctx.check(tr.end - o[-1] == total, "the program takes exactly the schedule duration", lambda: (tr.end, o, total))
        exp = []
        for r in range(n):
            i, taken = 0, {}
            for e in ev:
                if e[1] == "acq":
                    taken[e[2]] = bits[r][i]
                    i += 1
                elif e[2] == key and all(taken[x] for x in e[4]):
                    exp.append((o[r] + 20 + e[0], e[3]))
        plays = tr.of("play")
        ctx.check(len(plays) == len(exp), "every pulse is played as often as asked", lambda: (plays, exp))
        w = waves(st)
        for p, (t, amp) in zip(plays, exp):
            ctx.check(p.t == t, "every pulse starts when scheduled", lambda: (p, t))
            if wave:
                g = p.par["set_awg_gain"]
                data = w[int(p.args[0])]
                ctx.check(len(data) == DUR, "the pulse has the right length")
                ctx.check(
                    ctx.near(ctx.exact(data[0]) * ctx.exact(g[0]), ctx.exact(amp) * FS, 1), "the pulse has its amplitude"
                )
                ctx.check(ctx.near(ctx.exact(g[1]), 0, 1), "the other quadrature stays silent")
        if acq and mine:
            lr = tr.of("latch_rst")
            times = [o[r] + 20 + e[0] for r in range(n) for e in acq if e[2] in mine]
            ctx.check(len(lr) == len(times), "the latches are reset once per acquisition")
            for x, t in zip(lr, times):
                ctx.check(ctx.And(x.t >= t, x.t < t + ACQ), "the latches are reset while the acquisition runs")
            ctx.cover("taken", any(flat))
            ctx.cover("skipped", not all(flat))
    if len(out) == 2:
        ctx.check(out["a"].end == out["b"].end, "all sequencers take the same time")
        ctx.check(
            ctx.And([x == y for x, y in zip(origins(out["a"]), origins(out["b"]))]), "sequencers stay aligned"
        )
    ctx.cover("end")


READ = {"q0": ("module2", "seq0"), "q1": ("module2", "seq1")}
TREE_CFG = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module1.complex_output_1", "q1:mw"],
            ["c0.module2.complex_output_0", "q0:res"],
            ["c0.module2.complex_input_0", "q0:res"],
            ["c0.module2.complex_output_0", "q1:res"],
            ["c0.module2.complex_input_0", "q1:res"],
        ],
    )
)
TTL_CFG = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module1.complex_output_1", "q1:mw"],
            ["c0.module2.real_input_0", "q0:res"],
            ["c0.module2.real_input_1", "q1:res"],
        ],
        {"digitization_thresholds": {f"q{i}:res-q{i}.ro": {"analog_threshold": 0.5} for i in (0, 1)}},
    )
)
QTM_CFG = config(
    hw_dict(
        {"1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QTM"}},
        [
            ["c0.module1.complex_output_0", "q0:mw"],
            ["c0.module1.complex_output_1", "q1:mw"],
            ["c0.module2.digital_input_0", "q0:res"],
            ["c0.module2.digital_input_1", "q1:res"],
        ],
        {"digitization_thresholds": {f"q{i}:res-q{i}.ro": {"analog_threshold": 0.5} for i in (0, 1)}},
    )
)
