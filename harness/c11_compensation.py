"""C11: compensation pulses make the integral of every port zero, and leave everything else as it is."""

from __future__ import annotations

from fractions import Fraction as F

from harness.c22_gates import flat
from harness.hw import *
from quantify_scheduler.backends.graph_compilation import OperationCompilationConfig
from quantify_scheduler.enums import SchedulingStrategy
from quantify_scheduler.operations import *
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.resources import BasebandClockResource
from symx.runner import H

FUNCS = [
    "pulse_compensation.process_compensation_pulses",
    "helpers.waveforms.area_pulse",
    "compilation._determine_absolute_timing, Schedule.get_schedule_duration",
    "SerialCompiler.compile (device level)",
]
CLK = BasebandClockResource.IDENTITY
MAX = {"q0:gt": F(2, 5), "q1:gt": F(4, 5)}


def cfg(strategy):
    return SerialCompilationConfig(
        name="cfg",
        hardware_compilation_config=None,
        device_compilation_config=DeviceCompilationConfig(
            clocks={}, elements={}, edges={}, scheduling_strategy=strategy
        ),
    )


class Body:
    """Builds a schedule from a layout, and what it plays: (start, amplitude at start, end, area, port), in ns."""

    def __init__(self, ctx):
        self.ctx, self.n, self.reps = ctx, 0, 1

    def fill(self, nodes, name="body"):
        s, ev, t = Schedule(name), [], 0
        for x in nodes:
            op, e, d = self.op(x)
            s.add(op)
            ev += [(t + u, a, t + v, area, p) for u, a, v, area, p in e]
            t = t + d
        return s, ev, t

    def op(self, x):
        ctx = self.ctx
        if isinstance(x, list):  # loop of 3, of an operation or a schedule
            self.reps *= 3
            s, ev, d = self.op(x[0]) if len(x) == 1 else self.fill(x, "looped")
            self.reps //= 3
            return LoopOperation(s, 3), [(u + d * r, a, v + d * r, ar, p) for r in range(3) for u, a, v, ar, p in ev], d * 3
        if isinstance(x, tuple):
            return self.fill(x, "inner")
        self.n += 1
        if x == "i":
            g = ctx.int(f"g{self.n}", 4, 500)
            return IdlePulse(g * 1e-9), [], g
        if x == "m":  # not at baseband
            return SquarePulse(0.3, 42e-9, "q0:gt", "q0.01"), [(0, 0.3, 42, None, "q0:gt")], 42
        lim = F(1, 8) / self.reps
        a = ctx.real(f"a{self.n}", -lim, lim)
        if x == "a":
            return SquarePulse(a, 42e-9, "q0:gt", CLK), [(0, a, 42, a * 42, "q0:gt")], 42
        if x == "b":
            return SquarePulse(a, 62e-9, "q1:gt", CLK), [(0, a, 62, a * 62, "q1:gt")], 62
        if x == "r":  # mean of the samples of a ramp of 22 ns
            o = ctx.real(f"o{self.n}", -lim / 2, lim / 2)
            return RampPulse(a, 22e-9, "q0:gt", offset=o, clock=CLK), [(0, o, 22, a * F(21, 2) + o * 22, "q0:gt")], 22
        if x == "t":  # two pulses of one operation, on two ports, the second one later
            w = ctx.int(f"w{self.n}", 0, 500)
            op = Operation(f"two{self.n}")
            info = lambda a, d, port, t0: dict(
                wf_func="quantify_scheduler.waveforms.square", amp=a, duration=d, t0=t0, port=port, clock=CLK, reference_magnitude=None
            )
            op.data["pulse_info"] = [info(a, 42e-9, "q0:gt", 0), info(a, 62e-9, "q1:gt", w * 1e-9)]
            op._update()
            return op, [(0, a, 42, a * 42, "q0:gt"), (w, a, w + 62, a * 62, "q1:gt")], w + 62
        raise KeyError(x)


OWN = {22, 42, 62}


def compensate(ctx, layouts, strategies=("asap", "alap"), grids=(4,)):
    lay, strat = ctx.choice("layout", layouts), ctx.choice("strategy", strategies)
    grid = ctx.choice("grid", grids)
    ports = ctx.choice("ports", [["q0:gt"], ["q0:gt", "q1:gt"]])
    body, ev, d = Body(ctx).op(lay)
    for port in ports:
        total = sum((ctx.exact(e[3]) for e in ev if e[4] == port and e[3] is not None), ctx.exact(0))
        ctx.assume(ctx.Or(total >= F(1, 100), total <= -F(1, 100)) if any(e[4] == port and e[3] is not None for e in ev) else True)
    s = schedule()
    s.add(SquarePulse(0.125, 20e-9, "q2:gt", CLK))
    s.add(
        PulseCompensation(
            body, max_compensation_amp={p: float(MAX[p]) for p in ports}, time_grid=grid * 1e-9, sampling_rate=1e9
        )
    )
    s.add(SquarePulse(0.125, 20e-9, "q2:gt", CLK))
    c = compile(s, cfg(SchedulingStrategy(strat)))
    all_ = [(ctx.exact(u) * 10**9, p) for u, p, _ in flat(c) if p.get("wf_func") is not None]
    mark = [u for u, p in all_ if p["port"] == "q2:gt"]
    got = [(u - 20, p) for u, p in all_ if p["port"] != "q2:gt"]
    ctx.check(len(mark) == 2, "what is around the block is played once", lambda: mark)
    is_own = lambda p: round(float(p["duration"]) * 1e9, 3) in OWN
    own, extra = [x for x in got if is_own(x[1])], [x for x in got if not is_own(x[1])]
    ctx.check(len(own) == len(ev), "the block itself is played as without compensation", lambda: (len(own), len(ev)))
    end = ctx.exact(d)
    for (u, p), (t, a, v, area, port) in zip(own, ev):
        ok = ctx.And(ctx.near(u, t, 1e-3), ctx.near(p["offset"] if "offset" in p else p["amp"], a, 1e-12))
        ctx.check(ctx.And(p["port"] == port, ok), "the block itself is played as without compensation", lambda: (u, t, p))
    for port in MAX:
        mine = [e for e in ev if e[4] == port and e[3] is not None]
        comp = [(u, p) for u, p in extra if p["port"] == port]
        if port not in ports or not mine:
            ctx.check(not comp, "other ports are not compensated")
            continue
        total = sum((ctx.exact(e[3]) for e in mine), ctx.exact(0))
        ctx.check(len(comp) <= 1, "one compensation pulse per port", lambda: comp)
        if not comp:
            ctx.check(ctx.near(total, 0, 1e-6), "the integral of every port is zero", lambda: total)
            continue
        ((u, p),) = comp
        dur, amp = ctx.exact(p["duration"]) * 10**9, ctx.exact(p["amp"])
        last = mine[0][2]
        for e in mine[1:]:
            last = e[2] if ctx.branch(e[2] >= last) else last
        ctx.check(ctx.near(u, last, 1e-3), "the compensation starts with the end of the last pulse on its port", lambda: (u, last))
        k = round(dur / grid)
        ctx.check(ctx.And(ctx.near(dur - k * grid, 0, 1e-6), k >= 1), "the compensation lasts a multiple of the grid", lambda: dur)
        ctx.check(ctx.And(amp <= MAX[port] + F(1, 10**9), amp >= -MAX[port] - F(1, 10**9)), "the compensation is not stronger than allowed", lambda: (amp, dur, total))
        ctx.check(ctx.near(amp * dur, -total, 1e-6), "the integral of every port is zero", lambda: (amp, dur, total))
        ctx.check(p["clock"] == CLK and p["wf_func"] == "quantify_scheduler.waveforms.square", "the compensation is a square pulse at baseband")
        end = u + dur if ctx.branch(u + dur >= end) else end
        ctx.cover("compensated")
    ctx.check(len(mark) == 2 and ctx.near(mark[1] - 20, end, 1e-2), "the next operation starts when everything has ended", lambda: (mark, end))
    ctx.cover("end")


def nested(ctx, layouts, strategies=("asap", "alap"), gates=False):
    """Layouts with compensated blocks ("N", ...) within each other: no overlaps, allowed amplitudes, integrals zero."""
    lay, strat = ctx.choice("layout", layouts), ctx.choice("strategy", strategies)
    grid = 20
    n = [0]

    def block(x, reps):
        if x == "i":
            return IdlePulse(100e-9)
        if isinstance(x, str):
            n[0] += 1
            a = ctx.real(f"a{n[0]}", F(-1, 8) / reps, F(1, 8) / reps)
            port, d = ("q0:gt", 40) if x == "a" else ("q1:gt", 60)
            return SquarePulse(a, d * 1e-9, port, CLK)
        kind, parts = x[0], x[1:]
        rep = 3 if kind == "L" else 1
        if len(parts) == 1:
            op = block(parts[0], reps * rep)
        else:
            op = Schedule("s")
            for y in parts:
                op.add(block(y, reps * rep))
        if kind == "L":
            return LoopOperation(op, 3)
        if kind == "N" and gates:
            return PulseCompensation(op, qubits=["q0", "q1"])
        if kind == "N":
            return PulseCompensation(
                op, max_compensation_amp={p: float(m) for p, m in MAX.items()}, time_grid=grid * 1e-9, sampling_rate=1e9
            )
        return op

    s = schedule()
    s.add(SquarePulse(0.125, 20e-9, "q2:gt", CLK))
    s.add(block(lay, 1))
    s.add(SquarePulse(0.125, 20e-9, "q2:gt", CLK))
    if gates:
        elements = {
            q: {
                "pulse_compensation": OperationCompilationConfig(
                    factory_func=None,
                    factory_kwargs=dict(
                        port=f"{q}:gt", clock=CLK, max_compensation_amp=float(MAX[f"{q}:gt"]), time_grid=grid * 1e-9, sampling_rate=1e9
                    ),
                )
            }
            for q in ("q0", "q1")
        }
        conf = SerialCompilationConfig(
            name="cfg",
            hardware_compilation_config=None,
            device_compilation_config=DeviceCompilationConfig(
                clocks={}, elements=elements, edges={}, scheduling_strategy=SchedulingStrategy(strat)
            ),
        )
    else:
        conf = cfg(SchedulingStrategy(strat))
    c = compile(s, conf)
    got = [(ctx.exact(u) * 10**9, p) for u, p, _ in flat(c) if p.get("wf_func") is not None]
    mark = sorted([u for u, p in got if p["port"] == "q2:gt"], key=float)
    ctx.check(len(mark) == 2, "what is around the block is played once")
    for port, m in MAX.items():
        mine = sorted([(u, p) for u, p in got if p["port"] == port], key=lambda x: float(x[0]))
        total, end = ctx.exact(0), mark[0] + 20
        for u, p in mine:
            d, a = ctx.exact(p["duration"]) * 10**9, ctx.exact(p["amp"])
            ctx.check(u >= end - F(1, 1000), "pulses on a port do not overlap", lambda: (u, end))
            end = u + d
            total = total + a * d
            ctx.check(ctx.And(a <= m + F(1, 10**9), a >= -m - F(1, 10**9)), "the compensation is not stronger than allowed", lambda: a)
        ctx.check(ctx.near(total, 0, 1e-6), "the integral of every port is zero", lambda: (port, total))
        ctx.check(end <= mark[-1] + F(1, 1000), "the next operation starts when everything has ended")
    ctx.cover("end")


def HARNESSES(tier):
    lay = [("a",), "a", ("a", "i", "b"), ("r",), ("m", "a"), ("b", "i"), ["a"], ("t", "i"), ["t", "i"], (("b", "i"), "a", "i"), ("i", ["a", "b"], "i"), [["b", "i"]]]
    nest = [("N", ("N", "a"), "i", "a"), ("N", ("L", ("N", "a"))), ("N", ("L", ("N", "a", "i"), "b"), "b"), ("L", ("N", "a", "b")), ("N", ("N", ("N", "b")), "b"), ("S", ("N", "a"), ("N", "a", "b"))]
    o = dict(split_ceil=True)
    b = "amplitudes up to 1/8, compensation at most 0.4 and 0.8, grid 4 or 20 ns, both scheduling strategies"
    return [
        H("compensate", compensate, FUNCS, f"bodies {lay} (a, b: pulses on two ports; r: ramp; m: pulse at another clock; t: operation of two pulses; i: pause of 4..500 ns; lists: loops of 3); {b}", dict(layouts=lay), ("end", "compensated"), opts=o),
        H("nested", nested, FUNCS, f"compensated blocks (N) within each other and in loops of 3 (L), {nest}; {b}", dict(layouts=nest), ("end",), opts=o),
        H("gates", nested, FUNCS, f"the same with the device elements' own settings; {b}", dict(layouts=nest[:4], gates=True), ("end",), opts=o),
    ]
