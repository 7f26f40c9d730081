"""A reference interpreter for the Q1ASM programs the compiler emits.

Executes the program text (with symbolic operands as tokens) and yields the timeline of
real-time events.  Times are integer ns after the wait_sync barrier (symbolic or int), so two
sequencers' timelines are comparable.  Semantics follow Qblox' documentation:

* set_* / reset_ph instructions are latched and take effect at the next instruction that
  updates parameters (upd_param, play, acquire*);
* every real-time instruction that has a duration takes that duration; while a set_cond
  condition is false it is skipped and takes ``else`` ns instead;
* classical instructions take no real time; registers are 32 bit.
"""

from __future__ import annotations

import re
from dataclasses import dataclass, field

RT = {
    "play": (3, 2),
    "acquire": (3, 2),
    "acquire_weighed": (5, 4),
    "acquire_ttl": (4, 3),
    "acquire_timetags": (5, 4),
    "acquire_digital": (5, 4),
    "wait": (1, 0),
    "upd_param": (1, 0),
    "set_latch_en": (2, 1),
    "latch_rst": (1, 0),
    "wait_sync": (1, 0),
    "upd_thres": (3, 2),
}
PARAM = {
    "set_mrk": 1,
    "set_freq": 1,
    "reset_ph": 0,
    "set_ph": 1,
    "set_ph_delta": 1,
    "set_awg_gain": 2,
    "set_awg_offs": 2,
    "set_digital": 3,
    "set_time_ref": 0,
    "set_scope_en": 1,
}
CLASSIC = {
    "move": 2, "not": 2, "add": 3, "sub": 3, "and": 3, "or": 3, "xor": 3, "asl": 3, "asr": 3,
    "jmp": 1, "jge": 3, "jlt": 3, "loop": 2, "nop": 0, "stop": 0, "set_cond": 4,
}  # fmt: skip
LATCHING = {"play", "acquire", "acquire_weighed", "acquire_ttl", "upd_param", "acquire_timetags", "acquire_digital"}
IMM = {  # inclusive bounds of immediate operands
    "wait": [(4, 65535)],
    "upd_param": [(4, 65535)],
    "wait_sync": [(4, 65535)],
    "latch_rst": [(4, 65535)],
    "set_latch_en": [(0, 1), (4, 65535)],
    "play": [(0, 1023), (0, 1023), (4, 65535)],
    "acquire": [(0, 31), (0, 2**24), (4, 65535)],
    "acquire_weighed": [(0, 31), (0, 2**24), (0, 1023), (0, 1023), (4, 65535)],
    "acquire_ttl": [(0, 31), (0, 2**24), (0, 1), (4, 65535)],
    "acquire_timetags": [(0, 31), (0, 2**24), (0, 1), (0, 2047), (4, 65535)],
    "set_mrk": [(0, 15)],
    "set_freq": [(-2 * 10**9, 2 * 10**9)],
    "set_ph": [(0, 10**9)],
    "set_ph_delta": [(0, 10**9)],
    "set_awg_gain": [(-32768, 32767)] * 2,
    "set_awg_offs": [(-32768, 32767)] * 2,
    "set_digital": [(0, 1), (0, 15), (0, 2047)],
    "set_scope_en": [(0, 1)],
    "set_cond": [(0, 1), (0, 2**15 - 1), (0, 5), (0, 65535)],
    "move": [(-(2**31), 2**32 - 1)],
}
LINE = re.compile(
    r"^\s*(?:(?P<label>[A-Za-z_]\w*):)?\s*(?:(?P<ins>[a-z_]+)(?:\s+(?P<args>[^#\s][^#]*?))?)?\s*(?:#.*)?$"
)


class Q1Error(Exception):
    """The program text is not a valid program (the real assembler would reject it)."""


@dataclass
class Event:
    t: object  # start, ns after wait_sync
    kind: str
    args: tuple
    par: dict = field(default_factory=dict)  # latched parameters in effect
    dur: object = 0
    fresh: tuple = ()  # parameters that were updated by this event

    def __repr__(self):
        return f"<{self.kind} {self.args} @{self.t} {self.par}>"


class Program:
    def __init__(self, ctx, text):
        self.ctx = ctx
        self.code, self.labels, self.problems = [], {}, []
        for n, raw in enumerate(str(text).split("\n")):
            m = LINE.match(raw)
            if m is None:
                raise Q1Error(f"line {n}: {raw!r}")
            if m["label"]:
                if m["label"] in self.labels:
                    raise Q1Error(f"duplicate label {m['label']}")
                self.labels[m["label"]] = len(self.code)
            if m["ins"]:
                a = [x.strip() for x in m["args"].split(",")] if m["args"] else []
                ins = m["ins"]
                want = RT[ins][0] if ins in RT else PARAM.get(ins, CLASSIC.get(ins))
                if want is None:
                    raise Q1Error(f"line {n}: unknown instruction {ins}")
                if len(a) != want:
                    raise Q1Error(f"line {n}: {ins} takes {want} arguments, got {a}")
                self.code.append((ins, [self.operand(ins, x) for x in a]))
        for ins, ops in self.code:
            for op in ops:
                if op[0] == "@" and op[1] not in self.labels:
                    raise Q1Error(f"undefined label {op[1]}")

    def operand(self, ins, s):
        if re.fullmatch(r"R\d+", s):
            i = int(s[1:])
            if i > 63:
                raise Q1Error(f"register {s} does not exist")
            return ("R", i)
        if s.startswith("@"):
            return ("@", s[1:])
        v = self.ctx.num(s)
        if isinstance(v, float):
            raise Q1Error(f"{ins}: operand {s} is not an integer")
        return ("I", v)

    def immediates_ok(self):
        """[(condition, description)] for every immediate operand."""
        out = []
        for ins, ops in self.code:
            for op, b in zip(ops, IMM.get(ins, [])):
                if op[0] == "I":
                    out.append(
                        (self.ctx.And(op[1] >= b[0], op[1] <= b[1]), f"{ins} operand {op[1]} within [{b[0]}, {b[1]}]")
                    )
        return out


class Trace:
    def __init__(self):
        self.events = []
        self.end = 0
        self.regs = {}
        self.hazards = []
        self.stopped = False
        self.steps = 0

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


_OPS = {
    0: lambda b: any(b),
    1: lambda b: not any(b),
    2: lambda b: all(b),
    3: lambda b: not all(b),
    4: lambda b: sum(map(bool, b)) % 2 == 1,
    5: lambda b: sum(map(bool, b)) % 2 == 0,
}


def _wrap(v):
    return v % 2**32


def _signed(v):
    """32 bit register contents as a two's complement number."""
    if v >= 2**31:
        return v - 2**32
    return v


def run(ctx, program, triggers=None, max_steps=4000, entry=None, stop_at=None):
    """Execute; ``triggers``: {address: bool} latched trigger state used by set_cond, or a
    callable (trace so far, mask) -> {address: bool}."""
    p = program if isinstance(program, Program) else Program(ctx, program)
    tr = Trace()
    regs, pend, par = {}, {}, {}
    t, synced = 0, False
    pc, active, else_t = 0, True, 0
    deltas = []

    def val(op):
        if op[0] == "I":
            return op[1]
        if op[0] == "R":
            if op[1] not in regs:
                tr.hazards.append(f"register R{op[1]} read before it is written")
            return regs.get(op[1], 0)
        return p.labels[op[1]]

    while True:
        if pc >= len(p.code):
            tr.hazards.append("program runs past its last instruction")
            break
        tr.steps += 1
        if tr.steps > max_steps:
            raise Q1Error("step limit")
        ins, ops = p.code[pc]
        pc += 1
        if ins in RT:
            di = RT[ins][1]
            dur = val(ops[di])
            if not active:
                t = t + else_t
                continue
            args = tuple(_v(val, o) for i, o in enumerate(ops) if i != di)
            fresh = ()
            if ins in LATCHING:
                fresh = tuple(pend)
                par.update(pend)
                pend.clear()
                if deltas:
                    for k, d in deltas:
                        if k == "reset":
                            par["phase"], par["resets"] = (), par.get("resets", 0) + 1
                            par["reset_t"] = t
                        else:
                            par["phase"] = par.get("phase", ()) + (d,)
                    deltas.clear()
                    fresh += ("phase",)
            if ins == "wait_sync":
                if synced:
                    tr.hazards.append("second wait_sync")
                synced = True
                t = 0
                tr.events.append(Event(t, ins, args, dict(par), dur, fresh))
                t = t + dur
                continue
            if ins != "wait":
                tr.events.append(Event(t, ins, args, dict(par), dur, fresh))
            t = t + dur
        elif ins in PARAM:
            if not active:
                continue
            a = tuple(_v(val, o) for o in ops)
            if ins == "set_ph_delta":
                deltas.append(("delta", a[0]))
            elif ins == "reset_ph":
                deltas.append(("reset", 0))
            elif ins == "set_time_ref":
                pend[ins] = par.get(ins, 0) + 1
            elif ins in ("set_awg_gain", "set_awg_offs"):
                pend[ins] = tuple(_s(v, o) for v, o in zip(a, ops))
            else:
                pend[ins] = a if len(a) > 1 else a[0]
        elif ins == "set_cond":
            en, mask, op, et = (val(o) for o in ops)
            if en:
                state = triggers(tr, mask) if callable(triggers) else (triggers or {})
                bits = [bool(state.get(i + 1, False)) for i in range(15) if (int(mask) >> i) & 1]
                active = _OPS[int(op)](bits)
                else_t = et
            else:
                active = True
            tr.events.append(Event(t, "set_cond", (en, mask, op, et), {}, 0))
        elif ins == "stop":
            tr.stopped = True
            break
        elif ins == "nop":
            pass
        elif ins == "jmp":
            pc = val(ops[0])
        elif ins in ("jge", "jlt"):
            a, b = val(ops[0]), val(ops[1])
            if (a >= b) if ins == "jge" else (a < b):
                pc = val(ops[2])
        elif ins == "loop":
            start = val(ops[1])
            body = p.code[start : pc - 1]
            n = val(ops[0])
            if body and all(i == "wait" and o[0][0] == "I" for i, o in body):
                # pure wait loop: n iterations in total, the first of which has been executed
                per = 0
                for _, o in body:
                    per = per + (o[0][1] if active else else_t)
                if n == 0:
                    n = 2**32
                t = t + (n - 1) * per
                regs[ops[0][1]] = 0
            else:
                n = _wrap(n - 1)
                regs[ops[0][1]] = n
                if n != 0:
                    pc = start
        elif ins == "move":
            regs[ops[1][1]] = _wrap(val(ops[0]))
        elif ins == "not":
            regs[ops[1][1]] = _wrap(-val(ops[0]) - 1)
        else:
            a, b = val(ops[0]), val(ops[1])
            if ins == "add":
                r = a + b
            elif ins == "sub":
                r = a - b
            elif ins == "and":
                r = a & b
            elif ins == "or":
                r = a | b
            elif ins == "xor":
                r = a ^ b
            elif ins == "asl":
                r = a << b
            else:
                r = a >> b
            regs[ops[2][1]] = _wrap(r)
    tr.end, tr.regs = t, regs
    tr.pending = {**pend, **({"phase": deltas} if deltas else {})}
    tr.par = par
    return tr


def _v(val, o):
    return val(o)


def _s(v, o):
    return _signed(v) if o[0] == "R" else v
