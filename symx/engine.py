"""Path-exhaustive symbolic execution by re-execution, decided by z3."""

from __future__ import annotations

import random
import re
import signal
import time
import traceback
from fractions import Fraction as F

import z3

from . import values as V
from .values import (
    EngineError,
    Lin,
    ONE,
    ZERO,
    PathEnd,
    SymBool,
    SymExact,
    SymFloat,
    SymInt,
    is_sym,
)

TOKEN = re.compile("⟦(\\d+)⟧")


class Budget(BaseException):
    pass


class SlowPath(BaseException):
    """A single path takes too long (e.g. code that does not terminate)."""


def _alarm(*_):
    raise SlowPath


class Violation:
    def __init__(self, label, inputs, detail, confirmed=None):
        self.label, self.inputs, self.detail, self.confirmed = label, inputs, detail, confirmed


class Engine:
    def __init__(self, name, replay, opts):
        self.name = name
        self.replay = replay  # callable(inputs)-> (status, detail)
        self.max_paths = opts.get("max_paths", 20000)
        self.deadline = time.time() + opts.get("time", 300)
        self.split_ceil = opts.get("split_ceil", False)
        self.split_limit = opts.get("split_limit", 64)
        self.max_cex = opts.get("max_cex", 60)
        self.path_time = opts.get("path", 100)
        self.query_timeout = opts.get("query_ms", 20000)
        self.hash_mode = opts.get("hash", "term")
        self.seed = opts.get("seed", 1)
        self.rng = random.Random(self.seed)
        # statistics
        self.paths = 0
        self.queries = 0
        self.unsat = self.sat = self.unknown = 0
        self.solver_time = 0.0
        self.obligations = self.discharged = 0
        self.trivial = 0
        self.nonlinear = 0
        self.concretised = {}
        self.notes = set()
        self.covers = {}
        self.labels = {}
        self.violations = []
        self.unconfirmed = []
        self.spurious = []  # counterexamples of the over-approximation only
        self.inconclusive = []
        self.truncated = None
        self.infeasible = 0
        self.path_samples = []
        self._confirmed_labels = set()
        self._fails = {}
        self._noreach = None

    # ------------------------------------------------------------ path state
    def _reset(self):
        self.declared = set()
        self.npc = 0
        self.uuids = 0
        self.cache = {}
        self.decided = {}
        self.tokens = []
        self.token_of = {}
        self.hashed = []
        self.inputs = {}
        self.input_order = []
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout)
        self.path_notes = []

    def declare(self, atoms):
        """Assert range and definition of every atom mentioned on this path (once)."""
        for a in atoms:
            if a not in self.declared:
                self.declared.add(a)
                for f, deps in a.defs:
                    self.declare(deps)
                    self.solver.add(f)

    def add(self, b):
        """Add a SymBool to the path condition."""
        if b is True:
            return
        if b is False:
            self.solver.add(z3.BoolVal(False))
            return
        self.declare(b.atoms)
        self.solver.add(b.z)
        self.npc += 1

    def note(self, s):
        self.notes.add(s)

    def check(self, *extra):
        if time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1
        return r

    # ------------------------------------------------------------ forking
    def branch(self, b) -> bool:
        if b is True or b is False:
            return b
        cond, neg = b.z, False
        if z3.is_not(cond):
            cond, neg = cond.arg(0), True
        cid = cond.get_id()
        hit = self.decided.get(cid)
        if hit is not None:
            return hit[0] ^ neg
        self.declare(b.atoms)
        out = self._decide(cond)
        self.decided[cid] = (out, cond)
        return out ^ neg

    def _decide(self, cond):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[2] == "V" or e[2] != cond.get_id():
                raise EngineError("non-deterministic re-execution")
            self.pos += 1
            self.solver.add(cond if e[0] else z3.Not(cond))
            self.npc += 1
            return e[0]
        r_t = self.check(cond)
        r_f = self.check(z3.Not(cond)) if r_t != z3.unsat else z3.sat
        if r_t == z3.unsat:
            out, more = False, False
        elif r_f == z3.unsat:
            out, more = True, False
        else:
            out, more = True, True
        # keep cond alive so that its id stays unique
        self.trail.append([out, more, cond.get_id(), cond])
        self.pos += 1
        self.solver.add(cond if out else z3.Not(cond))
        self.npc += 1
        return out

    def assume(self, cond):
        if not isinstance(cond, bool) and type(cond) is not SymBool:
            cond = bool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.add(cond)
        if self.pos >= len(self.trail):
            if self.check() == z3.unsat:
                raise PathEnd()

    # ------------------------------------------------------------ concretisation
    def _model_value(self, lin: Lin, model):
        z = lin.z_int() if lin.is_int() else lin.z_real()
        v = model.eval(z, model_completion=True)
        if z3.is_int_value(v):
            return F(v.as_long())
        if z3.is_rational_value(v):
            return F(v.numerator_as_long(), v.denominator_as_long())
        return F(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long())

    def case_split(self, x: SymInt) -> int:
        """Solver-driven exhaustive case split over the feasible values of x."""
        for _ in range(self.split_limit):
            v = self._recorded(lambda: self._pick_int(x))
            if self.branch(V.cmp_lin(x.lin.add(V.const(-v)), "==")):
                return v
        return self.concretize(x)

    def _recorded(self, compute):
        """A value chosen by the solver, recorded so that re-execution is deterministic."""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[2] != "V":
                raise EngineError("non-deterministic re-execution (value)")
            self.pos += 1
            return e[0]
        v = compute()
        self.trail.append([v, False, "V"])
        self.pos += 1
        return v

    def _pick_int(self, x):
        self.declare(x.lin.atoms())
        lo, hi = (int(b) for b in x.lin.rng())
        if hi - lo < self.split_limit:
            for cand in range(lo, hi + 1):
                if self.check(x.lin.z_int() == cand) != z3.unsat:
                    return cand
            raise PathEnd()
        if self.check() != z3.sat:
            raise PathEnd()
        return int(self._model_value(x.lin, self.solver.model()))

    def concretize(self, x):
        """Fallback: fix x to one feasible value; coverage is reported as partial."""
        where = _caller()
        lin = x.lin
        key = ("conc", lin.id)
        if key in self.cache:
            return self.cache[key]

        self.declare(lin.atoms())

        def pick():
            if self.check() != z3.sat:
                raise PathEnd()
            return self._model_value(lin, self.solver.model())

        v = self._recorded(pick)
        z = lin.z_int() if lin.is_int() else lin.z_real()
        eq = z == (z3.IntVal(int(v)) if lin.is_int() else V.zfrac(v))
        if self.check(z3.Not(eq)) != z3.unsat:
            self.concretised[where] = self.concretised.get(where, 0) + 1
            self.path_notes.append(f"concretised at {where}")
        self.solver.add(eq)
        out = int(v) if type(x) is SymInt else (v if type(x) is SymExact else float(v))
        self.cache[key] = out
        return out

    def hash_of(self, x):
        if self.hash_mode == "term":
            return hash(("symx", x.lin.id))
        if self.hash_mode == "py":
            return self._py_hash(x)
        if self.hash_mode == "split":
            return hash(self.case_split(x))
        return hash(self.concretize(x))

    def _py_hash(self, x):
        """Python's hash of numbers: one to one within the bounds, except that -1 has the hash of -2."""
        key = ("hash", x.lin.id)
        if key not in self.cache:
            if bool(x == -1) or bool(x == -2):
                h = hash(-2)
            else:
                for y, h in self.hashed:
                    if bool(x == y):
                        break
                else:
                    h = hash(("symx", x.lin.id))
            self.hashed.append((x, h))
            self.cache[key] = h
        return self.cache[key]

    # ------------------------------------------------------------ tokens
    def token(self, x):
        # the same value gives the same text, as for concrete values
        key = (type(x), x.lin.id) if hasattr(x, "lin") and hasattr(x.lin, "id") else id(x)
        if key not in self.token_of:
            self.tokens.append(x)
            self.token_of[key] = len(self.tokens) - 1
        return f"⟦{self.token_of[key]}⟧"

    def parse(self, s: str):
        m = TOKEN.fullmatch(s.strip())
        if m:
            return self.tokens[int(m.group(1))]
        return None

    # ------------------------------------------------------------ obligations
    def obligation(self, cond, label, detail=""):
        self.obligations += 1
        lab = self.labels.setdefault(label, [0, 0])
        lab[0] += 1
        if not isinstance(cond, bool) and type(cond) is not SymBool:
            cond = bool(cond)
        if cond is True:
            self.discharged += 1
            self.trivial += 1
            lab[1] += 1
            return
        if cond is False:
            neg = z3.BoolVal(True)
        else:
            self.declare(cond.atoms)
            neg = z3.Not(cond.z)
        r = self.check(neg)
        if r == z3.unsat:
            self.discharged += 1
            lab[1] += 1
            return
        if r == z3.unknown:
            self.inconclusive.append(f"{label}: solver unknown")
            self.solver.add(z3.Not(neg))
            return
        self._counterexample(neg, label, detail)
        if cond is False:
            raise PathEnd()
        self.solver.add(cond.z)
        if self.check() == z3.unsat:
            raise PathEnd()

    def _counterexample(self, neg, label, detail):
        """Extract candidate inputs and replay on the unmodified code."""
        if label in self._confirmed_labels:
            return
        if self._fails.get(label, 0) >= 3 * self.max_cex:
            return
        self.declare([a for a in self.inputs.values() if a is not None])
        self.solver.push()
        try:
            self.solver.add(neg)
            last = None
            for i in range(self.max_cex):
                m = self._next_model(i)
                if m is None:
                    break
                inp = self._inputs_from(m)
                status, info = self.replay(inp)
                last = (inp, info)
                if status == "violation" or (status == "timeout" and label == "the code ends"):
                    self.violations.append(Violation(info.get("label", label), inp, info, True))
                    self._confirmed_labels.add(label)
                    return
                self._fails[label] = self._fails.get(label, 0) + 1
                # exclude this assignment of the inputs
                diff = []
                for n in self.input_order:
                    a = self.inputs[n]
                    if a is None:
                        continue
                    z = a.z
                    diff.append(z != m.eval(z, model_completion=True))
                if not diff:
                    break
                self.solver.add(z3.Or(diff))
            if last is not None:
                if self._approximate():
                    self.spurious.append((label, last[0], str(last[1])[:400]))
                else:
                    self.unconfirmed.append((label, last[0], str(last[1])[:400]))
        finally:
            self.solver.pop()

    def _approximate(self):
        """Whether this path's formulas use over-approximated terms (rounding errors, sin, ...)."""
        return any(
            a.kind == "noise" or a.name.split("!")[0] in ("sgn", "sin", "cos", "tan") for a in self.declared
        )

    def _next_model(self, i):
        """A counterexample model; for i > 0 near a random point of the input space."""
        ins = [self.inputs[n] for n in self.input_order if self.inputs[n] is not None]
        ins = [a for a in ins if a.hi > a.lo]
        if i and ins:
            for frac in (1.0, 0.5):
                self.solver.push()
                try:
                    for a in ins:
                        if self.rng.random() > frac:
                            continue
                        w = (a.hi - a.lo) / 8
                        mid = a.lo + (a.hi - a.lo) * F(self.rng.randrange(0, 1001), 1000)
                        lo, hi = mid - w, mid + w
                        if a.kind == "int":
                            self.solver.add(a.z >= int(lo), a.z <= int(hi) + 1)
                        else:
                            self.solver.add(a.z >= V.zfrac(lo), a.z <= V.zfrac(hi))
                    if self.check() == z3.sat:
                        return self.solver.model()
                finally:
                    self.solver.pop()
        return self.solver.model() if self.check() == z3.sat else None

    def _inputs_from(self, m):
        out = {}
        for n in self.input_order:
            a = self.inputs[n]
            if a is None:
                out[n] = self.fixed[n]
                continue
            v = m.eval(a.z, model_completion=True)
            if a.kind == "int":
                out[n] = v.as_long()
            else:
                if not z3.is_rational_value(v):
                    v = v.approx(25)
                f = F(v.numerator_as_long(), v.denominator_as_long())
                fl = float(f)
                out[n] = min(max(fl, _fl_up(a.lo)), _fl_dn(a.hi))
        return out

    def cover(self, label, cond=True):
        if self.covers.get(label):
            return
        self.covers.setdefault(label, False)
        if not isinstance(cond, bool) and type(cond) is not SymBool:
            cond = bool(cond)
        if cond is False:
            return
        if type(cond) is SymBool:
            self.declare(cond.atoms)
        r = self.check(cond.z) if type(cond) is SymBool else self.check()
        if r == z3.sat:
            self.covers[label] = True

    # ------------------------------------------------------------ main loop
    def run(self, fn, ctx):
        self.trail = []
        V.ENGINE = self
        self.fixed = {}
        self.slow = 0
        signal.signal(signal.SIGALRM, _alarm)
        try:
            while True:
                self._reset()
                ctx._begin(self)
                status = "ok"
                try:
                    left = self.deadline - time.time() + 5
                    signal.setitimer(signal.ITIMER_REAL, max(5, min(self.path_time, left)), 2)
                    try:
                        fn(ctx)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except PathEnd:
                    status = "end"
                except SlowPath:
                    status = "slow"
                    self.slow += 1
                    self.spurious.append(("path takes too long", {}, f"more than {self.path_time} s"))
                    # does the real code end on these inputs?
                    if self.check() == z3.sat:
                        self._counterexample(z3.BoolVal(True), "the code ends", "")
                    if self.violations:
                        raise Budget("path takes too long") from None
                    if self.slow > 2 or time.time() > self.deadline:
                        raise Budget("path takes too long") from None
                except (Budget, EngineError):
                    raise
                except Exception as exc:
                    status = "exc"
                    tb = traceback.format_exc(limit=-6)
                    lab = "no unexpected exception"
                    self.obligations += 1
                    self.labels.setdefault(lab, [0, 0])[0] += 1
                    n = len(self.violations)
                    try:
                        if self.check() == z3.sat:
                            self._counterexample(z3.BoolVal(True), lab, f"{type(exc).__name__}: {exc}\n{tb}")
                            if len(self.violations) == n and lab not in self._confirmed_labels:
                                # the path could not be followed symbolically: partial coverage
                                if self.unconfirmed and self.unconfirmed[-1][0] == lab:
                                    self.unconfirmed.pop()
                                self.spurious.append((lab, {}, f"{type(exc).__name__}: {exc}\n{tb[-900:]}"))
                    except Budget:
                        raise
                if self.pos < len(self.trail) and status == "ok":
                    raise EngineError("path ended before its recorded decisions")
                if self.pos < len(self.trail):
                    del self.trail[self.pos :]
                self.paths += 1
                if status == "end":
                    self.infeasible += 1
                elif len(self.path_samples) < 3:
                    self.path_samples.append(
                        {"decisions": len(self.trail), "constraints": self.npc}
                    )
                # backtrack
                while self.trail and not self.trail[-1][1]:
                    self.trail.pop()
                if not self.trail:
                    break
                last = self.trail[-1]
                last[0], last[1] = not last[0], False
                if self.paths >= self.max_paths:
                    self.truncated = f"path budget {self.max_paths}"
                    break
                if len(self.violations) >= 3:
                    self.truncated = "stopped after 3 confirmed violations"
                    break
        except Budget as b:
            self.truncated = f"budget: {b}"
        finally:
            V.ENGINE = None
        return self

    def stats(self):
        return dict(
            harness=self.name,
            paths=self.paths,
            infeasible_paths=self.infeasible,
            queries=self.queries,
            unsat=self.unsat,
            sat=self.sat,
            unknown=self.unknown,
            solver_s=round(self.solver_time, 3),
            obligations=self.obligations,
            discharged=self.discharged,
            by_constant_folding=self.trivial,
            nonlinear_terms=self.nonlinear,
            concretised=dict(self.concretised),
            notes=sorted(self.notes),
            covers=dict(self.covers),
            labels={k: v for k, v in self.labels.items()},
            truncated=self.truncated,
            inconclusive=self.inconclusive[:5],
            spurious=[f"{a}: {b}: {c}" for a, b, c in self.spurious[:5]],
        )


def _fl_up(f):
    x = float(f)
    return x


def _fl_dn(f):
    return float(f)


def _caller():
    import sys

    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if "/symx/" not in fn:
            if "quantify_scheduler" in fn:
                fn = fn[fn.rindex("quantify_scheduler") :]
            return f"{fn}:{f.f_code.co_name}"
        f = f.f_back
    return "?"
