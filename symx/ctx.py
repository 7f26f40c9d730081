"""Harness contexts: the same harness runs symbolically and (for replay) concretely."""

from __future__ import annotations

from fractions import Fraction as F


class Skip(BaseException):
    """Concrete replay left the assumed input region."""


class Diverged(BaseException):
    """Concrete replay needs an input the symbolic path never asked for."""


class CheckFailed(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Base:
    """Shared helpers (work on symbolic and concrete values alike)."""

    def ns(self, name, lo, hi):
        """A time on the 1 ns grid: (float seconds, int ns)."""
        k = self.int(name, lo, hi)
        return k * 1e-9, k

    def near(self, a, b, tol):
        d = self.exact(a) - self.exact(b)
        t = F(tol)
        return self.And(d <= t, -d <= t)

    def check_eq(self, a, b, label, detail=""):
        self.check(a == b, label, detail)

    def raises(self, fn, *exc):
        """Run fn; returns (True, exception) when it raised one of exc."""
        try:
            return False, fn()
        except exc as e:
            return True, e


class ConcreteCtx(Base):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.checks = 0

    def int(self, name, lo, hi):
        return int(self._get(name))

    def _get(self, name):
        if name not in self.inputs:
            raise Diverged(name)
        return self.inputs[name]

    def real(self, name, lo, hi):
        return float(self._get(name))

    def choice(self, name, options):
        return options[int(self._get(name))]

    def bool(self, name):
        return bool(self._get(name))

    def cplx(self, a, b):
        return complex(a, b)

    def exact(self, x):
        return F(x) if not isinstance(x, F) else x

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label, detail=""):
        self.checks += 1
        if not c:
            raise CheckFailed(label, detail() if callable(detail) else detail)

    def cover(self, label, c=True):
        pass

    def text(self, s):
        return s

    def num(self, s):
        s = str(s).strip()
        try:
            return int(s)
        except ValueError:
            return float(s)

    @staticmethod
    def And(*x):
        if len(x) == 1 and isinstance(x[0], (list, tuple)):
            x = x[0]
        return all(x)

    @staticmethod
    def Or(*x):
        if len(x) == 1 and isinstance(x[0], (list, tuple)):
            x = x[0]
        return any(x)

    @staticmethod
    def Not(x):
        return not x

    @staticmethod
    def Implies(a, b):
        return (not a) or b

    @staticmethod
    def Iff(a, b):
        return bool(a) == bool(b)

    def branch(self, c):
        return bool(c)


class SymCtx(Base):
    symbolic = True

    def _begin(self, engine):
        self.e = engine

    def _input(self, name, kind, lo, hi):
        from .values import atom

        e = self.e
        if name in e.inputs:
            raise RuntimeError(f"duplicate input {name}")
        a = atom(("in", name, kind, F(lo), F(hi)), f"in_{name}", kind, lo, hi)
        e.inputs[name] = a
        e.input_order.append(name)
        return a

    def int(self, name, lo, hi):
        from .values import ONE, SymInt, ZERO, mklin

        if lo == hi:
            self._fixed(name, lo)
            return lo
        return SymInt(mklin({self._input(name, "int", lo, hi): ONE}, ZERO))

    def _fixed(self, name, v):
        self.e.inputs[name] = None
        self.e.fixed[name] = v
        self.e.input_order.append(name)

    def real(self, name, lo, hi):
        from .values import ONE, SymFloat, ZERO, mklin

        return SymFloat(mklin({self._input(name, "real", F(lo), F(hi)): ONE}, ZERO))

    def choice(self, name, options):
        if len(options) == 1:
            self._fixed(name, 0)
            return options[0]
        return options[self.int(name, 0, len(options) - 1).__index__()]

    def bool(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def cplx(self, a, b):
        from .values import SymComplex

        return SymComplex(a, b)

    def exact(self, x):
        from .values import SymExact, is_sym

        if is_sym(x):
            return SymExact(x.lin)
        return x if isinstance(x, F) else F(x)

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, label, detail=""):
        self.e.obligation(c, label, detail)

    def cover(self, label, c=True):
        self.e.cover(label, c)

    def num(self, s):
        from .values import is_sym

        if is_sym(s):
            return s
        v = self.e.parse(str(s))
        if v is not None:
            return v
        s = str(s).strip()
        try:
            return int(s)
        except ValueError:
            return float(s)

    def branch(self, c):
        return bool(c)

    @staticmethod
    def And(*x):
        from .values import And

        return And(*x)

    @staticmethod
    def Or(*x):
        from .values import Or

        return Or(*x)

    @staticmethod
    def Not(x):
        from .values import Not

        return Not(x)

    @staticmethod
    def Implies(a, b):
        from .values import Implies

        return Implies(a, b)

    @staticmethod
    def Iff(a, b):
        from .values import Iff

        return Iff(a, b)
