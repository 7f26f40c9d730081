"""Symbolic value proxies used to execute the real quantify-scheduler code.

A symbolic number is an exact *linear form* over atoms: integer inputs, real inputs,
auxiliary integers (results of round/floor/div) and bounded *noise* atoms that stand for
IEEE-754 rounding errors.  Every floating point operation ``r = fl(a op b)`` is encoded as
``r = a op b + e`` with ``|e| <= 2**-53 * max|a op b|`` (max taken over the stated input
ranges), a sound over-approximation of round-to-nearest (no overflow/subnormals inside the
stated ranges).  Comparisons become z3 formulas; the engine forks on them.
"""

from __future__ import annotations

import math
from fractions import Fraction as F

import z3

z3.z3.Z3_DEBUG = False

U = F(1, 2**53)
ZERO, ONE = F(0), F(1)


class PathEnd(BaseException):
    """Ends the current path (infeasible assumption)."""


class EngineError(BaseException):
    """Internal error of the symbolic engine."""


ENGINE = None  # the active engine (engine.Engine)


def eng():
    if ENGINE is None:
        raise EngineError("no active engine")
    return ENGINE


class Atom:
    """A variable; content-addressed, so the same term is the same atom on every path."""

    __slots__ = ("name", "kind", "lo", "hi", "z", "idx", "defs", "key")

    def __init__(self, name, kind, lo, hi, idx):
        self.name, self.kind, self.lo, self.hi, self.idx = name, kind, F(lo), F(hi), idx
        if kind == "int":
            self.z = z3.Int(name)
            self.defs = [(z3.And(self.z >= int(self.lo), self.z <= int(self.hi)), ())]
        else:
            self.z = z3.Real(name)
            self.defs = [(z3.And(self.z >= zfrac(self.lo), self.z <= zfrac(self.hi)), ())]

    def __repr__(self):
        return self.name


ATOMS: list[Atom] = []
_ATOM_BY_KEY: dict = {}
_LINS: dict = {}
LIN_BY_ID: list = []
_MEMO: dict = {}


def atom(key, base, kind, lo, hi, define=None):
    """The atom with this content key; ``define(zvar)`` yields (formula, atoms it mentions)."""
    a = _ATOM_BY_KEY.get(key)
    if a is None:
        a = Atom(f"{base}!{len(ATOMS)}", kind, lo, hi, len(ATOMS))
        ATOMS.append(a)
        _ATOM_BY_KEY[key] = a
        a.key = key
        if define is not None:
            a.defs.append(define(a.z))
    return a


def zfrac(f: F):
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


class Lin:
    """Interned exact linear form."""

    __slots__ = ("t", "c", "id", "_rng", "_zi", "_zr", "_int", "pre")

    def is_const(self):
        return not self.t

    @property
    def key(self):
        return self.id

    def add(self, o: "Lin", s=ONE) -> "Lin":
        k = ("+", self.id, o.id, s is ONE or s == 1) if (s == 1 or s == -1) else ("+", self.id, o.id, s)
        r = _MEMO.get(k)
        if r is None:
            t = dict(self.t)
            for a, c in o.t.items():
                v = t.get(a, ZERO) + s * c
                if v == 0:
                    t.pop(a, None)
                else:
                    t[a] = v
            r = _MEMO[k] = mklin(t, self.c + s * o.c)
        return r

    def scale(self, s: F) -> "Lin":
        if s == 1:
            return self
        k = ("*", self.id, s)
        r = _MEMO.get(k)
        if r is None:
            if s == 0:
                r = const(ZERO)
            else:
                r = mklin({a: c * s for a, c in self.t.items()}, self.c * s)
                if self.pre is not None and r.pre is None and r.t:
                    r.pre = self.pre.scale(s)  # the same sign
            _MEMO[k] = r
        return r

    def rng(self):
        if self._rng is None:
            lo = hi = self.c
            for a, k in self.t.items():
                if k > 0:
                    lo += k * a.lo
                    hi += k * a.hi
                else:
                    lo += k * a.hi
                    hi += k * a.lo
            self._rng = (lo, hi)
        return self._rng

    def mag(self):
        lo, hi = self.rng()
        return max(abs(lo), abs(hi))

    def z_real(self):
        if self._zr is None:
            terms = []
            for a, k in self.t.items():
                v = z3.ToReal(a.z) if a.kind == "int" else a.z
                terms.append(v if k == 1 else zfrac(k) * v)
            if self.c != 0 or not terms:
                terms.append(zfrac(self.c))
            self._zr = z3.Sum(terms) if len(terms) > 1 else terms[0]
        return self._zr

    def z_int(self):
        if self._zi is None:
            terms = []
            for a, k in self.t.items():
                assert a.kind == "int" and k.denominator == 1
                terms.append(a.z if k == 1 else z3.IntVal(k.numerator) * a.z)
            if self.c != 0 or not terms:
                terms.append(z3.IntVal(self.c.numerator))
            self._zi = z3.Sum(terms) if len(terms) > 1 else terms[0]
        return self._zi

    def atoms(self):
        return tuple(self.t)

    def is_int(self):
        if self._int is None:
            self._int = self.c.denominator == 1 and all(
                a.kind == "int" and k.denominator == 1 for a, k in self.t.items()
            )
        return self._int


def mklin(t: dict, c: F) -> Lin:
    key = (tuple(sorted((a.idx, k.numerator, k.denominator) for a, k in t.items())), c.numerator, c.denominator)
    r = _LINS.get(key)
    if r is None:
        r = Lin.__new__(Lin)
        r.t, r.c, r.id = t, c, len(_LINS)
        r._rng = r._zi = r._zr = r._int = r.pre = None
        _LINS[key] = r
        LIN_BY_ID.append(r)
    return r


_CONSTS: dict = {}


def const(c) -> Lin:
    k = (type(c), c)
    r = _CONSTS.get(k) if c != 0 else None
    if r is None:
        r = mklin({}, F(c))
        if c != 0:
            _CONSTS[k] = r
    return r


# ---------------------------------------------------------------- grid decomposition
def grid(lin: Lin, g: F | None = None):
    k = ("grid", lin.id, g)
    r = _MEMO.get(k, 0)
    if r == 0:
        r = _MEMO[k] = _grid(lin, g)
    return r


def _grid(lin: Lin, g: F | None = None):
    """Write ``lin`` as g*(I + f) + E: I an integer Lin, 0 <= f < 1 a constant, |E| <= eta*g.

    Returns (g, I, f, eta, E) or None when not possible.  E is the exact leftover Lin.
    """
    ints = [(a, k) for a, k in lin.t.items() if a.kind == "int"]
    if not ints or any(a.kind == "real" for a in lin.t):
        return None
    if g is None:
        g = min(abs(k) for _, k in ints)
    t, e, noise = {}, {}, ZERO
    for a, k in lin.t.items():
        if a.kind == "int":
            q = k / g
            n = round(q)
            d = q - n
            if d != 0:
                m = max(abs(a.lo), abs(a.hi))
                noise += abs(d) * m
                e[a] = d * g
                if noise > F(1, 8):
                    return None
            if n:
                t[a] = F(n)
        else:
            noise += abs(k / g) * max(abs(a.lo), abs(a.hi))
            e[a] = k
    if noise > F(1, 8):
        return None
    q = lin.c / g
    n = math.floor(q)
    f = q - n
    if f > F(1, 2) and 1 - f <= F(1, 10**6):
        e_c, n, f0 = (f - 1) * g, n + 1, ZERO
        noise += 1 - f
    elif f <= F(1, 10**6):
        e_c, f0 = f * g, ZERO
        noise += f
    else:
        e_c, f0 = ZERO, f
    if f0 and not (noise < f0 and noise < 1 - f0):
        return None
    return g, mklin(t, F(n)), f0, noise, mklin(e, e_c)


def _sign_atom(E: Lin):
    """Sign of a noise form: python int when known, else (Int z3 term in {-1,0,1}, atoms)."""
    if E.is_const():
        return (E.c > 0) - (E.c < 0)
    lo, hi = E.rng()
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if E.pre is not None:
        return _sign_atom(E.pre)
    # canonical orientation and scale
    first = min(E.t, key=lambda a: a.idx)
    k = E.t[first]
    canon = E.scale(ONE / k)
    a = atom(("sign", canon.id), "sgn", "int", -1, 1)
    return (a.z if k > 0 else -a.z), (a,)


def _cmp_const(c, op):
    return {"<": c < 0, "<=": c <= 0, "==": c == 0}[op]


class _NoValue(Exception):
    pass


def subst(lin: Lin, a: Atom, v: Lin) -> Lin:
    """The term with atom ``a`` replaced by ``v``; rounding errors are recomputed as functions
    of their operands, so that equal computations give equal results."""
    k = ("subst", lin.id, a.idx, v.id)
    r = _MEMO.get(k)
    if r is None:
        r = const(lin.c)
        for x, c in lin.t.items():
            r = r.add(_subst_atom(x, a, v), c)
        _MEMO[k] = r
    return r


def _subst_atom(x: Atom, a: Atom, v: Lin) -> Lin:
    if x is a:
        return v
    me = mklin({x: ONE}, ZERO)
    k = x.key
    if k[0] == "in":
        return me
    if k[0] == "fl":
        p, q = LIN_BY_ID[k[2]], LIN_BY_ID[k[3]]
        p2, q2 = subst(p, a, v), subst(q, a, v)
        if p2 is p and q2 is q:
            return me
        if k[1] in "+-":
            exact = p2.add(q2, ONE if k[1] == "+" else -ONE)
        elif q2.is_const() and (k[1] == "*" or q2.c != 0):
            exact = p2.scale(q2.c if k[1] == "*" else ONE / q2.c)
        elif k[1] == "*" and p2.is_const():
            exact = q2.scale(p2.c)
        else:
            raise _NoValue
        if exact.is_const():
            return const(F(float(exact.c)) - exact.c)
        r = {"+": _add, "-": _sub, "*": _mul, "/": _div}[k[1]](p2, q2, "float", "float", "float")
        return (r.lin if is_sym(r) else const(r)).add(exact, -ONE)
    if k[0] in ("floor", "round"):
        p = LIN_BY_ID[k[1]]
        p2 = subst(p, a, v)
        if p2 is p:
            return me
        if p2.is_const() or p2.is_int():
            return floor_lin(p2) if k[0] == "floor" else round_lin(p2)
        if k[0] == "round":
            return round_lin(p2)
    raise _NoValue


def _sign_at(I: Lin, E: Lin):
    """Sign (as in _sign_atom) of E on I == 0, found by eliminating one variable of I."""
    if E.is_const() or I.is_const():
        return _sign_atom(E)
    best = None
    for a, k in I.t.items():
        if abs(k) == 1 and a.key[0] == "in" and (best is None or a.idx > best.idx):
            best = a
    if best is None:
        if len(I.t) == 1:
            (a, k), = I.t.items()
            if (I.c / k).denominator != 1:
                return 0
        return _sign_atom(E)
    k = I.t[best]
    v = mklin({best: ONE}, ZERO).add(I, -k)  # best - k*I  (k = +-1)
    try:
        return _sign_atom(subst(E, best, v))
    except (_NoValue, OverflowError):
        return _sign_atom(E)


def cmp_lin(D: Lin, op: str):
    """D op 0 for op in <, <=, ==; returns a bool or SymBool."""
    if D.is_const():
        return _cmp_const(D.c, op)
    if D.pre is not None:
        return cmp_lin(D.pre, op)
    k = ("cmp", D.id, op)
    r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _cmp_lin(D, op)
    return r


def _cmp_lin(D, op):
    lo, hi = D.rng()
    if op == "<":
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == "<=":
        if hi <= 0:
            return True
        if lo > 0:
            return False
    elif lo > 0 or hi < 0:
        return False
    gd = grid(D)
    if gd is not None:
        g, I, f, _, E = gd
        if f:
            # D/g = I + f + E', 0 < f + E' < 1
            if op == "==":
                return False
            return cmp_lin(I, "<")
        s = _sign_at(I, E)
        sa = ()
        if not isinstance(s, int):
            s, sa = s
        if I.is_const():
            if I.c != 0:
                return _cmp_const(I.c, op)
            return _cmp_const(s, op) if isinstance(s, int) else mkbool({"<": s < 0, "<=": s <= 0, "==": s == 0}[op], sa)
        zi, ia = I.z_int(), I.atoms()
        if isinstance(s, int):
            if _cmp_const(s, op):
                return mkbool(zi == 0 if op == "==" else zi <= 0, ia)
            return False if op == "==" else mkbool(zi < 0, ia)
        if op == "==":
            return mkbool(z3.And(zi == 0, s == 0), ia + sa)
        return mkbool(z3.Or(zi < 0, z3.And(zi == 0, s < 0 if op == "<" else s <= 0)), ia + sa)
    z = D.z_real()
    return mkbool({"<": z < 0, "<=": z <= 0, "==": z == 0}[op], D.atoms())


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("z", "atoms")

    def __init__(self, z, atoms=()):
        self.z = z
        self.atoms = atoms

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().branch(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __xor__(self, o):
        return mkbool(z3.Xor(zb(self), zb(o)), self.atoms + at(o))

    def __eq__(self, o):
        if o is True or o is False or type(o) is SymBool:
            return mkbool(zb(self) == zb(o), self.atoms + at(o))
        return self._int() == o

    def __ne__(self, o):
        return Not(self == o)

    def _int(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __int__(self):
        return self._int()

    __index__ = __int__

    def __float__(self):
        return float(self._int())

    def __hash__(self):
        return hash(self._int())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return str(bool(self))

    __str__ = __repr__


def mkbool(z, atoms=()):
    if z is True or z is False:
        return z
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z, atoms)


def zb(x):
    if type(x) is SymBool:
        return x.z
    return z3.BoolVal(bool(x))


def at(x):
    return x.atoms if type(x) is SymBool else ()


def _join(xs):
    out = {}
    for x in xs:
        for a in x.atoms:
            out[a] = None
    return tuple(out)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else mkbool(z3.And([x.z for x in out]), _join(out))


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else mkbool(z3.Or([x.z for x in out]), _join(out))


def Not(x):
    return mkbool(z3.Not(x.z), x.atoms) if type(x) is SymBool else not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return mkbool(zb(a) == zb(b), at(a) + at(b))
    return bool(a) == bool(b)


# ---------------------------------------------------------------- numbers
def _np_types():
    import numpy as np

    return np


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymFloat or t is SymExact


class _Num:
    __slots__ = ("lin",)
    __hash__ = None

    def __init__(self, lin):
        self.lin = lin

    # --- coercion: returns (Lin, kind) kind in {'int','float','exact'} or None
    @staticmethod
    def coerce(o):
        t = type(o)
        if t is SymInt:
            return o.lin, "int"
        if t is SymFloat:
            return o.lin, "float"
        if t is SymExact:
            return o.lin, "exact"
        if t is int:
            return const(o), "int"
        if t is float:
            if o != o or o in (math.inf, -math.inf):
                return None
            return const(o), "float"
        if t is bool:
            return const(int(o)), "int"
        if t is F:
            return const(o), "exact"
        if t is SymBool:
            return const(o._int()), "int"
        np = _np_types()
        if isinstance(o, np.integer):
            return const(int(o)), "int"
        if isinstance(o, np.floating):
            if not np.isfinite(o):
                return None
            return const(float(o)), "float"
        if isinstance(o, int):
            return const(int(o)), "int"
        if isinstance(o, float):
            return const(float(o)), "float"
        return None

    def _cmp(self, o, op, swap=False):
        co = self.coerce(o)
        if co is None:
            if isinstance(o, float):
                if o != o:
                    return False
                return {"<": 0.0 < o, "<=": 0.0 <= o, "==": False}[op] if not swap else {"<": o < 0.0, "<=": o <= 0, "==": False}[op]
            return NotImplemented
        D = self.lin.add(co[0], -ONE)
        if swap:
            D = D.scale(-ONE)
        return cmp_lin(D, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, "<", swap=True)

    def __ge__(self, o):
        return self._cmp(o, "<=", swap=True)

    def __eq__(self, o):
        r = self._cmp(o, "==")
        if r is NotImplemented:
            return r if hasattr(o, "__array__") else False
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __bool__(self):
        return bool(Not(cmp_lin(self.lin, "==")))

    def __hash__(self):
        return eng().hash_of(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __neg__(self):
        return type(self)(self.lin.scale(-ONE))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0 if type(self) is SymInt else 0.0

    def conjugate(self):
        return self

    __array_ufunc__ = None  # numpy arrays defer to the reflected operators below

    def _bin(self, o, f, swap=False):
        co = self.coerce(o)
        if co is None:
            if isinstance(o, _np_types().ndarray):
                return elementwise(lambda v: self._bin1(v, f, swap), o)
            if isinstance(o, float):  # inf or nan
                return self._bin_inf(float(o), f, swap)
            return NotImplemented
        a, ka = self.lin, self.kind
        b, kb = co
        if swap:
            a, ka, b, kb = b, kb, a, ka
        kind = "exact" if "exact" in (ka, kb) else "float" if "float" in (ka, kb) else "int"
        return f(a, b, kind, ka, kb)

    def _bin_inf(self, o, f, swap):
        if f is _add or o != o:
            return o
        if f is _sub:
            return o if swap else -o
        if f is _mul:
            return o if self > 0 else -o if self < 0 else math.nan
        if f is _div and not swap:
            return 0.0
        return NotImplemented

    def _bin1(self, o, f, swap):
        if type(o) is SymComplex or isinstance(o, complex) and not is_sym(o):
            me, o = SymComplex.of(self), SymComplex.of(o)
            if swap:
                me, o = o, me
            return {_add: me.__add__, _sub: me.__sub__, _mul: me.__mul__, _div: me.__truediv__}[f](o)
        r = self._bin(o, f, swap)
        if r is NotImplemented:
            raise TypeError(f"unsupported operand {type(o)}")
        return r

    def __add__(self, o):
        if _iscplx(o):
            return SymComplex(self + o.real, o.imag)
        return self._bin(o, _add)

    def __radd__(self, o):
        if _iscplx(o):
            return SymComplex(o.real + self, o.imag)
        return self._bin(o, _add, True)

    def __sub__(self, o):
        return self._bin(o, _sub)

    def __rsub__(self, o):
        return self._bin(o, _sub, True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)) and type(self) is SymInt:
            return o * self.__index__()
        if type(o) is complex or (isinstance(o, complex) and not isinstance(o, float)):
            return SymComplex(self * o.real, self * o.imag)
        return self._bin(o, _mul)

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)) and type(self) is SymInt:
            return o * self.__index__()
        if type(o) is complex or (isinstance(o, complex) and not isinstance(o, float)):
            return SymComplex(self * o.real, self * o.imag)
        return self._bin(o, _mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _floordiv, True)

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, _mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, n, m=None):
        if isinstance(n, int) and not is_sym(n) and 0 <= n <= 4:
            r = 1 if type(self) is SymInt else 1.0
            for _ in range(n):
                r = self * r
            return r
        if isinstance(n, int) and not is_sym(n) and n < 0:
            return 1 / (self**-n)
        return self.concretize() ** n

    def __rpow__(self, b):
        return b ** self.concretize()

    def __str__(self):
        return eng().token(self)

    __repr__ = __str__

    def __format__(self, spec):
        s = eng().token(self)
        if spec and spec[-1] not in "dfgexXobn%" and not any(c in spec for c in ".,_"):
            return format(s, spec)
        return s

    def item(self):
        return self

    def concretize(self):
        return eng().concretize(self)

    def __reduce__(self):
        raise TypeError("symbolic values cannot be pickled")


def _add(a, b, kind, ka, kb):
    return _mk(a.add(b), kind, ("+", a, b), exact=_triv_add(a, b))


def _triv_add(a, b):
    return (a.is_const() and a.c == 0) or (b.is_const() and b.c == 0)


def _sub(a, b, kind, ka, kb):
    r = a.add(b, -ONE)
    return _mk(r, kind, ("-", a, b), exact=_triv_add(a, b) or (r.is_const() and r.c == 0))


def _pow2(c: F):
    n, d = abs(c.numerator), c.denominator
    return n != 0 and n & (n - 1) == 0 and d & (d - 1) == 0


def _mul(a, b, kind, ka, kb):
    if a.is_const():
        a, b = b, a
    if b.is_const():
        r = a.scale(b.c)
        return _mk(r, kind, ("*", a, b), exact=b.c == 0 or _pow2(b.c))
    al, ah = a.rng()
    bl, bh = b.rng()
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    isint = a.is_int() and b.is_int()
    eng().nonlinear += 1
    p = atom(
        ("prod", min(a.id, b.id), max(a.id, b.id)),
        "prod",
        "int" if isint else "real",
        min(ps),
        max(ps),
        lambda v: (
            v == (a.z_int() * b.z_int() if isint else a.z_real() * b.z_real()),
            a.atoms() + b.atoms(),
        ),
    )
    return _mk(mklin({p: ONE}, ZERO), kind, ("*", a, b))


def _div(a, b, kind, ka, kb):
    kind = "float" if kind == "int" else kind
    if b.is_const():
        if b.c == 0:
            raise ZeroDivisionError("float division by zero")
        return _mk(a.scale(ONE / b.c), kind, ("/", a, b), exact=_pow2(b.c))
    if cmp_lin(b, "=="):
        raise ZeroDivisionError("float division by zero")
    # proportional forms: a = c*b exactly
    if set(a.t) == set(b.t):
        first = next(iter(b.t))
        c = a.t[first] / b.t[first]
        if a.add(b, -c) is const(0):
            return _mk(const(c), kind, ("/", a, b), exact=True)
    bl, bh = b.rng()
    al, ah = a.rng()
    if bl > 0 or bh < 0:
        ps = [al / bl, al / bh, ah / bl, ah / bh]
        lo, hi = min(ps), max(ps)
    else:
        lo, hi = -F(10) ** 18, F(10) ** 18
        eng().note("quotient bounded to 1e18 in magnitude")
    eng().nonlinear += 1
    q = atom(
        ("quot", a.id, b.id),
        "quot",
        "real",
        lo,
        hi,
        lambda v: (v * b.z_real() == a.z_real(), a.atoms() + b.atoms()),
    )
    return _mk(mklin({q: ONE}, ZERO), kind, ("/", a, b))


def _mk(lin, kind, opkey, exact=False):
    if kind == "int":
        return _mkint(lin)
    if kind == "exact":
        return SymExact(lin) if lin.t else lin.c
    if exact:
        return _mkfloat(lin)
    m = lin.mag()
    if m == 0:
        return _mkfloat(lin)
    # integers below 2**53 computed exactly
    if lin.is_int() and m < 2**53 and all(x.is_int() for x in opkey[1:]):
        return _mkfloat(lin)
    k = ("fl", opkey[0], opkey[1].id, opkey[2].id)
    r = _MEMO.get(k)
    if r is None:
        b = U * m
        n = atom(k, "eps", "noise", -b, b)
        t = dict(lin.t)
        t[n] = t.get(n, ZERO) + ONE
        r = mklin(t, lin.c)
        # rounding preserves the sign exactly (no underflow)
        r.pre = lin
        r.scale(-ONE).pre = lin.scale(-ONE)
        _MEMO[k] = r
    return SymFloat(r)


def _mkint(lin):
    return SymInt(lin) if lin.t else int(lin.c)


def _mkfloat(lin):
    return SymFloat(lin) if lin.t else float(lin.c)


def floor_lin(x: Lin):
    """Integer Lin equal to floor of the real value x."""
    if x.is_const():
        return const(math.floor(x.c))
    if x.is_int():
        return x
    lo, hi = x.rng()
    if math.floor(lo) == math.floor(hi):
        return const(math.floor(lo))
    exact = all(a.kind == "int" for a in x.t) and max(k.denominator for k in x.t.values()) < 10**12
    gd = None if exact else grid(x, ONE)
    if gd is not None:
        _, I, f, _, E = gd
        if f:
            return I
        s = _sign_atom(E)
        if isinstance(s, int):
            return I if s >= 0 else I.add(const(-1))
        if eng().branch(mkbool(s[0] < 0, s[1])):
            return I.add(const(-1))
        return I
    if not exact and (J := _int_part(x)[0]).t:
        return J.add(floor_lin(x.add(J.scale(-ONE))))
    lo, hi = x.rng()
    den = x.c.denominator
    for k in x.t.values():
        den = den * k.denominator // math.gcd(den, k.denominator)
    ints = all(a.kind == "int" for a in x.t)

    def define(v):
        if ints and den < 10**12:
            n = x.scale(F(den)).z_int()
            return z3.And(den * v <= n, n <= den * v + (den - 1)), x.atoms()
        zr = x.z_real()
        return z3.And(z3.ToReal(v) <= zr, zr < z3.ToReal(v) + 1), x.atoms()

    a = atom(("floor", x.id), "flr", "int", math.floor(lo), math.floor(hi), define)
    return mklin({a: ONE}, ZERO)


def _int_part(x: Lin):
    """(J, x - J) with J the integer-valued part of x that has (nearly) integer coefficients."""
    t = {a: F(round(k)) for a, k in x.t.items() if a.kind == "int" and abs(k - round(k)) < F(1, 10**9) and round(k)}
    J = mklin(t, F(math.floor(x.c)))
    return J, x.add(J.scale(-ONE))


def round_lin(x: Lin):
    """Integer Lin equal to round-half-even of x."""
    if x.is_const():
        return const(round(x.c))
    if x.is_int():
        return x
    gd = grid(x, ONE)
    if gd is not None:
        _, I, f, eta, E = gd
        if f + eta < F(1, 2):
            return I
        if f - eta > F(1, 2):
            return I.add(const(1))
    J, y = _int_part(x)
    lo, hi = y.rng()
    if lo > F(-1, 2) and hi < F(1, 2):
        return J

    def define(v):
        zr, vr, h = y.z_real(), z3.ToReal(v), z3.RealVal("1/2")
        return (
            z3.And(
                vr - h <= zr,
                zr <= vr + h,
                z3.Implies(z3.Or(zr == vr - h, zr == vr + h), (J.z_int() + v) % 2 == 0),
            ),
            x.atoms(),
        )

    a = atom(("round", x.id), "rnd", "int", math.floor(lo), math.ceil(hi), define)
    return J.add(mklin({a: ONE}, ZERO))


def _floordiv(a, b, kind, ka, kb):
    q = _floordiv_lin(a, b, kind)
    if kind == "int":
        return _mkint(q)
    return _mkfloat(q) if kind == "float" else (SymExact(q) if q.t else q.c)


def _floordiv_lin(a, b, kind):
    if b.is_const():
        if b.c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return floor_lin(a.scale(ONE / b.c))
    if cmp_lin(b, "=="):
        raise ZeroDivisionError("integer division or modulo by zero")
    eng().nonlinear += 1

    def define(v):
        if a.is_int() and b.is_int():
            r = a.z_int() - v * b.z_int()
            bz = b.z_int()
        else:
            r = a.z_real() - z3.ToReal(v) * b.z_real()
            bz = b.z_real()
        return z3.If(bz > 0, z3.And(r >= 0, r < bz), z3.And(r <= 0, r > bz)), a.atoms() + b.atoms()

    m = a.mag() + 1
    q = atom(("fdiv", a.id, b.id), "fdiv", "int", -m, m, define)
    return mklin({q: ONE}, ZERO)


def _mod(a, b, kind, ka, kb):
    q = _floordiv_lin(a, b, kind)
    if b.is_const():
        r = a.add(q.scale(b.c), -ONE)
    else:
        p = _mul(q, b, kind if kind == "int" else "exact", None, None)
        pl = p.lin if is_sym(p) else const(p)
        r = a.add(pl, -ONE)
    if kind == "int":
        return _mkint(r)
    if kind == "exact":
        return SymExact(r) if r.t else r.c
    if b.is_const():
        if r.is_const():
            return float(r.c)
        bb = U * abs(b.c)
        n = atom(("fmod", a.id, b.id), "eps", "noise", -bb, bb)
        t = dict(r.t)
        t[n] = ONE
        return SymFloat(mklin(t, r.c))
    return _mkfloat(r)


def _iscplx(o):
    return type(o) is complex or (isinstance(o, complex) and not isinstance(o, float) and not is_sym(o))


def elementwise(f, *arrs):
    from .symarr import build

    return build(f, *arrs)


class SymInt(_Num):
    __slots__ = ()
    kind = "int"

    @property
    def __class__(self):
        return int

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def is_integer(self):
        return True

    def __index__(self):
        return eng().case_split(self)

    def __int__(self):
        return eng().case_split(self)

    def __float__(self):
        return float(eng().concretize(self))

    def bit_length(self):
        return self.__index__().bit_length()

    def _bits(self, o, f, name):
        co = self.coerce(o)
        if co is None or co[1] != "int":
            return NotImplemented
        if name == "and" and co[0].is_const():
            m = int(co[0].c)
            if m >= 0 and (m + 1) & m == 0:
                return self % (m + 1)
        return f(self.__index__(), o.__index__())

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b, "xor")

    __rxor__ = __xor__

    def __lshift__(self, o):
        o = o.__index__()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << o.__index__())

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return -self - 1


class SymFloat(_Num):
    __slots__ = ()
    kind = "float"

    @property
    def __class__(self):
        return float

    def __round__(self, n=None):
        if n is None:
            return _mkint(round_lin(self.lin))
        n = int(n)
        s = F(10) ** n
        r = round_lin(self.lin.scale(s))
        return _mk(r.scale(ONE / s), "float", ("/", r, const(s)), exact=r.is_int() and n <= 0)

    def __floor__(self):
        return _mkint(floor_lin(self.lin))

    def __ceil__(self):
        return _mkint(floor_lin(self.lin.scale(-ONE)).scale(-ONE))

    def __trunc__(self):
        if cmp_lin(self.lin, "<"):
            return self.__ceil__()
        return self.__floor__()

    def is_integer(self):
        return self == _mkfloat(floor_lin(self.lin))

    def __float__(self):
        return float(eng().concretize(self))

    def __int__(self):
        t = self.__trunc__()
        return t if type(t) is int else t.__index__()

    def __complex__(self):
        return complex(float(self))

    def hex(self):
        return self.concretize().hex()

    def as_integer_ratio(self):
        return self.concretize().as_integer_ratio()


class SymExact(_Num):
    """Exact rational specification values (no rounding); concrete twin: Fraction."""

    __slots__ = ()
    kind = "exact"

    def __round__(self, n=None):
        return _mkint(round_lin(self.lin))

    def __floor__(self):
        return _mkint(floor_lin(self.lin))

    def __ceil__(self):
        return _mkint(floor_lin(self.lin.scale(-ONE)).scale(-ONE))

    def __float__(self):
        return float(eng().concretize(self))


class SymComplex:
    """Pair of (possibly symbolic) floats."""

    __slots__ = ("real", "imag")
    __array_ufunc__ = None

    def _arr(self, o, f):
        return elementwise(f, o)

    def __init__(self, re, im):
        self.real, self.imag = re, im

    @property
    def __class__(self):
        return complex

    @staticmethod
    def of(o):
        if type(o) is SymComplex:
            return o
        if is_sym(o):
            return SymComplex(o, 0.0)
        if isinstance(o, (int, float, complex)) or hasattr(o, "real"):
            return SymComplex(o.real, o.imag)
        return None

    def __add__(self, o):
        if isinstance(o, _np_types().ndarray):
            return elementwise(lambda v: self + v, o)
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _np_types().ndarray):
            return elementwise(lambda v: self - v, o)
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        if isinstance(o, _np_types().ndarray):
            return elementwise(lambda v: v - self, o)
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(o.real - self.real, o.imag - self.imag)

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __mul__(self, o):
        if isinstance(o, _np_types().ndarray):
            return elementwise(lambda v: self * v, o)
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        return SymComplex(
            self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np_types().ndarray):
            return elementwise(lambda v: self / v, o)
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        if type(o.imag) in (int, float) and o.imag == 0:
            return SymComplex(self.real / o.real, self.imag / o.real)
        d = o.real * o.real + o.imag * o.imag
        n = self * SymComplex(o.real, -o.imag)
        return SymComplex(n.real / d, n.imag / d)

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def __eq__(self, o):
        o = SymComplex.of(o)
        return False if o is None else And(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return hash((self.real, self.imag))

    def __bool__(self):
        return bool(Or(self.real != 0, self.imag != 0))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __complex__(self):
        return complex(float(self.real), float(self.imag))

    def __abs__(self):
        from .shims import sym_sqrt

        return sym_sqrt(self.real * self.real + self.imag * self.imag)

    def __str__(self):
        return f"({self.real}+{self.imag}j)"

    __repr__ = __str__
