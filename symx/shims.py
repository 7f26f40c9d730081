"""Injection of symbolic-aware stand-ins for C-level numeric builtins.

The real repository functions run unmodified; only the names ``int``, ``float``, ``math``,
``np``/``numpy`` (and functions imported from them) in the *globals* of the loaded
``quantify_scheduler`` modules are replaced by wrappers that defer to the genuine function
whenever no argument is symbolic.
"""

from __future__ import annotations

import builtins
import math as _math
import sys
from fractions import Fraction as F

import numpy as _np

from . import values as V
from .symarr import SymArr, build, finish
from .values import And, Not, ONE, Or, SymBool, SymComplex, SymExact, SymFloat, SymInt, ZERO, atom, is_sym, mklin


def has_sym(x, depth=0):
    if is_sym(x) or type(x) is SymComplex or type(x) is SymBool:
        return True
    if depth < 3 and type(x) in (list, tuple):
        return any(has_sym(i, depth + 1) for i in x)
    if builtins.isinstance(x, _np.ndarray) and x.dtype == object:
        return any(has_sym(i, depth + 1) for i in x.flat)
    return False


# ------------------------------------------------------------------ int / float / complex
class _IntMeta(type):
    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if type(x) is SymInt:
                return x
            if type(x) in (SymFloat, SymExact):
                return x.__trunc__() if type(x) is SymFloat else SymFloat(x.lin).__trunc__()
            if type(x) is SymBool:
                return x._int()
            if builtins.type(x) is str and V.ENGINE is not None:
                p = V.ENGINE.parse(x)
                if p is not None:
                    return _IntMeta.__call__(cls, p)
            if builtins.isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
                return _IntMeta.__call__(cls, x.item())
        return builtins.int(*a, **k)

    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.int)

    def __subclasscheck__(cls, o):
        return builtins.issubclass(o, builtins.int)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


class _FloatMeta(type):
    def __call__(cls, *a, **k):
        if a:
            x = a[0]
            if type(x) is SymFloat:
                return x
            if type(x) is SymInt:
                return x * 1.0
            if type(x) is SymExact:
                return SymFloat(x.lin)
            if builtins.type(x) is str and V.ENGINE is not None:
                p = V.ENGINE.parse(x)
                if p is not None:
                    return _FloatMeta.__call__(cls, p)
            if builtins.isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
                return _FloatMeta.__call__(cls, x.item())
        return builtins.float(*a, **k)

    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.float)

    def __subclasscheck__(cls, o):
        return builtins.issubclass(o, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class _ComplexMeta(type):
    def __call__(cls, *a, **k):
        if a and (type(a[0]) is SymComplex or is_sym(a[0]) or (len(a) > 1 and is_sym(a[1]))):
            z = SymComplex.of(a[0])
            if len(a) > 1:
                z = z + SymComplex.of(a[1]) * 1j
            return z
        return builtins.complex(*a, **k)

    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.complex)

    def __subclasscheck__(cls, o):
        return builtins.issubclass(o, builtins.complex)

    def __eq__(cls, o):
        return o is builtins.complex or o is cls

    def __hash__(cls):
        return hash(builtins.complex)


class ComplexShim(complex, metaclass=_ComplexMeta):
    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        return handler(builtins.complex)


class IntShim(int, metaclass=_IntMeta):
    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        return handler(builtins.int)


class FloatShim(float, metaclass=_FloatMeta):
    fromhex = float.fromhex

    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        return handler(builtins.float)


class _RangeMeta(type):
    def __call__(cls, *a):
        if len(a) == 2 and any(type(x) is SymInt for x in a):
            n = a[1] - a[0]  # only the length has to be known
            return [a[0] + i for i in builtins.range(n.__index__())]
        return builtins.range(*a)

    def __instancecheck__(cls, o):
        return builtins.isinstance(o, builtins.range)


class RangeShim(metaclass=_RangeMeta):
    pass


# ------------------------------------------------------------------ math helpers
def _lift(f):
    """Apply f elementwise over sequences/object arrays."""

    def g(x, *a, **k):
        if type(x) in (list, tuple):
            x = _objarr(x)
        if builtins.isinstance(x, _np.ndarray):
            return build(lambda v: f(v, *a, **k), x)
        r = f(x, *a, **k)
        return _np.bool_(r) if r is True or r is False else r

    return g


def sym_isclose(a, b, rel, abs_, numpy_style):
    if type(a) is SymComplex or type(b) is SymComplex:
        a, b = SymComplex.of(a), SymComplex.of(b)
        return And(
            sym_isclose(a.real, b.real, rel, abs_, numpy_style),
            sym_isclose(a.imag, b.imag, rel, abs_, numpy_style),
        )
    for v in (a, b):
        if builtins.isinstance(v, builtins.float) and not is_sym(v) and not _math.isfinite(v):
            return False
    A = V._Num.coerce(a)[0]
    B = V._Num.coerce(b)[0]
    D = A.add(B, -ONE)
    if D.is_const() and D.c == 0:
        return True
    # quick decision from the ranges: with |D| compared to the largest possible tolerance
    tol_hi = (F(abs_) + F(rel) * B.mag()) if numpy_style else max(F(rel) * max(A.mag(), B.mag()), F(abs_))
    gd = V.grid(D)
    if gd is not None:
        g, I, f, eta, E = gd
        if f == 0 and g * (1 - eta) > tol_hi:
            # only I == 0 can be close; then |D| = |E| <= eta*g
            tol_lo = F(abs_)
            r = V.cmp_lin(I, "==")
            if eta * g <= tol_lo:
                return r
            # relative tolerance decides: |D| <= rel*max(|a|,|b|); noise is far below the
            # tolerance unless both operands are (almost) zero
            if r is False:
                return False
            if not (r if r is True else bool(r)):
                return False
            # forked on I == 0: fall through to exact comparison
    rl = F(rel)

    def le(x, y):  # |x| <= y as Lin comparisons
        return And(V.cmp_lin(x.add(y, -ONE), "<="), V.cmp_lin(x.scale(-ONE).add(y, -ONE), "<="))

    if numpy_style:
        s = B if not bool(V.cmp_lin(B, "<")) else B.scale(-ONE)
        return le(D, s.scale(rl).add(V.const(F(abs_))))
    absA = A if not bool(V.cmp_lin(A, "<")) else A.scale(-ONE)
    absB = B if not bool(V.cmp_lin(B, "<")) else B.scale(-ONE)
    opts = [le(D, absA.scale(rl)), le(D, absB.scale(rl))]
    if abs_:
        opts.append(le(D, V.const(F(abs_))))
    return Or(opts)


def sym_sqrt(x):
    if not is_sym(x):
        return _math.sqrt(x)
    if x < 0:
        raise ValueError("math domain error")
    V.eng().nonlinear += 1
    hi = x.lin.rng()[1]
    a = atom(
        ("sqrt", x.lin.id),
        "sqrt",
        "real",
        0,
        max(hi, F(1)),
        lambda v: (v * v == x.lin.z_real(), x.lin.atoms()),
    )
    return SymFloat(mklin({a: ONE}, ZERO))


def _uf(name, lo, hi):
    """Uninterpreted but functional (same argument -> same value) bounded function."""

    def f(x):
        if not is_sym(x):
            return getattr(_np, name)(x)
        V.eng().note(f"{name} is uninterpreted with range [{lo},{hi}]")
        a = atom((name, x.lin.id), name, "real", lo, hi)
        return SymFloat(mklin({a: ONE}, ZERO))

    return f


sym_sin = _uf("sin", -1, 1)
sym_cos = _uf("cos", -1, 1)
sym_tan = _uf("tan", -(10**9), 10**9)


def sym_copysign(x, y):
    ax = abs(x)
    return -ax if y < 0 else ax


def sym_round(x, n=None):
    return x.__round__(n) if n else (x.__round__() * 1.0 if type(x) is SymFloat else x)


def _floorf(x):
    return x.__floor__()


def _ceilf(x):
    y = x.__ceil__()
    if type(y) is not int and V.eng().split_ceil:
        if bool(x > 0):  # the sign of a float is exact
            V.eng().assume(y >= 1)
        return V.eng().case_split(y)
    return y


def _truncf(x):
    return x.__trunc__()


def _is_nan(x):
    return False


def _is_inf(x):
    return False


def _is_finite(x):
    return True


ALWAYS = {"empty", "zeros"}  # to be filled with values that may be symbolic


class _Meta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, cls._real)

    def __getattr__(cls, k):
        return getattr(cls._real, k)


class _Callable(metaclass=_Meta):
    """Stands for a numpy number type: converts, also symbolic values, and works as a dtype."""

    def __new__(cls, *a):
        return cls._f(*a) if any(has_sym(x) for x in a) else cls._real(*a)


class _Mod:
    def __init__(self, real, table):
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table

    def __getattr__(self, n):
        real = getattr(self._real, n)
        f = self._table.get(n)
        if f is None:
            return real

        def w(*a, **k):
            if n in ALWAYS or any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                return f(*a, **k)
            return real(*a, **k)

        if builtins.isinstance(real, type):  # also used as a dtype
            return _Meta(n, (_Callable,), {"__module__": "numpy", "_f": builtins.staticmethod(f), "_real": real, "dtype": _np.dtype(real)})
        w.__name__ = n
        return w


class _Over(_Mod):
    def __getattr__(self, n):
        return self._table.get(n) or getattr(self._real, n)


def _m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    return sym_isclose(a, b, rel_tol, abs_tol, False)


def _m_fmod(x, y):
    q = x / y
    return x - y * _truncf(q) if is_sym(q) else _math.fmod(x, y)


MATH = {
    "isclose": _m_isclose,
    "isnan": _is_nan,
    "isinf": _is_inf,
    "isfinite": _is_finite,
    "floor": _floorf,
    "ceil": _ceilf,
    "trunc": _truncf,
    "fabs": lambda x: abs(x) * 1.0,
    "sqrt": sym_sqrt,
    "sin": sym_sin,
    "cos": sym_cos,
    "tan": sym_tan,
    "copysign": sym_copysign,
    "fmod": _m_fmod,
    "radians": lambda x: x * (_math.pi / 180),
    "degrees": lambda x: x * (180 / _math.pi),
}


def _np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    arr = [builtins.isinstance(v, (list, tuple, _np.ndarray)) for v in (a, b)]
    if any(arr):
        aa, bb = _np.broadcast_arrays(_np.array(a, dtype=object), _np.array(b, dtype=object))
        out = _np.empty(aa.shape, dtype=object)
        for i in _np.ndindex(aa.shape):
            out[i] = sym_isclose(aa[i], bb[i], rtol, atol, True)
        return out
    return sym_isclose(a, b, rtol, atol, True)


def _np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _np_isclose(a, b, rtol, atol)
    return And(list(r.flat)) if builtins.isinstance(r, _np.ndarray) else r


def _np_round(x, decimals=0, out=None):
    return _lift(lambda v: v.__round__(decimals) if decimals else (v.__round__() * 1.0 if is_sym(v) else _np.round(v)))(x)


def _np_real(x):
    return _lift(lambda v: v.real)(x)


def _np_imag(x):
    return _lift(lambda v: v.imag)(x)


def _np_abs(x):
    return _lift(abs)(x)


def _np_sign(x):
    return _lift(lambda v: (1.0 if v > 0 else (-1.0 if v < 0 else 0.0)))(x)


def _np_clip(x, lo, hi, **k):
    return _lift(lambda v: lo if v < lo else (hi if v > hi else v))(x)


def _np_minmax(which):
    def f(x, *rest, **k):
        seq = list(x.flat) if builtins.isinstance(x, _np.ndarray) else list(x)
        return which(seq)

    return f


def _np_pair(which):
    def f(a, b, **k):
        if builtins.isinstance(a, (list, tuple, _np.ndarray)) or builtins.isinstance(b, (list, tuple, _np.ndarray)):
            aa, bb = _np.broadcast_arrays(_np.array(a, dtype=object), _np.array(b, dtype=object))
            out = _np.empty(aa.shape, dtype=object)
            for i in _np.ndindex(aa.shape):
                out[i] = which(aa[i], bb[i])
            return out
        return which(a, b)

    return f


def _np_any(x, *a, **k):
    return Or([v if type(v) is SymBool else bool(v) for v in (x.flat if builtins.isinstance(x, _np.ndarray) else x)])


def _np_all(x, *a, **k):
    return And([v if type(v) is SymBool else bool(v) for v in (x.flat if builtins.isinstance(x, _np.ndarray) else x)])


def _objarr(x):
    out = _np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        out[i] = v
    return out


def _np_empty(shape, dtype=float, **k):
    return _np.zeros(shape, dtype=object).view(SymArr)


def _np_zeros(shape, dtype=float, *a, **k):
    # elsewhere zeros are only added to, which needs no array of objects
    if sys._getframe(2).f_globals["__name__"] == "quantify_scheduler.waveforms":
        return _np_empty(shape)
    return _np.zeros(shape, dtype, *a, **k)


def _np_array(x, dtype=None, **k):
    if is_sym(x) or type(x) is SymComplex:
        return x
    if type(x) in (list, tuple) and not any(type(v) in (list, tuple) for v in x):
        x = _objarr(x)
    return finish(_np.array(x, dtype=object))


def _np_asarray(x, dtype=None, **k):
    return finish(_np.array(x, dtype=object)) if is_sym(x) else _np_array(x, dtype, **k)


def _np_exp(x):
    def f(v):
        if type(v) is SymComplex:
            # only purely imaginary exponents: cos + i sin
            return SymComplex(sym_cos(v.imag), sym_sin(v.imag))
        raise_v = v.concretize() if is_sym(v) else v
        return _np.exp(raise_v)

    return _lift(f)(x)


def _np_iscomplex(x):
    return _lift(lambda v: v.imag != 0 if type(v) is SymComplex else False)(x)


def _np_isreal(x):
    return _lift(lambda v: v.imag == 0 if type(v) is SymComplex else True)(x)


def _np_isrealobj(x):
    return not (type(x) is SymComplex or (builtins.isinstance(x, _np.ndarray) and any(type(v) is SymComplex for v in x.flat)))


def _np_where(c, *ab):
    if not ab:
        cc = _np.array([bool(v) for v in (c.flat if builtins.isinstance(c, _np.ndarray) else c)])
        return _np.where(cc)
    return ab[0] if bool(c) else ab[1]


def _np_sum(x, *a, **k):
    t = 0.0
    for v in x.flat if builtins.isinstance(x, _np.ndarray) else x:
        t = t + v
    return t


def _np_argmax(x, *a, **k):
    seq = list(x)
    b = 0
    for i, v in enumerate(seq):
        if v > seq[b]:
            b = i
    return b


def _np_arange(*a, start=None, stop=None, step=None, **k):
    """np.arange with symbolic bounds: number of samples case-split, values computed as start + i*step."""
    if len(a) == 1 and stop is None:
        start, stop = start or 0, a[0]
    else:
        start = a[0] if a else (start if start is not None else 0)
        stop = a[1] if len(a) > 1 else stop
        step = a[2] if len(a) > 2 else step
    step = 1 if step is None else step
    n = (stop - start) / step
    n = n.__ceil__() if is_sym(n) else _math.ceil(n)
    n = n.__index__() if is_sym(n) else n
    return finish(_objarr([start + i * step for i in range(n)])) if has_sym(start) or has_sym(step) else start + step * _np.arange(max(n, 0))


def _np_linspace(start, stop, num=50, endpoint=True, **k):
    num = int(num)
    div = (num - 1) if endpoint else num
    delta = stop - start
    step = delta / div if div > 0 else 0.0
    y = [start + i * step for i in range(num)]
    if endpoint and num > 1:
        y[-1] = stop * 1.0
    return finish(_objarr(y))


NP = {
    "linspace": _np_linspace,
    "isnan": _lift(_is_nan),
    "isinf": _lift(_is_inf),
    "isfinite": _lift(_is_finite),
    "isclose": _np_isclose,
    "allclose": _np_allclose,
    "round": _np_round,
    "around": _np_round,
    "rint": _np_round,
    "real": _np_real,
    "imag": _np_imag,
    "abs": _np_abs,
    "absolute": _np_abs,
    "fabs": _np_abs,
    "sign": _np_sign,
    "clip": _np_clip,
    "max": _np_minmax(max),
    "min": _np_minmax(min),
    "amax": _np_minmax(max),
    "amin": _np_minmax(min),
    "maximum": _np_pair(lambda a, b: b if a < b else a),
    "minimum": _np_pair(lambda a, b: a if a < b else b),
    "any": _np_any,
    "all": _np_all,
    "array": _np_array,
    "asarray": _np_asarray,
    "exp": _np_exp,
    "sin": _lift(sym_sin),
    "cos": _lift(sym_cos),
    "tan": _lift(sym_tan),
    "sqrt": _lift(sym_sqrt),
    "deg2rad": _lift(lambda x: x * (_math.pi / 180)),
    "rad2deg": _lift(lambda x: x * (180 / _math.pi)),
    "radians": _lift(lambda x: x * (_math.pi / 180)),
    "floor": _lift(lambda v: _floorf(v) * 1.0 if is_sym(v) else _np.floor(v)),
    "ceil": _lift(lambda v: _ceilf(v) * 1.0 if is_sym(v) else _np.ceil(v)),
    "trunc": _lift(lambda v: _truncf(v) * 1.0 if is_sym(v) else _np.trunc(v)),
    "iscomplex": _np_iscomplex,
    "isreal": _np_isreal,
    "isrealobj": _np_isrealobj,
    "iscomplexobj": lambda x: not _np_isrealobj(x),
    "where": _np_where,
    "sum": _np_sum,
    "argmax": _np_argmax,
    "arange": _np_arange,
    "logical_or": _np_pair(lambda a, b: Or(a, b)),
    "logical_and": _np_pair(lambda a, b: And(a, b)),
    "empty": _np_empty,
    "zeros": _np_zeros,
    "float64": lambda x: x * 1.0,
    "mod": lambda a, b: a % b,
    "fmod": lambda a, b: _m_fmod(a, b),
    "multiply": lambda a, b: a * b,
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "divide": lambda a, b: a / b,
    "isscalar": lambda x: is_sym(x) or type(x) is SymComplex,
}

def _interp1d(x, y, kind="linear", **k):
    """scipy.interpolate.interp1d (linear, extrapolating) for symbolic samples at concrete times."""
    import scipy.interpolate as si

    y = list(y)
    if kind != "linear" or not has_sym(y):
        return si.interp1d(x, y, kind=kind, **k)

    def at(ts):
        out = []
        for t in ts:
            hi = min(max(int(_np.searchsorted(x, t)), 1), len(y) - 1)
            lo = hi - 1
            out.append((y[hi] - y[lo]) / (x[hi] - x[lo]) * (t - x[lo]) + y[lo])
        return finish(_objarr(out))

    return at


SCIPY_INTERPOLATE = {"interp1d": _interp1d}
MATH_SHIM = _Mod(_math, MATH)
NP_SHIM = _Mod(_np, NP)

_installed = set()


def det_uuid4():
    """Unique per path but the same on every re-execution of a path."""
    import uuid

    V.ENGINE.uuids += 1
    return uuid.UUID(int=0x5EED << 100 | V.ENGINE.uuids)


def install(prefixes=("quantify_scheduler",)):
    """Inject the shims in every loaded module with one of the prefixes (idempotent)."""
    import cmath  # noqa: F401

    import uuid

    real_uuid4 = uuid.uuid4
    uuid.uuid4 = det_uuid4
    _rebuild_models()
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith(tuple(prefixes)) or name in _installed:
            continue
        _installed.add(name)
        d = mod.__dict__
        for k, v in list(d.items()):
            if v is _math:
                d[k] = MATH_SHIM
            elif v is _np:
                d[k] = NP_SHIM
            elif getattr(v, "__name__", None) == "scipy.interpolate":
                d[k] = _Over(v, SCIPY_INTERPOLATE)
            elif builtins.callable(v) and getattr(v, "__module__", None) == "math" and v.__name__ in MATH:
                d[k] = getattr(MATH_SHIM, v.__name__)
            elif (n := getattr(v, "__name__", None)) in NP and k == n and v is getattr(_np, n, None):
                d[k] = getattr(NP_SHIM, n)
            elif v is real_uuid4:
                d[k] = det_uuid4
        d["int"] = IntShim
        d["float"] = FloatShim
        d["complex"] = ComplexShim
        d["range"] = RangeShim


_unwrapped = []  # models whose validators could not be made symbolic


def _sym_validator(sch):
    """Wrap validator of a number: symbolic values stay symbolic, bounds become constraints."""
    kind = sch["type"]

    def fn(v, handler):
        if not is_sym(v):
            return handler(v)
        if kind == "int" and type(v) is not SymInt:
            return handler(v)
        for k, ok in (
            ("ge", lambda a, b: a >= b),
            ("gt", lambda a, b: a > b),
            ("le", lambda a, b: a <= b),
            ("lt", lambda a, b: a < b),
        ):
            if k in sch and not ok(v, sch[k]):
                raise ValueError(f"value should be {k} {sch[k]}")
        if kind == "float" and type(v) is SymInt:
            v = v * 1.0
        return v

    return fn


def _sym_schema(s):
    if type(s) is list:
        return [_sym_schema(x) for x in s]
    if type(s) is tuple:
        return tuple(_sym_schema(x) for x in s)
    if type(s) is not dict:
        return s
    if s.get("type") in ("float", "int") and not any(type(v) is dict and "type" in v for v in s.values()):
        inner = {k: v for k, v in s.items() if k != "ref"}
        out = {
            "type": "function-wrap",
            "function": {"type": "no-info", "function": _sym_validator(s)},
            "schema": inner,
        }
        if "ref" in s:
            out["ref"] = s["ref"]
        return out
    return {k: v if k in ("metadata", "serialization", "default") else _sym_schema(v) for k, v in s.items()}


def _rebuild_models():
    """Complete deferred pydantic models before their module globals change."""
    from pydantic import BaseModel
    from pydantic_core import SchemaValidator

    todo, classes = [BaseModel], []
    while todo:
        c = todo.pop()
        todo.extend(c.__subclasses__())
        if c.__module__.startswith("quantify_scheduler"):
            try:
                c.model_rebuild()
                classes.append((c, c.__pydantic_core_schema__))
            except Exception:  # noqa: BLE001
                _unwrapped.append(c.__name__)
    for c, _ in classes:
        c.__pydantic_complete__ = False  # no reuse of validators already built
    new = [(c, SchemaValidator(_sym_schema(sch))) for c, sch in classes]
    for c, v in new:
        c.__pydantic_validator__ = v
        c.__pydantic_complete__ = True
