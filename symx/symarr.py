"""Object arrays whose elements may be symbolic."""

from __future__ import annotations

import numpy as np

from .values import SymComplex, is_sym


def _sym(v):
    return is_sym(v) or type(v) is SymComplex


class SymArr(np.ndarray):
    """An object ndarray with at least one symbolic element."""

    def round(self, decimals=0, out=None):
        def r(v):
            if type(v) is SymComplex:
                return SymComplex(r(v.real), r(v.imag))
            if is_sym(v):
                return v.__round__(decimals) if decimals else v.__round__() * 1.0
            return np.round(v, decimals)

        return build(r, self)

    def tobytes(self, order="C"):
        """Content key; equal exactly when the contents are equal (forks where that is open)."""
        from .values import And, eng

        known = eng().cache.setdefault("contents", [])
        for arr, key in known:
            if arr.shape != self.shape:
                continue
            same = []
            for a, b in zip(arr.flat, self.flat):
                if a is b or _ckey(a) == _ckey(b):
                    continue
                if not _sym(a) and not _sym(b):
                    break
                same.append(a == b)
                if same[-1] is False:
                    break
            else:
                if bool(And(same)):
                    return key
        key = repr((len(known), self.shape, [_ckey(v) for v in self.flat])).encode()
        known.append((self, key))
        return key

    @property
    def real(self):
        return build(lambda v: v.real, self)

    @property
    def imag(self):
        return build(lambda v: v.imag, self)

    def _inplace(self, value):
        self[...] = value
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def astype(self, dtype, *a, **k):
        return self

    def tolist(self):
        return [v for v in self] if self.ndim == 1 else [x.tolist() for x in self]

    def mean(self, axis=None, *a, **k):
        if axis is not None or a or k:
            return super().mean(axis, *a, **k)
        total = 0
        for v in self.flat:
            total = total + v
        return total / self.size

    def any(self, *a, **k):
        from .values import Or

        return Or(list(self.flat))

    def all(self, *a, **k):
        from .values import And

        return And(list(self.flat))


def _ckey(v):
    if type(v) is SymComplex:
        return (v.real.lin.id if is_sym(v.real) else v.real, v.imag.lin.id if is_sym(v.imag) else v.imag)
    return ("t", v.lin.id) if is_sym(v) else v


def finish(out):
    """Dense array when everything is concrete, SymArr otherwise."""
    flat = list(out.flat)
    if not any(_sym(v) for v in flat):
        if flat and all(type(v) in (bool, np.bool_) for v in flat):
            return out.astype(bool)
        if any(isinstance(v, complex) for v in flat):
            return out.astype(complex)
        if all(isinstance(v, (int, np.integer)) for v in flat) and flat:
            return out.astype(int)
        try:
            return out.astype(float)
        except (TypeError, ValueError):
            return out
    return out.view(SymArr)


def build(f, *arrs):
    if len(arrs) == 1:
        a = np.asarray(arrs[0]) if not isinstance(arrs[0], np.ndarray) else arrs[0]
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i])
    else:
        bs = np.broadcast_arrays(*arrs, subok=True)
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(bs[0].shape):
            out[i] = f(*(b[i] for b in bs))
    return finish(out)
