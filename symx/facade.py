"""Stand-ins for numpy / math / scipy that carry symbolic reals.

The code under test is imported with these modules in place of the real ones;
its own functions, control flow and array manipulations run unchanged on object
arrays whose elements are terms.SR.  Everything not overridden here is numpy.
"""
import functools
import itertools
import math
import types
from fractions import Fraction as Fr

import numpy as np

from . import terms as T
from .terms import SR, SB, CTX, NAN, PINF, NINF, Unsupported, compare, lift


class Mode:
    exact = True        # True: floats are exact numbers, np.pi is symbolic


MODE = Mode()
_NUM = (int, float, np.integer, np.floating, Fr, bool, np.bool_)


class SymBytes(object):
    """the bytes of an array of symbolic numbers of one type"""

    def __init__(self, items, dtype):
        self.items = items
        self.dtype = np.dtype(dtype)

    def __len__(self):
        return self.items.size * self.dtype.itemsize

    def read_as(self, dtype):
        dtype = np.dtype(dtype)
        if dtype == self.dtype:
            return wrap(self.items.copy())
        if len(self) % dtype.itemsize:
            raise ValueError('buffer size must be a multiple of element size')
        return np.full(len(self) // dtype.itemsize, np.nan)      # some other numbers


def S_frombuffer(buf, dtype=float, count=-1, offset=0):
    if isinstance(buf, SymBytes):
        r = buf.read_as(dtype)
        if offset:
            r = r[offset // np.dtype(dtype).itemsize:]
        return r if count < 0 else r[:count]
    return np.frombuffer(buf, dtype=dtype, count=count, offset=offset)


class SymND(np.ndarray):
    """object array whose elements may be symbolic; behaves as a float array"""

    _dt = None

    def __array_finalize__(self, obj):
        d = getattr(obj, '_dt', None)
        if d is not None:
            self._dt = d

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def astype(self, dtype, *a, **k):
        b = self.view(np.ndarray)
        dt = np.dtype(dtype)
        if dt.kind in 'O':
            return self.copy()
        if dt.kind == 'f':
            if dt.itemsize < 8 and getattr(CTX.eng, 'on_narrow', None):
                CTX.eng.on_narrow()
            r = wrap(np.array(self.copy())) if not has_sym(b) else self.copy()
            if dt != np.dtype(float) and isinstance(r, SymND):
                r._dt = dt
            return r
        if dt.kind == 'b':
            return tobool(b)
        if dt.kind in 'iu':
            out = np.empty(self.shape, dt)
            for i in np.ndindex(*self.shape):
                v = b[i]
                if isinstance(v, SR) and v.sp:
                    v = 0
                v = int(v)
                info = np.iinfo(dt)
                if not info.min <= v <= info.max:
                    v = (v - info.min) % (info.max - info.min + 1) + info.min
                out[i] = v
            return out
        if dt.kind in 'SU':
            return b.astype(dtype)
        raise Unsupported(f'astype({dt})')

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return S_sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return S_mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return S_max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return S_min(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, ddof=0, **k):
        return S_var(self, axis=axis, ddof=ddof)

    def std(self, axis=None, ddof=0, **k):
        return S_std(self, axis=axis, ddof=ddof)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return tobool(self).all(axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return tobool(self).any(axis=axis, keepdims=keepdims)

    def sort(self, axis=-1, **k):
        self[...] = S_sort(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return S_argsort(self, axis=axis)

    def argmax(self, axis=None, **k):
        return S_argmax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return S_argmax(-self, axis=axis)

    def searchsorted(self, v, side='left', sorter=None):
        return S_searchsorted(self, v, side=side)

    def clip(self, min=None, max=None, **k):
        return S_clip(self, min, max)

    def nonzero(self):
        return tobool(self).nonzero()

    def tobytes(self, order='C'):
        return SymBytes(self.view(np.ndarray).ravel(order), self._dt or np.dtype(float))

    def tofile(self, f, *a, **k):
        raise Unsupported('tofile of symbolic array')

    def dot(self, o):
        return S_dot(self, o)

    def __matmul__(self, o):
        return S_dot(self, o)

    def __rmatmul__(self, o):
        return S_dot(o, self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        return bool(self.view(np.ndarray).ravel()[0])

    def round(self, decimals=0, out=None):
        return wrap(np.frompyfunc(lambda x: round(lift(x), decimals or None), 1, 1)(self.view(np.ndarray)))

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, fixidx(k))
        if isinstance(r, float) and MODE.exact:
            return lift(r)
        return r

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, fixidx(k), v)


def fixidx(k):
    if isinstance(k, tuple):
        return tuple(fixidx(x) for x in k)
    if isinstance(k, SymND):
        # boolean masks that went through an object array
        if k.size and all(isinstance(x, (bool, np.bool_, SB)) for x in k.view(np.ndarray).ravel()):
            return tobool(k)
        if k.size and all(isinstance(x, (int, np.integer)) for x in k.view(np.ndarray).ravel()):
            return k.view(np.ndarray).astype(int)
        if k.size:
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return k.view(np.ndarray).astype(int)
    if isinstance(k, SB):
        return bool(k)
    return k


def has_sym(x):
    if isinstance(x, (SR, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (SR, SB)) for e in x.view(np.ndarray).ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def is_obj(x):
    if isinstance(x, (SR, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_obj(e) for e in x)
    return False


def wrap(r):
    """object arrays become SymND (bool results become native bool arrays)"""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0 and not isinstance(r, SymND):
                return r.view(SymND)
            return r if isinstance(r, SymND) else r.view(SymND)
        return r
    if type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def raw(x):
    if isinstance(x, SymND):
        return x.view(np.ndarray)
    if isinstance(x, (SR, SB)):
        a = np.empty((), object)
        a[()] = x
        return a
    return x


def A(x):
    """asarray without conversion of the element type"""
    if isinstance(x, np.ndarray):
        return x
    return wrap(np.asarray(x))


def tobool(x):
    x = raw(x)
    if not isinstance(x, np.ndarray):
        x = np.asarray(x)
    if x.dtype == bool:
        return x
    if x.dtype == object:
        out = np.empty(x.shape, bool)
        for i in np.ndindex(*x.shape):
            out[i] = bool(x[i])
        return out
    return x.astype(bool)


# ------------------------------------------------------------ scalar functions
def _nat(f):
    def g(*a):
        with np.errstate(all='ignore'):
            r = f(*[np.float64(x) if isinstance(x, (float, int, Fr)) else x for x in a])
        return float(r)
    return g


def _un(sym, nat):
    n = _nat(nat)

    def f(x):
        if isinstance(x, (SR, SB)):
            return sym(lift(x))
        if MODE.exact:
            return sym(lift(x))
        return n(x)
    return f


def _bin(sym, nat):
    n = _nat(nat)

    def f(x, y):
        if isinstance(x, (SR, SB)) or isinstance(y, (SR, SB)) or MODE.exact:
            return sym(lift(x), lift(y))
        return n(x, y)
    return f


def _sign(x):
    if x.sp:
        return NAN if x.sp == 'nan' else lift(1 if x.sp == '+inf' else -1)
    return lift(T._sgn(x))


def _max(a, b):
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    return a if compare('>=', a, b) else b


def _min(a, b):
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    return a if compare('<=', a, b) else b


def _fmax(a, b):
    if a.sp == 'nan':
        return b
    return a if b.sp == 'nan' else _max(a, b)


def _fmin(a, b):
    if a.sp == 'nan':
        return b
    return a if b.sp == 'nan' else _min(a, b)


def _mod(a, b):
    if a.sp or b.sp:
        if a.sp or b.sp == 'nan':
            return NAN
        return a if (b.sp == '+inf') == (T._sgn(a) >= 0) else b
    if not b.is_const() or b.const() == 0:
        if compare('==', b, lift(0)):
            return NAN
    return a - b * T.sfloor(a / b)


def _fmod(a, b):
    q = a / b
    if q.sp:
        return NAN
    t = T.sfloor(q) if compare('>=', q, lift(0)) else -T.sfloor(-q)
    return a - b * t


def _hypot(a, b):
    return T.ssqrt(a * a + b * b)


def _tan(x):
    c, s = T.strig(x)
    return s / c


def _rint(x):
    return x if x.sp else lift(round(x))


def _fl(x):
    return x if x.sp else T.sfloor(x)


def _ce(x):
    return x if x.sp else -T.sfloor(-x)


def _tr(x):
    return x if x.sp else lift(int(x))


def _p180(x):
    return x * T.PI / 180


def _i180(x):
    return x * 180 / T.PI


def _slog2(x):
    return T.slog(x) / T.slog(lift(2))


UN = {
    'sqrt': (T.ssqrt, np.sqrt), 'cos': (lambda x: T.strig(x)[0], np.cos),
    'sin': (lambda x: T.strig(x)[1], np.sin), 'tan': (_tan, np.tan),
    'arccos': (T.sacos, np.arccos), 'arcsin': (T.sasin, np.arcsin),
    'arctan': (T.satan, np.arctan), 'exp': (T.sexp, np.exp), 'log': (T.slog, np.log),
    'log10': (T.slog10, np.log10), 'log2': (_slog2, np.log2), 'tanh': (T.stanh, np.tanh),
    'expm1': (lambda x: T.sexp(x) - 1, np.expm1), 'log1p': (lambda x: T.slog(x + 1), np.log1p),
    'deg2rad': (_p180, np.deg2rad), 'rad2deg': (_i180, np.rad2deg),
    'radians': (_p180, np.radians), 'degrees': (_i180, np.degrees),
    'floor': (_fl, np.floor), 'ceil': (_ce, np.ceil), 'trunc': (_tr, np.trunc),
    'rint': (_rint, np.rint), 'absolute': (abs, np.absolute), 'fabs': (abs, np.fabs),
    'sign': (_sign, np.sign), 'square': (lambda x: x * x, np.square),
    'reciprocal': (lambda x: 1 / x, np.reciprocal),
}
BIN = {
    'arctan2': (T.satan2, np.arctan2), 'hypot': (_hypot, np.hypot),
    'power': (T.spow, np.power), 'float_power': (T.spow, np.power),
    'divide': (lambda a, b: a / b, np.divide), 'true_divide': (lambda a, b: a / b, np.divide),
    'floor_divide': (lambda a, b: _fl(a / b), np.floor_divide),
    'remainder': (_mod, np.remainder), 'mod': (_mod, np.remainder),
    'fmod': (_fmod, np.fmod),
    'maximum': (_max, np.maximum), 'minimum': (_min, np.minimum),
    'fmax': (_fmax, np.fmax), 'fmin': (_fmin, np.fmin),
}
# functions that turn native numbers into exact terms in exact mode
LIFTED = {'sqrt', 'cos', 'sin', 'tan', 'arccos', 'arcsin', 'arctan', 'exp', 'log', 'log10',
          'log2', 'tanh', 'expm1', 'log1p', 'deg2rad', 'rad2deg', 'radians', 'degrees',
          'arctan2', 'hypot', 'divide', 'true_divide', 'power', 'float_power', 'reciprocal'}
PRED = {
    'isnan': (lambda x: x.sp == 'nan' if isinstance(x, SR) else x != x),
    'isinf': (lambda x: x.sp in ('+inf', '-inf') if isinstance(x, SR) else math.isinf(x)),
    'isfinite': (lambda x: not x.sp if isinstance(x, SR) else math.isfinite(x)),
    'signbit': (lambda x: bool(x < 0)),
}
LOGIC = {'logical_and', 'logical_or', 'logical_not', 'logical_xor'}
BITS = {'bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'}
PY = {k: np.frompyfunc(_un(*v), 1, 1) for k, v in UN.items()}
PY.update({k: np.frompyfunc(_bin(*v), 2, 1) for k, v in BIN.items()})


def _add(a, b):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return lift(a) + lift(b) if isinstance(a, SR) or isinstance(b, SR) else a + b
    return a + b


def _scalar(r):
    if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
        return r.item()
    return r


def _ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
    ins = [raw(x) for x in inputs]
    where = kw.get('where', True)
    if where is not True:
        kw['where'] = where = tobool(where)
    kw.pop('dtype', None) if name not in BITS else None
    allsc = method == '__call__' and all(not isinstance(x, np.ndarray) or x.ndim == 0 for x in ins)
    if name in LOGIC:
        ins = [tobool(x) for x in ins]
        r = getattr(ufunc, method)(*ins, **kw)
    elif name in BITS and any(isinstance(x, np.ndarray) and x.dtype == object for x in ins):
        ins = [tobool(x) if getattr(x, 'dtype', None) == object else x for x in ins]
        r = getattr(ufunc, method)(*ins, **kw)
    elif name in PRED and method == '__call__':
        x = ins[0]
        r = np.empty(x.shape, bool)
        for i in np.ndindex(*x.shape):
            r[i] = PRED[name](x[i])
        if r.ndim == 0:
            r = bool(r)
    elif name in PY and method in ('__call__', 'reduce', 'accumulate', 'outer'):
        f = PY[name]
        if method == '__call__' and where is not True:
            sel = np.broadcast_arrays(*([x for x in ins] + [where]))
            r = np.empty(sel[-1].shape, object)
            base = np.asarray(out) if out is not None else None
            for i in np.ndindex(*r.shape):
                if sel[-1][i]:
                    r[i] = f(*[s[i] for s in sel[:-1]])
                else:
                    r[i] = base[i] if base is not None else float('nan')
        elif method == 'reduce':
            r = _reduce(f, name, ins[0], kw)
        else:
            kw.pop('where', None)
            r = getattr(f, method)(*ins, **kw)
    elif method == 'reduce':
        if where is not True:
            x = np.where(where, ins[0], {'add': 0, 'multiply': 1}[name])
            kw.pop('where')
            ins = [x] + ins[1:]
        r = getattr(ufunc, method)(*ins, **kw)
    elif method == 'at':
        raise Unsupported('ufunc.at')
    else:
        if name in ('add', 'subtract', 'multiply', 'negative', 'positive'):
            kw.pop('casting', None)
        try:
            r = getattr(ufunc, method)(*ins, **kw)
        except TypeError:
            raise
    if out is not None:
        if isinstance(out, np.ndarray) and out.dtype != object:
            rr = np.asarray(r)
            if rr.dtype == object:
                if out.dtype.kind in 'iu':
                    raise TypeError(f"Cannot cast ufunc '{name}' output from dtype('float64') "
                                    f"to dtype('{out.dtype}') with casting rule 'same_kind'")
                if has_sym(rr):
                    raise Unsupported('symbolic result written to a native array')
        np.ndarray.__setitem__(out, Ellipsis, r)
        return out
    if allsc:
        return _scalar(r)
    if method == 'reduce':
        r = _scalar(r)
    return wrap(r)


def _reduce(f, name, x, kw):
    axis = kw.get('axis', 0)
    keep = kw.get('keepdims', False)
    x = np.asarray(x)
    if axis is None or (isinstance(axis, tuple) and len(axis) == x.ndim):
        shp = (1,) * x.ndim
        r = f.reduce(x.ravel()) if x.size else _empty_red(name)
        if keep:
            a = np.empty(shp, object)
            a[...] = r
            return a
        return r
    if isinstance(axis, tuple):
        for a in sorted((a % x.ndim for a in axis), reverse=True):
            x = f.reduce(x, axis=a, keepdims=keep)
        return x
    if x.shape[axis] == 0:
        return _empty_red(name)
    return f.reduce(x, axis=axis, keepdims=keep)


def _empty_red(name):
    raise ValueError(f"zero-size array to reduction operation {name} which has no identity")


# SR participates in ufuncs on its own
def _sr_ufunc(self, ufunc, method, *inputs, **kw):
    return _ufunc(ufunc, method, inputs, kw)


SR.__array_ufunc__ = _sr_ufunc
SB.__array_ufunc__ = _sr_ufunc
_SR_ARR = {'ravel', 'reshape', 'astype', 'copy', 'T', 'flatten', 'squeeze', 'sum', 'max', 'min',
           'mean', 'any', 'all', 'tolist', 'clip', 'round', 'dot', 'repeat', 'transpose'}


def _sr_getattr(self, name):
    if name in _SR_ARR:
        if name in ('copy', 'tolist'):
            return lambda *a: self
        return getattr(raw(self).view(SymND), name)
    raise AttributeError(name)


SR.__getattr__ = _sr_getattr
SR.shape = ()
SR.ndim = 0
SR.size = 1
SR.dtype = np.dtype(object)


# ------------------------------------------------------------ numpy functions
def S_sum(a, axis=None, dtype=None, keepdims=False, **k):
    a = A(a)
    if a.dtype != object:
        return np.sum(a, axis=axis, keepdims=keepdims, dtype=dtype, **k)
    if not k and _count(a, axis) > 60:
        if axis is None and not keepdims:
            return T.ssum(raw(a).ravel())
        if isinstance(axis, int) and not keepdims:
            b = np.moveaxis(raw(a), axis, -1)
            out = np.empty(b.shape[:-1], object)
            for i in np.ndindex(*out.shape):
                out[i] = T.ssum(b[i])
            return wrap(out) if out.shape else out.item()
    if not a.size and axis is None and not keepdims:
        return T.lift(0)
    return np.add.reduce(a, axis=axis, keepdims=keepdims, **{x: y for x, y in k.items() if x == 'where'})


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        return int(np.prod([a.shape[i] for i in axis]))
    return a.shape[axis]


def S_mean(a, axis=None, keepdims=False, **k):
    a = A(a)
    if a.dtype != object:
        r = np.mean(a, axis=axis, keepdims=keepdims, **k)
        return lift(r) if MODE.exact and np.ndim(r) == 0 else r
    return S_sum(a, axis=axis, keepdims=keepdims) / _count(a, axis)


def S_max(a, axis=None, keepdims=False, **k):
    a = A(a)
    if a.dtype != object:
        return np.max(a, axis=axis, keepdims=keepdims, **k)
    return np.maximum.reduce(a, axis=axis, keepdims=keepdims)


def S_min(a, axis=None, keepdims=False, **k):
    a = A(a)
    if a.dtype != object:
        return np.min(a, axis=axis, keepdims=keepdims, **k)
    return np.minimum.reduce(a, axis=axis, keepdims=keepdims)


def S_var(a, axis=None, ddof=0, **k):
    a = A(a)
    m = S_mean(a, axis=axis, keepdims=True)
    d = a - m
    return S_sum(d * d, axis=axis) / (_count(a, axis) - ddof)


def S_std(a, axis=None, ddof=0, **k):
    return F.sqrt(S_var(a, axis, ddof))


def S_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = A(m)
    if not is_obj(m) and not MODE.exact:
        return np.cov(m, y, rowvar, bias, ddof, **k)
    if y is not None or k:
        raise Unsupported('cov')
    x = np.atleast_2d(m)
    if not rowvar and m.ndim > 1:
        x = x.T
    n = x.shape[1]
    d = ddof if ddof is not None else (0 if bias else 1)
    x = wrap(np.asarray(x).astype(object))
    c = x - S_mean(x, axis=1, keepdims=True)
    r = S_dot(c, c.T) / (n - d)
    return r.item() if r.size == 1 else r


def S_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = A(a)
    if weights is None:
        r = S_mean(a, axis=axis)
        return (r, None) if returned else r
    w = A(weights)
    if a.dtype != object and w.dtype != object:
        return np.average(a, axis=axis, weights=w, returned=returned)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.ndim == 1:
            if w.shape[0] != a.shape[axis]:
                raise ValueError("Length of weights not compatible with specified axis.")
            w = np.broadcast_to(w, (a.ndim - 1) * (1,) + w.shape).swapaxes(-1, axis)
    scl = S_sum(w + 0 * a, axis=axis) if w.shape != a.shape else S_sum(w, axis=axis)
    z = tobool(A(scl) == 0)
    if z.any():
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = S_sum(a * w, axis=axis) / scl
    return (r, scl) if returned else r


def S_dot(a, b):
    a, b = A(a), A(b)
    if a.dtype != object and b.dtype != object:
        return np.matmul(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    r = np.matmul(raw(a).astype(object), raw(b).astype(object))
    return wrap(r) if isinstance(r, np.ndarray) else r


def S_einsum(sub, *ops, **k):
    ops = [A(o) for o in ops]
    if all(o.dtype != object for o in ops):
        return np.einsum(sub, *ops, **k)
    # small pure-python contraction
    sub = sub.replace(' ', '')
    if '->' in sub:
        lhs, rhs = sub.split('->')
    else:
        lhs = sub
        letters = lhs.replace(',', '')
        rhs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    terms = lhs.split(',')
    if '...' in sub:
        # expand the ellipsis into spare letters
        spare = [c for c in 'ABCDEFGHIJ' if c not in sub]
        n = max(o.ndim - len(t.replace('...', '')) for t, o in zip(terms, ops) if '...' in t)
        terms = [t.replace('...', ''.join(spare[n - (o.ndim - len(t.replace('...', ''))):n]) if '...' in t else t)
                 for t, o in zip(terms, ops)]
        rhs = rhs.replace('...', ''.join(spare[:n]))
    dim = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match operand dimensions")
        for c, s in zip(t, o.shape):
            if dim.get(c, 1) != 1 and s != 1 and dim[c] != s:
                raise ValueError("operands could not be broadcast together with remapped shapes")
            dim[c] = s if dim.get(c, 1) == 1 else dim[c]
    sumc = [c for c in dim if c not in rhs]
    out = np.empty([dim[c] for c in rhs], object)
    rops = [raw(o) for o in ops]
    for oi in np.ndindex(*out.shape):
        ix = dict(zip(rhs, oi))
        tot = 0
        for si in itertools.product(*[range(dim[c]) for c in sumc]):
            ix.update(zip(sumc, si))
            p = 1
            for t, o in zip(terms, rops):
                v = o[tuple(ix[c] if s != 1 else 0 for c, s in zip(t, o.shape))]
                if not isinstance(v, SR) and v == 0:
                    p = 0
                    if not any(_special(q) for q in ()):
                        break
                p = p * v if not (isinstance(p, int) and p == 1) else v
            tot = tot + p if not (isinstance(tot, int) and tot == 0) else p
        out[oi] = tot
    if out.ndim == 0:
        return out.item()
    return wrap(out)


def _special(v):
    return isinstance(v, SR) and v.sp


def S_clip(a, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None, **k):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    lo = min if lo is None else lo
    hi = max if hi is None else hi
    if not is_obj(a) and not is_obj(lo) and not is_obj(hi):
        return np.clip(a, lo, hi, **k)
    r = A(a)
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


def _isclose1(a, b, rtol, atol, eqnan):
    a, b = lift(a), lift(b)
    if a.sp or b.sp:
        if a.sp == 'nan' or b.sp == 'nan':
            return bool(eqnan and a.sp == b.sp)
        return a.sp == b.sp
    d = a - b
    lim = atol + rtol * abs(b)
    if d.is_const() and not d.t:
        return True
    return bool(compare('<=', abs(d), lim))


def S_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not is_obj(a) and not is_obj(b):
        return np.isclose(a, b, rtol, atol, equal_nan)
    a, b = np.broadcast_arrays(raw(A(a)), raw(A(b)))
    out = np.empty(a.shape, bool)
    rt, at = lift(rtol), lift(atol)
    for i in np.ndindex(*a.shape):
        out[i] = _isclose1(a[i], b[i], rt, at, equal_nan)
    return bool(out) if out.ndim == 0 else out


def S_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(S_all(S_isclose(a, b, rtol, atol, equal_nan)))


def S_norm(x, ord=None, axis=None, keepdims=False):
    x = A(x)
    if x.dtype != object and not MODE.exact:
        return np.linalg.norm(x, ord, axis, keepdims)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm order')
    return F.sqrt(S_sum(x * x, axis=axis, keepdims=keepdims))


def _lt(a, b):
    """sort order: nan last"""
    if _isn(a):
        return False
    if _isn(b):
        return True
    return bool(a < b)


def _isn(a):
    return (a.sp == 'nan') if isinstance(a, SR) else a != a


def _argsort1(v):
    """stable insertion sort with binary search"""
    out = []
    for i, x in enumerate(v):
        lo, hi = 0, len(out)
        while lo < hi:
            mid = (lo + hi) // 2
            if _lt(x, v[out[mid]]):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, i)
    return out


def S_argsort(a, axis=-1, kind=None, **k):
    a = A(a)
    if a.dtype != object:
        return np.argsort(a, axis=axis, kind=kind, **k)
    if axis is None:
        a = a.ravel()
        axis = -1
    return np.apply_along_axis(lambda v: np.array(_argsort1(v), int), axis, raw(a)) \
        if a.size else np.zeros(a.shape, int)


def S_sort(a, axis=-1, **k):
    a = A(a)
    if a.dtype != object:
        return np.sort(a, axis=axis)
    if axis is None:
        a = a.ravel()
        axis = -1
    return wrap(np.take_along_axis(raw(a), S_argsort(a, axis), axis))


def S_argmax(a, axis=None, **k):
    a = A(a)
    if a.dtype != object:
        return np.argmax(a, axis=axis, **k)

    def f(v):
        best = 0
        for i in range(1, len(v)):
            if _isn(v[best]):
                break
            if _isn(v[i]) or bool(v[i] > v[best]):
                best = i
        return best
    if axis is None:
        return f(raw(a).ravel())
    return np.apply_along_axis(f, axis, raw(a))


def S_argmin(a, axis=None, **k):
    a = A(a)
    if a.dtype != object:
        return np.argmin(a, axis=axis, **k)
    return S_argmax(-a, axis)


def S_searchsorted(a, v, side='left', sorter=None):
    a, v = A(a), A(v)
    if a.dtype != object and v.dtype != object:
        return np.searchsorted(a, v, side=side, sorter=sorter)
    aa = raw(a)
    if sorter is not None:
        aa = aa[sorter]
    vv = raw(v)
    out = np.empty(vv.shape, int)
    for i in np.ndindex(*vv.shape):
        x = vv[i]
        lo, hi = 0, len(aa)
        while lo < hi:
            mid = (lo + hi) // 2
            go = _lt(aa[mid], x) if side == 'left' else not _lt(x, aa[mid])
            if go:
                lo = mid + 1
            else:
                hi = mid
        out[i] = lo
    return out[()] if out.ndim == 0 else out


def S_digitize(x, bins, right=False):
    return S_searchsorted(bins, x, side='left' if right else 'right')


def S_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = A(a)
    if a.dtype != object:
        return np.unique(a, return_index, return_inverse, return_counts, axis=axis, **k)
    if axis is not None or return_inverse or return_counts:
        raise Unsupported('unique')
    v = raw(a).ravel()
    idx = _argsort1(v)
    keep = []
    for i in idx:
        if not keep or not bool(v[i] == v[keep[-1]]):
            keep.append(i)
    r = wrap(v[keep])
    return (r, np.array(keep)) if return_index else r


def S_quantile(a, q, axis=None, method='linear', **k):
    a = A(a)
    if a.dtype != object and not is_obj(q):
        return np.quantile(a, q, axis=axis, method=method, **k)
    if axis is not None or method != 'linear':
        raise Unsupported('quantile')
    s = raw(S_sort(a, axis=None))
    n = len(s)

    def f(qq):
        h = lift(qq) * (n - 1)
        lo = T.concretise_floor(h)
        lo = min(max(lo, 0), n - 1)
        hi = min(lo + 1, n - 1)
        return s[lo] + (s[hi] - s[lo]) * (h - lo)
    qa = np.asarray(q, object)
    if qa.ndim == 0:
        return f(qa.item())
    r = np.empty(qa.shape, object)
    for i in np.ndindex(*qa.shape):
        r[i] = f(qa[i])
    return wrap(r)


def S_percentile(a, q, **k):
    return S_quantile(a, A(q) / 100, **k)


def S_median(a, axis=None, **k):
    a = A(a)
    if a.dtype != object:
        return np.median(a, axis=axis, **k)
    if axis is not None:
        return wrap(np.apply_along_axis(lambda v: S_quantile(v, .5), axis, raw(a)))
    return S_quantile(a, .5)


def S_interp(x, xp, fp, left=None, right=None, period=None):
    if not is_obj(x) and not is_obj(xp) and not is_obj(fp):
        return np.interp(x, xp, fp, left, right, period)
    if period is not None:
        raise Unsupported('interp period')
    xp, fp = raw(A(xp)), raw(A(fp))
    xs = raw(A(x))
    out = np.empty(xs.shape, object)
    for i in np.ndindex(*xs.shape):
        v = xs[i]
        j = int(S_searchsorted(wrap(xp), lift(v), side='right'))
        if j == 0:
            r = fp[0] if left is None else left
        elif j == len(xp):
            r = fp[-1]
            if right is not None and bool(lift(v) > lift(xp[-1])):
                r = right
        else:
            r = fp[j - 1] + (fp[j] - fp[j - 1]) * (lift(v) - lift(xp[j - 1])) / (lift(xp[j]) - lift(xp[j - 1]))
        out[i] = r
    return out.item() if out.ndim == 0 else wrap(out)


def S_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not is_obj(x):
        return np.nan_to_num(x, copy, nan, posinf, neginf)
    x = A(x)

    def f(v):
        if isinstance(v, SR) and v.sp or not isinstance(v, SR) and not math.isfinite(v):
            v = lift(v)
            if v.sp == 'nan':
                return nan
            if v.sp == '+inf':
                return np.finfo(float).max if posinf is None else posinf
            return np.finfo(float).min if neginf is None else neginf
        return v
    r = np.empty(x.shape, object)
    for i in np.ndindex(*x.shape):
        r[i] = f(raw(x)[i])
    if not copy:
        x[...] = r
        return x
    return r.item() if r.ndim == 0 else wrap(r)


def _isf(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in 'fO'
    except TypeError:
        return False


def _alloc(shape, v):
    a = np.empty(shape, object)
    a[...] = v
    return a.view(SymND)


def S_zeros(shape, dtype=None, **k):
    return _alloc(shape, lift(0) if MODE.exact else 0.0) if _isf(dtype) else np.zeros(shape, dtype, **k)


def S_atleast_2d(*a):
    r = np.atleast_2d(*[A(x) if isinstance(x, (list, tuple)) else x for x in a])
    if len(a) == 1:
        # fixed numbers of an exact computation: in-place operations may make them terms
        if MODE.exact and r.dtype.kind == 'f' and r.size <= 400:
            return wrap(r.astype(object))
        return wrap(r)
    return [wrap(x) for x in r]


def S_ones(shape, dtype=None, **k):
    return _alloc(shape, lift(1) if MODE.exact else 1.0) if _isf(dtype) else np.ones(shape, dtype, **k)


def S_empty(shape, dtype=None, **k):
    return _alloc(shape, NAN if MODE.exact else float('nan')) if _isf(dtype) else np.zeros(shape, dtype, **k)


def S_full(shape, v, dtype=None, **k):
    if dtype is None:
        v0 = v
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v0 = v.item()
        if isinstance(v0, (bool, np.bool_, int, np.integer, str)):
            return np.full(shape, v0)
        if isinstance(v0, SB):
            return np.full(shape, bool(v0))
        vv = A(v)
        if vv.dtype.kind in 'bi':
            return np.full(shape, vv)
        return _alloc(shape, raw(v))
    if _isf(dtype):
        return _alloc(shape, raw(v))
    return np.full(shape, v, dtype, **k)


def _like(f):
    def g(a, *args, dtype=None, shape=None, **k):
        a = A(a)
        dt = dtype if dtype is not None else (float if a.dtype == object else a.dtype)
        return f(a.shape if shape is None else shape, *args, dtype=dt)
    return g


def S_eye(n, m=None, k=0, dtype=float):
    r = np.eye(n, m, k)
    return wrap(r.astype(object)) if _isf(dtype) else r.astype(dtype)


def _mkarray(fn):
    def g(x, dtype=None, *a, **k):
        if isinstance(x, SymND) and dtype is None:
            if fn is np.array and k.get('copy', True):
                r = x.copy()
                nd = k.get('ndmin', 0)
                while r.ndim < nd:
                    r = r[None]
                return r
            return x
        kk = {q: v for q, v in k.items() if q in ('copy', 'ndmin')}
        if fn is not np.array:
            kk = {}
        if dtype is not None and not is_obj(x):
            return fn(x, dtype, *a, **k)
        if dtype is None:
            return wrap(fn(x, *a, **k))
        r = wrap(fn(x, object, **kk))
        if _isf(dtype):
            if np.dtype(dtype).kind == 'f':
                r = r.astype(dtype) if np.dtype(dtype).itemsize < 8 else r
            return r
        return r.astype(dtype)
    return g


def S_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not is_obj(a) and not is_obj(b) and not (MODE.exact and np.ndim(a) == 0 and np.ndim(b) == 0):
        return np.linspace(a, b, num, endpoint, retstep, dtype, axis)
    a, b = (A(a), A(b)) if np.ndim(a) or np.ndim(b) else (lift(a), lift(b))
    d = (num - 1) if endpoint else num
    st = (b - a) / d if d else NAN
    seq = [a + st * i for i in range(num)] if d else [a] * num
    if num and endpoint and num > 1:
        seq[-1] = b + 0 * a if not isinstance(b, SR) else b
    r = wrap(np.stack([np.asarray(raw(s)) for s in seq])) if num else _alloc((0,), 0)
    if axis not in (0,) and r.ndim > 1:
        r = np.moveaxis(r, 0, axis)
    return (r, st) if retstep else r


def S_arange(*a, **k):
    if not any(isinstance(x, SR) for x in a):
        return np.arange(*a, **k)
    st, sp, dx = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    st, sp, dx = lift(st), lift(sp), lift(dx)
    n = max(0, -T.concretise_floor(-((sp - st) / dx)))
    r = np.empty(n, object)
    for i in range(n):
        r[i] = st + dx * i
    return wrap(r)


def S_where(c, *xy):
    c = tobool(c)
    if not xy:
        return np.nonzero(c)
    x, y = [raw(v) if isinstance(v, (SR, SymND)) else v for v in xy]
    if any(is_obj(v) for v in xy):
        x = np.asarray(x, object) if not isinstance(x, np.ndarray) else x.astype(object)
        y = np.asarray(y, object) if not isinstance(y, np.ndarray) else y.astype(object)
    r = np.where(c, x, y)
    return wrap(r)


def S_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = S_where(c, v, r)
    return r


def _lazy(a, stop):
    """does some element equal stop (known elements first)"""
    later = []
    for x in a:
        if isinstance(x, (bool, np.bool_, int, float, np.number)):
            if bool(x) == stop:
                return True
        else:
            later.append(x)
    return any(bool(x) == stop for x in later)


def _anyall(a, axis, keepdims, stop):
    a = raw(a)
    if not isinstance(a, np.ndarray):
        a = np.asarray(a)
    if a.dtype != object or isinstance(axis, tuple):
        a = tobool(a)
        return (np.any if stop else np.all)(a, axis=axis, keepdims=keepdims)
    if axis is None:
        r = _lazy(a.ravel(), stop) == stop
        return np.full((1,) * a.ndim, r) if keepdims else np.bool_(r)
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], bool)
    for i in np.ndindex(*out.shape):
        out[i] = _lazy(m[i], stop) == stop
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if out.ndim else np.bool_(out[()])


def S_all(a, axis=None, keepdims=False, **k):
    return _anyall(a, axis, keepdims, False)


def S_any(a, axis=None, keepdims=False, **k):
    return _anyall(a, axis, keepdims, True)


def S_nonzero(a):
    return np.nonzero(tobool(a))


def S_argwhere(a):
    return np.argwhere(tobool(a))


def S_flatnonzero(a):
    return np.flatnonzero(tobool(a))


def S_count_nonzero(a, axis=None, **k):
    return np.count_nonzero(tobool(a), axis=axis)


def S_array_equal(a, b, **k):
    a, b = A(a), A(b)
    return a.shape == b.shape and bool(S_all(a == b))


def S_round(a, decimals=0, **k):
    if not is_obj(a):
        return np.round(a, decimals)
    r = A(a).round(decimals)
    return r.item() if r.ndim == 0 else r


def S_diff(a, n=1, axis=-1, **k):
    a = A(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def S_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = A(y)
    d = S_diff(A(x)) if x is not None else dx
    return S_sum(d * (y[..., 1:] + y[..., :-1]) / 2, axis=-1)


def S_float(x=0.0):
    if isinstance(x, SR):
        return x
    if isinstance(x, SymND) and x.size == 1:
        return x.item()
    return np.float64(x)


def S_roll(a, shift, axis=None):
    return wrap(np.roll(raw(A(a)), shift, axis))


def S_apply_along_axis(f, axis, arr, *a, **k):
    x = raw(A(arr))
    x = np.moveaxis(x, axis, -1)
    out = {}
    for ix in np.ndindex(*x.shape[:-1]):
        out[ix] = raw(A(f(wrap(x[ix].copy()), *a, **k)))
    first = next(iter(out.values()))
    res = np.empty(x.shape[:-1] + first.shape, first.dtype)
    for ix, v in out.items():
        if v.dtype == object and res.dtype != object:
            res = res.astype(object)
        res[ix] = v if v.ndim else v[()]
    nb, nr = len(x.shape) - 1, first.ndim
    # the result dimensions stand where the axis was
    axis = axis % x.ndim
    res = np.moveaxis(res, list(range(nb, nb + nr)), list(range(axis, axis + nr))) if nr else res
    return wrap(res)


class UFn:
    """callable stand-in for a ufunc"""

    def __init__(self, uf, name):
        self.uf = uf
        self.__name__ = name
        self.lift = name in LIFTED

    def __call__(self, *a, **k):
        if any(is_obj(x) for x in a):
            a = [A(x) if isinstance(x, (list, tuple)) else x for x in a]
            return self.uf(*a, **k)
        if self.lift and MODE.exact and not k:
            if all(isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool)
                   for x in a):
                return self.uf(*[lift(x) for x in a])
            arrs = [np.asarray(x) for x in a]
            if any(x.dtype.kind == 'f' for x in arrs) or self.__name__ not in ('power', 'divide', 'true_divide'):
                if sum(x.size for x in arrs) <= 400:
                    return self.uf(*[wrap(np.asarray(x).astype(object)) for x in arrs])
        return self.uf(*a, **k)

    def __getattr__(self, n):
        return getattr(self.uf, n)


def generic(f):
    @functools.wraps(f)
    def g(*a, **k):
        return wrap(f(*a, **k))
    return g


class Facade(types.ModuleType):
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['__path__'] = []
        self.__dict__['__file__'] = getattr(real, '__file__', None)
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        if n.startswith('__'):
            return getattr(self._real, n)
        t = self._table
        if n in t:
            v = t[n]
            return v() if isinstance(v, Dyn) else v
        c = self._cache
        if n in c:
            return c[n]
        v = getattr(self._real, n)
        if isinstance(v, np.ufunc):
            v = UFn(v, n if n in PY or n in LOGIC else v.__name__)
        elif isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
            pass
        elif n in ('seterr', 'geterr', 'errstate', 'dtype', 'iinfo', 'finfo', 'get_printoptions',
                   'set_printoptions', 'printoptions'):
            pass
        else:
            v = generic(v)
        c[n] = v
        return v


class Dyn:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


class SymRng:
    """random generator whose draws are free symbolic values"""

    def __init__(self, *a):
        pass

    def _draw(self, size, lo, hi):
        eng = CTX.eng
        if size is None:
            size = ()
        elif isinstance(size, (int, np.integer)):
            size = (int(size),)
        out = np.empty(tuple(size), object)
        lo, hi = lift(lo), lift(hi)
        for i in np.ndindex(*out.shape):
            eng.ucount += 1
            u = eng.real(f'rng{eng.ucount}', 0, 1)
            eng.assume(compare('<', u, lift(1)))
            out[i] = lo + (hi - lo) * u
        return out.item() if out.ndim == 0 else wrap(out)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size, low, high)

    def random(self, size=None, **k):
        return self._draw(size, 0, 1)


numpy_table = {
    'pi': Dyn(lambda: T.PI if MODE.exact else math.pi),
    'atleast_2d': S_atleast_2d, 'sum': S_sum, 'mean': S_mean, 'max': S_max, 'amax': S_max, 'min': S_min, 'amin': S_min,
    'var': S_var, 'std': S_std, 'cov': S_cov, 'average': S_average, 'dot': S_dot,
    'matmul': S_dot, 'einsum': S_einsum, 'clip': S_clip, 'isclose': S_isclose,
    'allclose': S_allclose, 'argsort': S_argsort, 'sort': S_sort, 'argmax': S_argmax,
    'argmin': S_argmin, 'searchsorted': S_searchsorted, 'digitize': S_digitize,
    'unique': S_unique, 'quantile': S_quantile, 'percentile': S_percentile,
    'median': S_median, 'interp': S_interp, 'nan_to_num': S_nan_to_num, 'zeros': S_zeros,
    'ones': S_ones, 'empty': S_empty, 'full': S_full, 'zeros_like': _like(S_zeros),
    'ones_like': _like(S_ones), 'empty_like': _like(S_empty), 'full_like': _like(S_full),
    'eye': S_eye, 'identity': S_eye, 'array': _mkarray(np.array), 'asarray': _mkarray(np.asarray),
    'asanyarray': _mkarray(np.asarray), 'ascontiguousarray': _mkarray(np.asarray),
    'linspace': S_linspace, 'arange': S_arange, 'where': S_where, 'select': S_select,
    'frombuffer': S_frombuffer, 'all': S_all, 'any': S_any, 'nonzero': S_nonzero, 'argwhere': S_argwhere,
    'flatnonzero': S_flatnonzero, 'count_nonzero': S_count_nonzero,
    'array_equal': S_array_equal, 'round': S_round, 'around': S_round, 'diff': S_diff,
    'trapezoid': S_trapezoid, 'trapz': S_trapezoid, 'float64': np.float64, 'roll': S_roll, 'apply_along_axis': S_apply_along_axis,
}

F = Facade('numpy', np, numpy_table)
linalg = Facade('numpy.linalg', np.linalg, {'norm': S_norm})
random_ = Facade('numpy.random', np.random, {'default_rng': SymRng})
numpy_table['linalg'] = linalg
numpy_table['random'] = random_


# ------------------------------------------------------------------ math
def _m(name):
    v = PY[name]
    nat = getattr(math, {'arccos': 'acos', 'arcsin': 'asin', 'arctan': 'atan', 'arctan2': 'atan2',
                         'absolute': 'fabs'}.get(name, name), None)

    def g(*a):
        if any(isinstance(x, SymND) for x in a):
            a = [x.item() if isinstance(x, SymND) else x for x in a]
        if any(isinstance(x, SR) for x in a) or MODE.exact:
            return v(*a)
        return nat(*a)
    return g


math_table = {'pi': Dyn(lambda: T.PI if MODE.exact else math.pi)}
for mn, un in (('sqrt', 'sqrt'), ('cos', 'cos'), ('sin', 'sin'), ('tan', 'tan'), ('acos', 'arccos'),
               ('asin', 'arcsin'), ('atan', 'arctan'), ('atan2', 'arctan2'), ('exp', 'exp'),
               ('log10', 'log10'), ('tanh', 'tanh'), ('hypot', 'hypot'), ('fabs', 'absolute'),
               ('radians', 'radians'), ('degrees', 'degrees'), ('pow', 'power'), ('fmod', 'fmod')):
    math_table[mn] = _m(un)
math_table['log'] = lambda x, b=None: PY['log'](x) if b is None else PY['log'](x) / PY['log'](b)
math_table['floor'] = lambda x: math.floor(x)
math_table['ceil'] = lambda x: math.ceil(x)
math_table['isnan'] = lambda x: x.sp == 'nan' if isinstance(x, SR) else math.isnan(x)
math_table['isinf'] = lambda x: x.sp in ('+inf', '-inf') if isinstance(x, SR) else math.isinf(x)
math_table['isfinite'] = lambda x: not x.sp if isinstance(x, SR) else math.isfinite(x)
math_table['isclose'] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
    abs(lift(a) - lift(b)) <= _max(lift(rel_tol) * _max(abs(lift(a)), abs(lift(b))), lift(abs_tol)))
math_table['fsum'] = lambda xs: functools.reduce(lambda a, b: a + b, xs, 0)
M = Facade('math', math, math_table)


# ------------------------------------------------------------------ scipy
import scipy                                            # noqa: E402
import scipy.interpolate                                # noqa: E402
import scipy.ndimage                                    # noqa: E402
import scipy.spatial                                    # noqa: E402
import scipy.stats                                      # noqa: E402

_IMP = {}


def linear_filter(f, name):
    """filters are linear in the image: out = sum_i x_i * f(e_i)"""
    def g(x, *a, **k):
        w = a[0] if a else k.get('weights')
        if name in ('convolve', 'correlate', 'convolve1d', 'correlate1d') and is_obj(w) and has_sym(raw(w)):
            # linear in the weights as well
            rest = {n: v for n, v in k.items() if n != 'weights'}
            out = 0
            for i in np.ndindex(*w.shape):
                c = raw(w)[i]
                if isinstance(c, SR) and not c.sp and not c.t:
                    continue
                e = np.zeros(w.shape)
                e[i] = 1.
                out = out + c * wrap(np.asarray(g(x, e, *a[1:], **rest)).astype(object))
            return out
        if not is_obj(x):
            r = f(x, *a, **k)
            return r
        a = [np.asarray(raw(v)).astype(float) if isinstance(v, SymND) else v for v in a]
        a = [_plain(v) for v in a]
        k = {n: _plain(v) for n, v in k.items()}
        xr = raw(x)
        out = np.empty(xr.shape, object)
        nat = np.zeros(xr.shape)
        syms = []
        for i in np.ndindex(*xr.shape):
            v = xr[i]
            if isinstance(v, SR):
                if v.sp:
                    raise Unsupported('filter of special values')
                if v.is_const():
                    nat[i] = float(v.const())
                else:
                    syms.append(i)
            else:
                nat[i] = v
        base = f(nat, *a, **k)
        out = np.empty(base.shape, object)
        for j in np.ndindex(*base.shape):
            out[j] = float(base[j])
        for i in syms:
            key = (name, xr.shape, i, repr(a), repr(sorted(k.items(), key=str)))
            h = _IMP.get(key)
            if h is None:
                e = np.zeros(xr.shape)
                e[i] = 1.0
                h = f(e, *a, **k)
                h = [(j, snap(h[j])) for j in zip(*np.nonzero(h))]
                _IMP[key] = h
            v = xr[i]
            for j, c in h:
                out[j] = out[j] + c * v
        return wrap(out)
    return g


def snap(c):
    """rational weights (uniform filters) are recognised exactly"""
    q = Fr(float(c)).limit_denominator(5000)
    if abs(float(q) - c) < 1e-15 * abs(c) * 4:
        return q
    return float(c)


def _plain(v):
    if isinstance(v, SR):
        return v.float()
    if isinstance(v, SymND):
        return np.array([_plain(e) for e in v.ravel()]).reshape(v.shape)
    if isinstance(v, (tuple, list)):
        return type(v)(_plain(e) for e in v)
    return v


ndimage_table = {n: linear_filter(getattr(scipy.ndimage, n), n)
                 for n in ('gaussian_filter', 'uniform_filter', 'convolve', 'gaussian_filter1d',
                           'uniform_filter1d', 'convolve1d', 'correlate', 'correlate1d')}
ndimage = Facade('scipy.ndimage', scipy.ndimage, ndimage_table)


class cKDTree:
    """exact neighbour queries by pairwise distance"""

    def __init__(self, data, *a, **k):
        self.data = A(data)
        if self.data.dtype == object and not isinstance(self.data, SymND):
            self.data = self.data.view(SymND)
        self.n, self.m = self.data.shape

    def _le(self, a, b, r, p=2):
        if p != 2:
            raise Unsupported('Minkowski norm')
        d2 = lift(0)
        for x, y in zip(raw(a), raw(b)):
            d = lift(x) - lift(y)
            d2 = d2 + d * d
        return bool(compare('<=', d2, lift(r) * lift(r)))

    def query_ball_tree(self, other, r, p=2.0, eps=0):
        memo = {}
        out = []
        same = other is self
        for i in range(self.n):
            row = []
            for j in range(other.n):
                if same and i == j:
                    v = bool(compare('>=', lift(r), lift(0)))
                elif same and (j, i) in memo:
                    v = memo[j, i]
                else:
                    v = memo[i, j] = self._le(self.data[i], other.data[j], r, p)
                if v:
                    row.append(j)
            out.append(row)
        return out

    def query_pairs(self, r, p=2.0, eps=0, output_type='set'):
        s = {(i, j) for i in range(self.n) for j in range(i + 1, self.n)
             if self._le(self.data[i], self.data[j], r, p)}
        return np.array(sorted(s)).reshape(-1, 2) if output_type == 'ndarray' else s

    def query_ball_point(self, x, r, p=2.0, **k):
        x = A(x)
        if x.ndim == 1:
            return [j for j in range(self.n) if self._le(x, self.data[j], r, p)]
        out = np.empty(x.shape[:-1], object)
        for i in np.ndindex(*out.shape):
            out[i] = [j for j in range(self.n) if self._le(x[i], self.data[j], r, p)]
        return out


spatial = Facade('scipy.spatial', scipy.spatial, {'cKDTree': cKDTree, 'KDTree': cKDTree})


class norm_dist:
    def __init__(self, loc=0, scale=1):
        self.loc, self.scale = loc, scale

    def pdf(self, x):
        loc = self.loc
        if isinstance(loc, np.ndarray) and loc.size == 1 and loc.ndim:
            loc = loc.ravel()[0]
        sc = lift(self.scale if not isinstance(self.scale, np.ndarray) else self.scale.ravel()[0])

        def f(v):
            z = (lift(v) - lift(loc)) / sc
            if z.sp:
                return NAN if z.sp == 'nan' else lift(0)
            z2 = z * z / 2
            # double precision underflow of exp
            if bool(compare('>', z2, lift(745.2))):
                return lift(0)
            return T.sexp(-z2) / T.ssqrt(2 * T.PI) / sc
        x = A(x)
        r = np.empty(x.shape, object)
        for i in np.ndindex(*x.shape):
            r[i] = f(raw(x)[i])
        return r.item() if r.ndim == 0 else wrap(r)


class _norm:
    def __call__(self, loc=0, scale=1):
        if not is_obj(loc) and not is_obj(scale):
            return _Lazy(loc, scale)
        return norm_dist(loc, scale)

    def pdf(self, x, loc=0, scale=1):
        return self(loc, scale).pdf(x)

    def __getattr__(self, n):
        return getattr(scipy.stats.norm, n)


class _Lazy(norm_dist):
    def pdf(self, x):
        if is_obj(x):
            return norm_dist.pdf(self, x)
        return scipy.stats.norm(loc=self.loc, scale=self.scale).pdf(x)


stats = Facade('scipy.stats', scipy.stats, {'norm': _norm()})


class RegularGridInterpolator:
    """multi-linear interpolation on a concrete grid; values may be symbolic"""

    def __init__(self, points, values, method='linear', bounds_error=True, fill_value=math.nan, **k):
        if method not in ('linear', 'nearest'):
            raise Unsupported('interpolator method')
        self.method = method
        self.grid = [np.array([_plain(e) for e in raw(A(p)).ravel()], float) for p in points]
        self.values = A(values)
        self.be, self.fv = bounds_error, fill_value

    def __call__(self, xi, method=None):
        if isinstance(xi, tuple):
            xi = np.stack(np.broadcast_arrays(*[A(v) for v in xi]), axis=-1)
        xi = A(xi)
        if xi.dtype != object and self.values.dtype != object:
            return scipy.interpolate.RegularGridInterpolator(
                self.grid, self.values, method=self.method, bounds_error=self.be, fill_value=self.fv)(xi)
        nd = len(self.grid)
        if xi.ndim == 1:
            xi = xi.reshape(-1, nd) if nd > 1 or xi.size == 1 else xi.reshape(-1, 1)
        shp = xi.shape[:-1]
        x = raw(xi).reshape(-1, nd)
        out = []
        for row in x:
            lo, fr = [], []
            oob = False
            for d in range(nd):
                g = self.grid[d]
                v = lift(row[d])
                if v.sp == 'nan':
                    oob = 'nan'
                    lo.append(0), fr.append(v)
                    continue
                if bool(compare('<', v, lift(g[0]))) or bool(compare('>', v, lift(g[-1]))):
                    if self.be:
                        raise ValueError("One of the requested xi is out of bounds in dimension %d" % d)
                    oob = True
                j = int(S_searchsorted(g, v, side='right')) - 1
                j = min(max(j, 0), len(g) - 2)
                lo.append(j)
                fr.append((v - lift(g[j])) / lift(lift(g[j + 1]) - lift(g[j])))
            if oob and self.fv is not None:
                r = np.empty(self.values.shape[nd:], object)
                r[...] = lift(self.fv)
            elif self.method == 'nearest':
                r = self.values[tuple(lo[d] + (0 if bool(compare('<=', fr[d], lift(.5))) else 1) for d in range(nd))]
                r = r if not isinstance(r, (np.floating, float, np.integer)) else lift(r)
            else:
                r = 0
                for c in itertools.product((0, 1), repeat=nd):
                    w = lift(1)
                    for d in range(nd):
                        w = w * (fr[d] if c[d] else 1 - fr[d])
                    v = self.values[tuple(lo[d] + c[d] for d in range(nd))]
                    r = r + w * (v if not isinstance(v, (np.floating, float, np.integer)) else lift(v))
            out.append(raw(r) if isinstance(r, (SR, SymND)) else r)
        a = np.empty((len(out),) + self.values.shape[nd:], object)
        for i, v in enumerate(out):
            a[i] = v if not isinstance(v, np.ndarray) or v.ndim else v.item()
        return wrap(a.reshape(shp + self.values.shape[nd:]))


interpolate = Facade('scipy.interpolate', scipy.interpolate,
                     {'RegularGridInterpolator': RegularGridInterpolator})
SC = Facade('scipy', scipy, {'ndimage': ndimage, 'spatial': spatial, 'stats': stats,
                             'interpolate': interpolate})

MODULES = {'numpy': F, 'numpy.linalg': linalg, 'numpy.random': random_, 'math': M,
           'scipy': SC, 'scipy.ndimage': ndimage, 'scipy.spatial': spatial,
           'scipy.stats': stats, 'scipy.interpolate': interpolate}
