"""Symbolic environment for harnesses."""
import numpy as np

from . import facade as FC
from . import terms as T
from .api import BaseEnv, MISSING, Obl
from .facade import SymND, raw, wrap, A
from .terms import SR, SB, AND, OR, B, compare, lift
from fractions import Fraction as Fr


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, eng, ns):
        self.eng = eng
        self.ns = ns
        self.np = FC.F
        self.obls = []
        self.obs = {}
        self._patch = []

    @property
    def pi(self):
        import math
        return T.PI if FC.MODE.exact else math.pi

    def real(self, name, lo=None, hi=None):
        def q(x):
            return None if x is None else Fr(repr(x)) if isinstance(x, float) else Fr(x)
        return self.eng.real(name, q(lo), q(hi))

    def unit(self, *names):
        return self.eng.unit(list(names))

    def bound_dot(self, a, b):
        """lemma: the dot product of two unit vectors lies in [-1, 1].  Lagrange's
        identity 1 - (a.b)^2 = |a x b|^2 is checked by normal form first"""
        d = lift(a[0]) * b[0] + lift(a[1]) * b[1] + lift(a[2]) * b[2]
        c = [lift(a[i]) * b[j] - lift(a[j]) * b[i] for i, j in ((1, 2), (2, 0), (0, 1))]
        z = 1 - d * d - sum((x * x for x in c), lift(0))
        if z.is_const() and z.const() == 0:
            self.eng.assume(B(compare('<=', d, lift(1))))
            self.eng.assume(B(compare('>=', d, lift(-1))))
            self.eng.assume(B(compare('>=', 1 - d * d, lift(0))))

    def choice(self, name, options):
        return self.eng.choice(name, options)

    def arr(self, x, dtype=float):
        a = np.asarray(x, object) if not isinstance(x, SymND) else x.copy()
        if a is x:
            a = a.copy()
        if FC.MODE.exact:
            a = a.astype(object) if isinstance(a, np.ndarray) and not isinstance(a, SymND) else a
            b = raw(a)
            for i in np.ndindex(*b.shape):
                if not isinstance(b[i], SR):
                    b[i] = lift(b[i])
        return wrap(a)

    def float(self, x):
        """a number printed into a string"""
        return self.eng.tokens[x] if x in self.eng.tokens else lift(float(x))

    def num(self, x):
        return lift(x)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for e in raw(c).ravel():
                self.eng.assume(B(e))
        else:
            self.eng.assume(B(c))

    def check(self, label, cond):
        if isinstance(cond, np.ndarray):
            cond = AND(*[B(e) for e in raw(cond).ravel()]) if cond.size else True
        self.obls.append(Obl(label, B(cond)))

    def _sub(self, x):
        m = self.eng.arcsub
        return T.substitute(x, m) if m and not x.sp else x

    def _flat(self, a):
        a = A(a) if not isinstance(a, SR) else raw(a)
        return a

    def close(self, label, a, b, tol=1e-9, ctol=None, equal_nan=False):
        a, b = self._flat(a), self._flat(b)
        if a.shape != b.shape and a.size != b.size:
            self.obls.append(Obl(label + ' (shape)', B(False)))
            return
        t = lift(tol)
        big = lift(max(1e-4, 50 * tol))
        for k, (x, y) in enumerate(zip(raw(a).ravel(), raw(b).ravel())):
            x, y = lift(x), lift(y)
            if x.sp or y.sp:
                ok = x.sp == y.sp and (x.sp != 'nan' or equal_nan)
                if not ok:
                    self.obls.append(Obl(f'{label}[{k}]', B(False)))
                continue
            d = self._sub(x - y)
            g = AND(compare('<=', d, t), compare('>=', d, -t))
            self.obls.append(Obl(f'{label}[{k}]', B(g), OR(compare('>', d, big), compare('<', d, -big))))

    def le(self, label, a, b, slack=1e-9, cslack=None):
        a, b = np.broadcast_arrays(raw(self._flat(a)), raw(self._flat(b)))
        s = lift(slack)
        big = lift(max(1e-4, 50 * slack))
        for k, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
            x, y = lift(x), lift(y)
            if x.sp or y.sp:
                self.obls.append(Obl(f'{label}[{k}]', B(compare('<=', x, y))))
                continue
            self.obls.append(Obl(f'{label}[{k}]', B(compare('<=', self._sub(x - y), s)), compare('>', self._sub(x - y), big)))

    def same(self, label, a, b):
        a, b = A(a), A(b)
        if a.shape != b.shape:
            self.obls.append(Obl(label + ' (shape)', B(False)))
            return
        gs = []
        for x, y in zip(raw(a).ravel(), raw(b).ravel()):
            if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
                gs.append(B(x == y))
            else:
                gs.append(B(compare('==', lift(x), lift(y))))
        self.obls.append(Obl(label, AND(*gs) if gs else B(True)))

    def shape(self, label, a, shp):
        self.obls.append(Obl(label + ' (shape)', B(tuple(np.shape(a)) == tuple(shp))))

    def observe(self, label, v):
        self.obs[label] = [lift(x) for x in raw(self._flat(v)).ravel()]

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.obls.append(Obl(label, B(True)))
            return True
        self.obls.append(Obl(label, B(False)))
        return False

    def patch_rng(self, module):
        pass

    def setattr(self, obj, name, value):
        old = vars(obj)[name] if name in vars(obj) else getattr(obj, name, MISSING)
        self._patch.append((obj, name, old))
        setattr(obj, name, value)

    def cut(self, x, lo=None, hi=None):
        """names for large terms; the values are the same"""
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                return x
            r = np.empty(x.shape, object)
            for i in np.ndindex(*x.shape):
                r[i] = T.cut(raw(x)[i], lo, hi)
            return wrap(r)
        return T.cut(x, lo, hi)

    def cleanup(self):
        for o, n, v in reversed(self._patch):
            if v is MISSING:
                delattr(o, n)
            else:
                setattr(o, n, v)
        self._patch = []
