"""Symbolic real arithmetic: polynomials over hash-consed atoms.

A value is a polynomial with rational coefficients over atoms (input variables,
pi, square roots, reciprocals, cosines/sines, inverse trigonometric values,
uninterpreted function values, ...).  Algebraic rules are applied while the
polynomial is built (w*w -> argument of the root, s*s -> 1 - c*c, r*p -> 1), so
that most identities are decided by the normal form; everything else is left to
the SMT solver through the axioms of the atoms (see solver.py).
"""
import math
from fractions import Fraction as Fr

import numpy as _np

ZERO = Fr(0)
ONE = Fr(1)


class Unsupported(Exception):
    """the facade cannot express this operation"""


class PathAbort(BaseException):
    """steers the engine, never caught by code under test"""


class Restart(PathAbort):
    pass


# ------------------------------------------------------------------ engine hook
class _Ctx:
    eng = None          # the running engine, decides branches
    split = False       # expand cos(a + b) over the terms of the angle


_Ctx.tiny = 0
_Ctx.near = 0
CTX = _Ctx()


# ------------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'lo', 'hi', 'rule', 'extra',
                 'uvars', 'ax')

    def __repr__(self):
        return self.name


ATOMS = []
_INTERN = {}


def _uvars(args):
    s = frozenset()
    for a in args:
        if isinstance(a, SR):
            s |= a.uvars()
    return s


def _shorter(q, way):
    """a bound with few digits (outward)"""
    n = q.denominator.bit_length()
    if n < 400:
        return q
    k = max(0, n - abs(q.numerator).bit_length()) + 200
    f = q * 2 ** k
    return Fr(math.floor(f) if way < 0 else math.ceil(f), 2 ** k)


def mk_atom(kind, args, name=None, lo=None, hi=None, extra=None):
    key = (kind,) + tuple(a.key() if isinstance(a, SR) else a for a in args)
    at = _INTERN.get(key)
    if at is not None:
        return at
    near = None
    if CTX.near and kind != 'var' and any(isinstance(a, SR) and a.t and not a.sp for a in args):
        near = _NEAR.setdefault((kind,) + tuple(frozenset(a.t) if isinstance(a, SR) else 'num' if isinstance(a, (Fr, float)) else a for a in args), [])
        for at in near:
            if all(_close_terms(a, b) for a, b in zip(args, at.args)):
                _INTERN[key] = at
                return at
    at = Atom()
    at.id = len(ATOMS)
    at.kind = kind
    at.args = args
    at.name = name or f"{kind}_{at.id}"
    at.lo = None if lo is None else _shorter(Fr(lo), -1)
    at.hi = None if hi is None else _shorter(Fr(hi), 1)
    at.rule = None
    at.extra = extra
    at.ax = {}
    at.uvars = frozenset([at.id]) if kind == 'var' else _uvars(args)
    ATOMS.append(at)
    _INTERN[key] = at
    if near is not None:
        near.append(at)
    return at


_NEAR = {}


def _close_terms(a, b):
    """the same up to rounding (float mode only)"""
    if not isinstance(a, SR):
        return a == b or isinstance(a, (Fr, float)) and abs(a - b) <= CTX.near * abs(a)
    if a.sp or b.sp:
        return a.sp == b.sp
    e = CTX.near
    return all(abs(c - b.t[m]) <= e * abs(c) for m, c in a.t.items())


# -------------------------------------------------------------------- monomials
# a monomial is a tuple of (atom_id, exponent), atom ids descending, exponent != 0
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] > y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def minv(a):
    return tuple((i, -e) for i, e in a)


_RED = {}      # monomial -> None (irreducible) or dict


def _padd(d, m, c):
    v = d.get(m)
    if v is None:
        d[m] = c
    else:
        v += c
        if v:
            d[m] = v
        else:
            del d[m]


def _reduce_mono(m):
    """None when m is irreducible, otherwise the (fully reduced) polynomial"""
    if m in _RED:
        return _RED[m]
    res = None
    ids = dict(m)
    for (i, e) in m:
        at = ATOMS[i]
        k = at.kind
        if k == 'sqrt':
            p = at.args[0]
            if e >= 2:
                rest = _drop(m, i, 2)
                res = _pmulm(p.t, rest)
                break
            if e < 0:
                # 1/w = w / p
                rest = _drop(m, i, -1)           # removes one negative power
                rest = mmul(rest, ((i, 1),))
                inv = p.inv_nocheck()
                res = _pmulm(inv.t, rest)
                break
        elif k == 'recip':
            p = at.args[0]
            if e < 0:
                rest = _drop(m, i, -1)
                res = _pmulm(p.t, rest)
                break
            lm, lc = at.extra
            if _divides(lm, ids):
                rest = mmul(m, minv(lm))
                rest1 = _drop(rest, i, 1)
                # R*lm = (1 - R*(p - lc*lm))/lc
                out = {}
                _padd(out, rest1, ONE / lc)
                for mm, c in p.t.items():
                    if mm != lm:
                        _padd(out, mmul(mm, rest), -c / lc)
                res = out
                break
        elif at.rule is not None:
            if e >= 2:
                # square rule: atom^2 -> polynomial
                rest = _drop(m, i, 2)
                res = _pmulm(at.rule.t, rest)
                break
            if e < 0 and k == 'sin':
                cid = at.extra
                if ids.get(cid, 0) >= 2:
                    rest = _drop(m, cid, 2)
                    out = {}
                    _padd(out, rest, ONE)
                    _padd(out, mmul(rest, ((i, 2),)), -ONE)
                    res = out
                    break
    if res is not None:
        res = _reduce(res)
    _RED[m] = res
    return res


def _drop(m, i, n):
    out = []
    for (j, e) in m:
        if j == i:
            e -= n
            if e == 0:
                continue
        out.append((j, e))
    return tuple(out)


def _divides(lm, ids):
    for j, e in lm:
        if e > 0:
            if ids.get(j, 0) < e:
                return False
        else:
            if ids.get(j, 0) > e:
                return False
    return True


def _pmulm(t, m):
    if not m:
        return dict(t)
    out = {}
    for mm, c in t.items():
        _padd(out, mmul(mm, m), c)
    return out


def _reduce(t):
    out = {}
    todo = None
    for m, c in t.items():
        r = _reduce_mono(m) if m else None
        if r is None:
            _padd(out, m, c)
        else:
            for mm, cc in r.items():
                _padd(out, mm, cc * c)
    return out


def _pmul(a, b):
    out = {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 60000:
        raise Unsupported("polynomial too large")
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            c = c1 * c2
            r = _reduce_mono(m) if m else None
            if r is None:
                _padd(out, m, c)
            else:
                for mm, cc in r.items():
                    _padd(out, mm, cc * c)
    return out


# -------------------------------------------------------------- intervals
def _imul(a, b):
    vals = []
    for x in a:
        for y in b:
            if x is None or y is None:
                return (None, None)
            vals.append(x * y)
    return (min(vals), max(vals))


def _ipow(iv, e):
    lo, hi = iv
    if e < 0:
        if lo is not None and lo > 0:
            return _ipow((None if hi is None else 1 / hi, 1 / lo), -e) if hi is not None else (ZERO, (1 / lo) ** (-e))
        if hi is not None and hi < 0 and lo is not None:
            return _ipow((1 / hi, 1 / lo), -e)
        if lo is not None and lo >= 0:
            return (ZERO if hi is None else (1 / hi) ** (-e), None)
        return (None, None)
    if e == 1:
        return iv
    if e % 2 == 0:
        if lo is None or hi is None:
            if lo is not None and lo >= 0:
                return (lo ** e, None)
            if hi is not None and hi <= 0:
                return (hi ** e, None)
            return (ZERO, None)
        if lo >= 0:
            return (lo ** e, hi ** e)
        if hi <= 0:
            return (hi ** e, lo ** e)
        return (ZERO, max(lo ** e, hi ** e))
    return (None if lo is None else lo ** e, None if hi is None else hi ** e)


def mono_iv(m):
    iv = (ONE, ONE)
    for i, e in m:
        at = ATOMS[i]
        b = _ipow((at.lo, at.hi), e)
        if iv == (ONE, ONE):
            iv = b
        elif iv[0] is not None and iv[0] >= 0 and b[0] is not None and b[0] >= 0:
            iv = (iv[0] * b[0], None if iv[1] is None or b[1] is None else iv[1] * b[1])
        else:
            iv = _imul(iv, b)
        if iv == (None, None):
            return iv
    return iv


def poly_iv(t):
    lo = hi = ZERO
    for m, c in t.items():
        if not m:
            a = b = c
        else:
            a, b = mono_iv(m)
            if c > 0:
                a = None if a is None else a * c
                b = None if b is None else b * c
            else:
                a, b = (None if b is None else b * c, None if a is None else a * c)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
        if lo is None and hi is None:
            break
    return lo, hi


# ------------------------------------------------------------------ values
def _nice(f):
    """float -> exact value; multiples of pi produced by float arithmetic are
    recognised (k*pi/720 and k/pi)"""
    q = f / math.pi * 720
    k = round(q)
    if k and abs(k) <= 7200 and abs(q - k) <= 2e-15 * abs(q):
        return SR({((PI_ID, 1),): Fr(k, 720)})
    q = f * math.pi
    k = round(q)
    if k and abs(k) <= 1440 and abs(q - k) <= 4e-16 * abs(q) and abs(f) < 500 and f != int(f):
        return SR({((PI_ID, -1),): Fr(k)})
    return None


def lift(x):
    if isinstance(x, SR):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return SR({(): ONE}) if x else SR({})
    if isinstance(x, (int, _np.integer)):
        x = int(x)
        return SR({(): Fr(x)}) if x else SR({})
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return PINF if x > 0 else NINF
        if x == 0:
            return SR({})
        if x != int(x) if abs(x) < 1e15 else False:
            r = _nice(x)
            if r is not None:
                return r
            # decimal literals stand for the decimal number they print as
            return SR({(): Fr(repr(x))})
        return SR({(): Fr(x)})
    if isinstance(x, Fr):
        return SR({(): x}) if x else SR({})
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, SB):
        return lift(bool(x))
    raise TypeError(f"cannot lift {type(x)}")


_OK = (int, float, Fr, bool, _np.integer, _np.floating, _np.bool_)


class SR:
    __slots__ = ('t', 'sp', '_k', '_uv')
    __array_priority__ = 1000.0

    def __init__(self, t, sp=None):
        self.t = t
        self.sp = sp
        self._k = None
        self._uv = None

    # -- basics
    def key(self):
        if self._k is None:
            self._k = (self.sp,) if self.sp else tuple(sorted(self.t.items()))
        return self._k

    def uvars(self):
        if self._uv is None:
            s = set()
            for m in self.t:
                for i, _ in m:
                    s |= ATOMS[i].uvars
            self._uv = frozenset(s)
        return self._uv

    def atoms(self):
        return {i for m in self.t for i, _ in m}

    def is_const(self):
        return self.sp is None and (not self.t or (len(self.t) == 1 and () in self.t))

    def const(self):
        return self.t.get((), ZERO)

    def iv(self):
        return poly_iv(self.t)

    def __repr__(self):
        if self.sp:
            return self.sp
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), reverse=True)[:12]:
            cs = str(float(c)) if c.denominator > 1000 else str(c)
            out.append(cs + ''.join('*' + ATOMS[i].name + (f'^{e}' if e != 1 else '')
                                    for i, e in m))
        if len(self.t) > 12:
            out.append('...')
        return ' + '.join(out)

    def __format__(self, spec):
        if CTX.eng is not None and not self.is_const():
            return CTX.eng.token(self, spec)
        v = self.float()
        if v == int(v) and not spec:
            # integers print the way the int that was given would
            return str(int(v)) if CTX.eng is None or not CTX.eng.fmtfloat else str(v)
        return format(v, spec)

    def __str__(self):
        if CTX.eng is not None and not self.is_const():
            return CTX.eng.token(self, '')
        return repr(self)

    def __hash__(self):
        return hash(self.key())

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, SR):
            if not isinstance(o, _OK):
                return NotImplemented
            o = lift(o)
        if self.sp or o.sp:
            return _sp_add(self, o)
        if not o.t:
            return self
        if not self.t:
            return o
        if CTX.tiny:
            # a guard against division by zero, taken as zero
            if len(o.t) == 1 and () in o.t and abs(o.t[()]) <= CTX.tiny and not self.is_const():
                return self
            if len(self.t) == 1 and () in self.t and abs(self.t[()]) <= CTX.tiny and not o.is_const():
                return o
        out = dict(self.t)
        for m, c in o.t.items():
            _padd(out, m, c)
        return SR(out)

    __radd__ = __add__

    def __neg__(self):
        if self.sp:
            return {'nan': NAN, '+inf': NINF, '-inf': PINF}[self.sp]
        return SR({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not isinstance(o, SR):
            if not isinstance(o, _OK):
                return NotImplemented
            o = lift(o)
        return self + (-o)

    def __rsub__(self, o):
        if not isinstance(o, _OK):
            return NotImplemented
        return lift(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, SR):
            if not isinstance(o, _OK):
                return NotImplemented
            o = lift(o)
        if self.sp or o.sp:
            return _sp_mul(self, o)
        if len(self.t) == 1 and () in self.t:
            c = self.t[()]
            return o if c == 1 else SR({m: c * v for m, v in o.t.items()})
        if len(o.t) == 1 and () in o.t:
            c = o.t[()]
            return self if c == 1 else SR({m: c * v for m, v in self.t.items()})
        if len(self.t) * len(o.t) > 60000:
            a, b = (cut(x) if len(x.t) > 100 else x for x in (self, o))
            return SR(_pmul(a.t, b.t))
        return SR(_pmul(self.t, o.t))

    __rmul__ = __mul__

    def inv_nocheck(self):
        t = self.t
        if len(t) == 1:
            (m, c), = t.items()
            return SR(_reduce({minv(m): ONE / c}))
        # pull out monomial content, make monic
        cm = content(t)
        lm = max(t)
        d = {mmul(m, minv(cm)): c for m, c in t.items()} if cm else t
        d = _reduce(d) if cm else d
        lm = max(d)
        lc = d[lm]
        d = {m: c / lc for m, c in d.items()}
        p = SR(d)
        at = mk_atom('recip', (p,), extra=None)
        if at.extra is None:
            at.extra = (lm, ONE)
            lo, hi = p.iv()
            if lo is not None and lo > 0:
                at.lo = ZERO if hi is None else 1 / hi
                at.hi = 1 / lo
            elif hi is not None and hi < 0:
                at.hi = ZERO if lo is None else 1 / lo
                at.lo = 1 / hi
            elif lo is not None and lo == 0:
                at.lo = ZERO        # the divisor is known not to be zero
            elif hi is not None and hi == 0:
                at.hi = ZERO
        r = SR({((at.id, 1),): ONE / lc})
        if cm:
            r = r * SR(_reduce({minv(cm): ONE}))
        return r

    def __truediv__(self, o):
        if not isinstance(o, SR):
            if not isinstance(o, _OK):
                return NotImplemented
            o = lift(o)
        if self.sp or o.sp:
            return _sp_div(self, o)
        if o.is_const():
            c = o.const()
            if c == 0:
                return _div0(self)
            return SR({m: v / c for m, v in self.t.items()})
        lo, hi = o.iv()
        if not ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
            if CTX.eng.decide(SB('==', o)):
                return _div0(self)
        if not self.t:
            return self
        if len(o.t) > 1 and len(self.t) >= len(o.t):
            q = polydiv(self.t, o.t)
            if q is not None:
                return SR(q)
        return self * o.inv_nocheck()

    def __rtruediv__(self, o):
        if not isinstance(o, _OK):
            return NotImplemented
        return lift(o) / self

    def __floordiv__(self, o):
        return sfloor(self / o)

    def __rfloordiv__(self, o):
        return sfloor(lift(o) / self)

    def __mod__(self, o):
        o = lift(o)
        return self - o * sfloor(self / o)

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, e):
        return spow(self, lift(e))

    def __rpow__(self, b):
        return spow(lift(b), self)

    def __abs__(self):
        if self.sp:
            return NAN if self.sp == 'nan' else PINF
        lo, hi = self.iv()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        return self if CTX.eng.decide(SB('>=', self)) else -self

    def conjugate(self):
        return self

    def item(self):
        return self

    # numpy's object loops call these
    def sqrt(self): return ssqrt(self)
    def cos(self): return strig(self)[0]
    def sin(self): return strig(self)[1]

    # -- comparisons
    def _cmp(self, o, op):
        if not isinstance(o, SR):
            if o is None or isinstance(o, (str, bytes)) or (isinstance(o, _np.ndarray) and o.ndim):
                return NotImplemented
            o = lift(o)
        return compare(op, self, o)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, set, frozenset)):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, set, frozenset)):
            return True
        return self._cmp(o, '!=')

    def __bool__(self):
        if self.sp:
            return True
        return bool(SB('!=', self)) if not self.is_const() else bool(self.const())

    def float(self):
        if self.sp:
            return {'nan': math.nan, '+inf': math.inf, '-inf': -math.inf}[self.sp]
        if self.uvars():
            raise Unsupported("float() of a symbolic value")
        return neval(self, {})

    def __float__(self):
        return self.float()

    def __int__(self):
        f = self
        if self.sp:
            raise ValueError("cannot convert special to int")
        # truncation toward zero
        if self.is_const():
            return int(self.const())
        if CTX.eng.decide(SB('>=', self)):
            return concretise_floor(self)
        return -concretise_floor(-self)

    __trunc__ = __int__

    def __floor__(self):
        return concretise_floor(self)

    def __ceil__(self):
        return -concretise_floor(-self)

    def __round__(self, nd=None):
        if nd is not None:
            # rounding to decimals
            s = 10 ** nd
            return lift(Fr(1, 1)) * round(self * s) / s
        f = concretise_floor(self + Fr(1, 2))
        if f % 2 and CTX.eng.decide(SB('==', self + Fr(1, 2) - f)):
            f -= 1
        return f

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise TypeError("symbolic value used as an index")

    def is_integer(self):
        return bool(compare('==', self, sfloor(self)))


NAN = SR({}, 'nan')
PINF = SR({}, '+inf')
NINF = SR({}, '-inf')


def content(t):
    """monomial gcd (min exponents) of the terms"""
    it = iter(t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(first):
            e = d.get(i, 0)
            f = first[i]
            first[i] = min(e, f)
        for i, e in d.items():
            if e < 0 and i not in first:
                first[i] = e
        # atoms absent in m but positive in first -> min(0, f)
    for i in list(first):
        if first[i] == 0:
            del first[i]
    return tuple(sorted(first.items(), reverse=True))


def polydiv(a, b, steps=40):
    """exact division or None (lex order); only attempted on plain polynomials"""
    lm = max(b)
    lc = b[lm]
    for m in b:
        for _, e in m:
            if e < 0:
                return None
    rem = dict(a)
    q = {}
    lmd = dict(lm)
    for _ in range(steps):
        if not rem:
            return q
        m = max(rem)
        if not _divides(lm, dict(m)):
            return None
        qm = mmul(m, minv(lm))
        qc = rem[m] / lc
        _padd(q, qm, qc)
        for mm, c in b.items():
            mmm = mmul(mm, qm)
            r = _reduce_mono(mmm) if mmm else None
            if r is None:
                _padd(rem, mmm, -c * qc)
            else:
                for m3, c3 in r.items():
                    _padd(rem, m3, -c3 * c * qc)
    return None


# ---------------------------------------------------------------- specials
def _sign(x):
    """-1, 0, 1 (forks)"""
    lo, hi = x.iv()
    if lo is not None and lo > 0:
        return 1
    if hi is not None and hi < 0:
        return -1
    if CTX.eng.decide(SB('==', x)):
        return 0
    return 1 if CTX.eng.decide(SB('>', x)) else -1


def _sgn(x):
    if x.sp:
        return {'+inf': 1, '-inf': -1}[x.sp]
    if x.is_const():
        c = x.const()
        return (c > 0) - (c < 0)
    return _sign(x)


def _sp_add(a, b):
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    if a.sp and b.sp:
        return a if a.sp == b.sp else NAN
    return a if a.sp else b


def _sp_mul(a, b):
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    s = _sgn(a) * _sgn(b)
    return NAN if s == 0 else (PINF if s > 0 else NINF)


def _sp_div(a, b):
    if a.sp == 'nan' or b.sp == 'nan':
        return NAN
    if a.sp and b.sp:
        return NAN
    if b.sp:
        return SR({})
    s = _sgn(b)
    if s == 0:
        s = 1
    return a if s > 0 else -a


def _div0(a):
    """a / 0 (the sign of a zero divisor is taken as +)"""
    eng = CTX.eng
    if eng is not None:
        eng.zero_div += 1
    s = _sgn(a)
    if s == 0:
        return NAN
    return PINF if s > 0 else NINF


# ---------------------------------------------------------------- booleans
_NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


class SB:
    """p op 0, or a boolean combination; bool() forks the execution"""
    __slots__ = ('op', 'p', 'kids', '_k')

    def __init__(self, op, p=None, kids=None):
        self.op = op
        self.p = p
        self.kids = kids
        self._k = None

    def key(self):
        if self._k is None:
            if self.kids is not None:
                self._k = (self.op, tuple(k.key() for k in self.kids))
            elif self.op == 'const':
                self._k = (self.op, self.p)
            else:
                self._k = (self.op, self.p.key())
        return self._k

    def __bool__(self):
        v = self.static()
        if v is not None:
            return v
        if self.op == 'and':
            return all(bool(k) for k in self.kids)
        if self.op == 'or':
            return any(bool(k) for k in self.kids)
        return CTX.eng.decide(self)

    def static(self):
        if self.op == 'const':
            return self.p
        if self.kids is not None:
            vs = [k.static() for k in self.kids]
            if self.op == 'and':
                if any(v is False for v in vs):
                    return False
                return True if all(v is True for v in vs) else None
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        lo, hi = poly_iv(self.p.t)
        op = self.op
        if op in ('>', '>='):
            if lo is not None and (lo > 0 or (lo == 0 and op == '>=')):
                return True
            if hi is not None and (hi < 0 or (hi == 0 and op == '>')):
                return False
        elif op in ('<', '<='):
            if hi is not None and (hi < 0 or (hi == 0 and op == '<=')):
                return True
            if lo is not None and (lo > 0 or (lo == 0 and op == '<')):
                return False
        else:
            ne = (lo is not None and lo > 0) or (hi is not None and hi < 0)
            if ne:
                return op == '!='
            if not self.p.t:
                return op == '=='
        return None

    def neg(self):
        if self.op == 'const':
            return SB('const', not self.p)
        if self.op == 'and':
            return SB('or', kids=[k.neg() for k in self.kids])
        if self.op == 'or':
            return SB('and', kids=[k.neg() for k in self.kids])
        return SB(_NEG[self.op], self.p)

    def polys(self):
        if self.op == 'const':
            return []
        if self.kids is not None:
            return [p for k in self.kids for p in k.polys()]
        return [self.p]

    def uvars(self):
        s = frozenset()
        for p in self.polys():
            s |= p.uvars()
        return s

    def __and__(self, o): return AND(self, o)
    __rand__ = __and__
    def __or__(self, o): return OR(self, o)
    __ror__ = __or__
    def __invert__(self): return self.neg()
    def __xor__(self, o): return bool(self) ^ bool(o)
    __rxor__ = __xor__
    def __mul__(self, o): return lift(bool(self)) * o
    __rmul__ = __mul__
    def __add__(self, o): return lift(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        if self.op == 'const':
            return str(self.p)
        if self.kids is not None:
            return '(' + f' {self.op} '.join(map(repr, self.kids)) + ')'
        return f'{self.p!r} {self.op} 0'


def B(v):
    if isinstance(v, SB):
        return v
    return SB('const', bool(v))


def AND(*ks):
    out = []
    for k in ks:
        k = B(k)
        s = k.static()
        if s is False:
            return SB('const', False)
        if s is True:
            continue
        out.append(k)
    if not out:
        return SB('const', True)
    return out[0] if len(out) == 1 else SB('and', kids=out)


def OR(*ks):
    out = []
    for k in ks:
        k = B(k)
        s = k.static()
        if s is True:
            return SB('const', True)
        if s is False:
            continue
        out.append(k)
    if not out:
        return SB('const', False)
    return out[0] if len(out) == 1 else SB('or', kids=out)


_ARCS = ('acos', 'atan2')


def compare(op, a, b):
    if a.sp or b.sp:
        if a.sp == 'nan' or b.sp == 'nan':
            return op == '!='
        if a.sp and b.sp:
            x, y = a.float(), b.float()
        elif a.sp:
            x, y = a.float(), 0.0
        else:
            x, y = 0.0, b.float()
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
                '==': x == y, '!=': x != y}[op]
    d = a - b
    if CTX.eng is not None and CTX.eng.arcsub:
        d = substitute(d, CTX.eng.arcsub)
    if d.is_const():
        c = d.const()
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    f = _factor_arc(d)
    if f is not None:
        return _prod_cmp(op, f)
    note_threshold(d)
    return SB(op, d)


def _factor_arc(d):
    """d = c * (t - k1) * (t - k2) or c * (t - k) with t an arc atom, k constant"""
    arcs = {i for m in d.t for i, _ in m if ATOMS[i].kind in _ARCS and ATOMS[i].uvars}
    if len(arcs) != 1:
        return None
    t = arcs.pop()
    co = {}
    for m, c in d.t.items():
        e = dict(m).get(t, 0)
        if e < 0 or e > 2:
            return None
        co.setdefault(e, {})[_drop(m, t, e) if e else m] = c
    if 2 not in co and len(co.get(1, {})) <= 1 and not SR(co[1]).uvars():
        return None
    deg = max(co)
    lead = SR(co[deg])
    if not lead.uvars() and deg == 1:
        return None
    ks = []
    for e in range(deg):
        if e not in co:
            ks.append(lift(0))
            continue
        k = _const_ratio(co[e], lead.t)
        if k is None:
            return None
        ks.append(k)
    T = SR({((t, 1),): ONE})
    if deg == 1:
        fs = [T + ks[0]]
    else:
        disc = ks[1] * ks[1] - 4 * ks[0]
        dv = neval(disc, {})
        if dv < 0 or CTX.eng is None:
            return None
        if not disc.t:
            fs = [T + ks[1] / 2, T + ks[1] / 2]
        else:
            r = polysqrt(disc.t) if len(disc.t) == 1 else None
            if r is None:
                return None
            r = SR(r)
            fs = [T + (ks[1] - r) / 2, T + (ks[1] + r) / 2]
    for f in fs:
        note_threshold(f)
    return [lead] + fs


def _const_ratio(a, b):
    """a = k * b with k a rational times a power of pi"""
    ma, mb = max(a), max(b)
    q = mmul(ma, minv(mb))
    if any(i != PI_ID for i, _ in q):
        return None
    k = SR({q: a[ma] / b[mb]})
    if (SR(a) - k * SR(b)).t:
        return None
    return k


def _prod_cmp(op, fs):
    pos, neg, zero = B(True), B(False), []
    for f in fs:
        p, n = SB('>', f), SB('<', f)
        pos, neg = OR(AND(pos, p), AND(neg, n)), OR(AND(pos, n), AND(neg, p))
        zero.append(SB('==', f))
    if op == '>':
        return pos
    if op == '<':
        return neg
    if op == '==':
        return OR(*zero)
    if op == '!=':
        return AND(*[z.neg() for z in zero])
    return neg.neg() if op == '>=' else pos.neg()


def substitute(x, mp, memo=None):
    """x with atoms replaced (atom id -> SR), functions rebuilt"""
    if x.sp or not mp:
        return x
    memo = {} if memo is None else memo

    def dep(i):
        if i in mp:
            return True
        return any(isinstance(a, SR) and any(dep(j) for j in a.atoms()) for a in ATOMS[i].args) \
            if ATOMS[i].kind not in ('var', 'pi') else False

    def atom(i):
        if i in memo:
            return memo[i]
        at = ATOMS[i]
        if i in mp:
            r = mp[i]
        elif not dep(i):
            r = SR({((i, 1),): ONE})
        else:
            a = [substitute(q, mp, memo) if isinstance(q, SR) else q for q in at.args]
            k = at.kind
            if k == 'sqrt':
                r = ssqrt(a[0])
            elif k == 'recip':
                r = lift(1) / a[0]
            elif k == 'cos':
                r = strig(a[0])[0]
            elif k == 'sin':
                r = strig(a[0])[1]
            elif k == 'acos':
                r = sacos(a[0])
            elif k == 'atan2':
                r = satan2(*a)
            else:
                r = SR({((i, 1),): ONE})
        memo[i] = r
        return r
    if not any(dep(i) for i in x.atoms()):
        return x
    out = lift(0)
    for m, c in x.t.items():
        v = SR({(): c})
        for i, e in m:
            b = atom(i)
            for _ in range(abs(e)):
                v = v * b if e > 0 else v / b
        out = out + v
    return out


def note_threshold(d):
    """q*t + k with t = acos(x): remember k so that the solver learns
    t < -k/q  <=>  x > cos(-k/q)"""
    arc = None
    for m in d.t:
        for i, e in m:
            at = ATOMS[i]
            if at.kind in _ARCS:
                if arc is not None and arc != i:
                    return
                if len(m) > 1 or e != 1:
                    return
                arc = i
    if arc is None:
        return
    m0 = ((arc, 1),)
    if m0 not in d.t:
        return
    rest = SR({m: -c / d.t[m0] for m, c in d.t.items() if m != m0})
    if rest.uvars():
        return
    at = ATOMS[arc]
    if at.kind == 'acos':
        at.ax.setdefault('thr', {})[rest.key()] = rest


# ------------------------------------------------------------- functions
def const_num(x):
    return neval(x, {})


def _isqrt_fr(c):
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fr(a, b)
    return None


def polysqrt(t):
    """polynomial s with s*s == t (in normal form), or None"""
    lm = max(t)
    lc = t[lm]
    if lc <= 0:
        return None
    r = _isqrt_fr(lc)
    if r is None or any(e % 2 for _, e in lm):
        return None
    s = {tuple((i, e // 2) for i, e in lm): r}
    l0 = next(iter(s))
    rem = dict(t)
    for m, c in _pmul(s, s).items():
        _padd(rem, m, -c)
    for _ in range(12):
        if not rem:
            return s
        m = max(rem)
        qm = mmul(m, minv(l0))
        if any(e < 0 for _, e in qm) or qm in s:
            return None
        qc = rem[m] / (2 * r)
        # rem -= 2*s*q + q^2
        q = {qm: qc}
        for mm, c in _pmul(s, q).items():
            _padd(rem, mm, -2 * c)
        for mm, c in _pmul(q, q).items():
            _padd(rem, mm, -c)
        s[qm] = qc
    return None


def ssqrt(x):
    x = lift(x)
    if x.sp:
        return x if x.sp in ('nan', '+inf') else NAN
    if x.is_const():
        c = x.const()
        if c < 0:
            return NAN
        r = _isqrt_fr(c)
        if r is not None:
            return SR({(): r}) if r else SR({})
        # square-free part
        n, d = c.numerator, c.denominator
        if n * d < 10 ** 12:
            m = n * d
            k = 1
            f = 2
            while f * f <= m and f < 2000:
                while m % (f * f) == 0:
                    m //= f * f
                    k *= f
                f += 1
            return SR({((_sqrt_atom(SR({(): Fr(m)})).id, 1),): Fr(k, d)})
        return SR({((_sqrt_atom(x).id, 1),): ONE})
    lo, hi = x.iv()
    if lo is None or lo < 0:
        if not _nonneg(x.t):
            if CTX.eng.decide(SB('<', x)):
                return NAN
    t = x.t
    cm = content(t)
    outer = SR({(): ONE})
    ev = tuple((i, (e // 2) * 2) for i, e in cm if (e // 2) * 2)
    if ev:
        t = _reduce({mmul(m, minv(ev)): c for m, c in t.items()})
        for i, e in ev:
            h = e // 2
            base = SR({((i, 1),): ONE})
            ab = abs(base) if h % 2 else base
            if h >= 0:
                outer = outer * SR(_reduce({(): ONE}))
                for _ in range(h):
                    outer = outer * ab
            else:
                iv = ab.inv_nocheck()
                for _ in range(-h):
                    outer = outer * iv
    if len(t) == 1 and () in t:
        return outer * ssqrt(SR(t))
    s = polysqrt(t)
    if s is not None:
        return outer * abs(SR(s))
    r = _pyth(t)
    if r is not None:
        return outer * r
    lc = abs(t[max(t)])
    if lc != 1:
        t = {m: c / lc for m, c in t.items()}
        outer = outer * ssqrt(SR({(): lc}))
    return outer * SR({((_sqrt_atom(SR(t)).id, 1),): ONE})


def _pyth(t):
    """sqrt(c - c*cos(a)^2) = sqrt(c)*|sin(a)| when the sign of the sine is known"""
    if len(t) != 2 or () not in t:
        return None
    c = t[()]
    (m, k), = [(m, k) for m, k in t.items() if m]
    if c <= 0 or k != -c or len(m) != 1 or m[0][1] != 2 or ATOMS[m[0][0]].kind != 'cos':
        return None
    s = strig(ATOMS[m[0][0]].args[0])[1]
    lo, hi = s.iv()
    if lo is not None and lo >= 0:
        return ssqrt(SR({(): c})) * s
    if hi is not None and hi <= 0:
        return ssqrt(SR({(): c})) * -s
    return None


def _nonneg(t):
    """syntactic: every term is a non-negative multiple of an even monomial or
    of atoms with non-negative range"""
    for m, c in t.items():
        if not m:
            if c < 0:
                return False
            continue
        if c < 0:
            return False
        for i, e in m:
            if e % 2:
                lo = ATOMS[i].lo
                if lo is None or lo < 0:
                    return False
    return True


def _sqrt_atom(p):
    at = mk_atom('sqrt', (p,), lo=0)
    if at.hi is None:
        lo, hi = p.iv()
        if not p.uvars():
            v = math.sqrt(max(0, neval(p, {})))
            at.lo = Fr(v) * (1 - Fr(1, 10 ** 14))
            at.hi = Fr(v) * (1 + Fr(1, 10 ** 14))
        else:
            if hi is not None and hi >= 0:
                at.hi = Fr(math.sqrt(hi)) * (1 + Fr(1, 10 ** 15)) + Fr(1, 10 ** 30)
                if _isqrt_fr(hi) is not None:
                    at.hi = _isqrt_fr(hi)
            if lo is not None and lo > 0:
                at.lo = Fr(math.sqrt(lo)) * (1 - Fr(1, 10 ** 15))
    return at


def sfloor(x):
    x = lift(x)
    if x.sp:
        return x
    if x.is_const():
        return lift(math.floor(x.const()))
    return lift(concretise_floor(x))


def concretise_floor(x):
    if x.is_const():
        return math.floor(x.const())
    if not x.uvars():
        v = neval(x, {})
        if abs(v - round(v)) > 1e-9:
            return math.floor(v)
        # an exact integer hidden in constants
        return CTX.eng.pick_floor(x)
    return CTX.eng.pick_floor(x)


def _pow_bound(v, q):
    if v is None or v <= 0 or not Fr(1, 10 ** 60) < v < 10 ** 60 or abs(q) > 4:
        return None
    return Fr(float(v) ** float(q))


def spow(b, e):
    if b.sp == 'nan' or e.sp == 'nan':
        return NAN
    if e.sp:
        if b.is_const() and b.const() > 1:
            return PINF if e.sp == '+inf' else SR({})
        raise Unsupported("infinite exponent")
    if e.is_const():
        q = e.const()
        if b.sp:
            if q == 0:
                return lift(1)
            if q < 0:
                return SR({})
            if b.sp == '+inf':
                return PINF
            raise Unsupported("(-inf)**q")
        if q.denominator == 1 and abs(q) <= 16:
            n = int(q)
            r = lift(1)
            for _ in range(abs(n)):
                r = r * b
            return r if n >= 0 else 1 / r
        if q.denominator == 2 and abs(q) <= 8:
            r = ssqrt(b)
            n = int(q * 2)
            out = lift(1)
            for _ in range(abs(n)):
                out = out * r
            return out if n > 0 else 1 / out
        if b.is_const():
            c = b.const()
            if c == 0:
                return SR({}) if q > 0 else PINF
            if c < 0:
                return NAN
            if c == 1:
                return lift(1)
        else:
            lo, hi = b.iv()
            if lo is None or lo <= 0:
                s = _sign(b)
                if s < 0:
                    return NAN
                if s == 0:
                    return SR({}) if q > 0 else PINF
        if b.is_const():
            return ufun('pow', b, q, lo=0)
        l, h = (_pow_bound(v, q) for v in ((lo, hi) if q > 0 else (hi, lo)))
        return ufun('pow', b, q, lo=l * (1 - Fr(1, 10 ** 12)) if l else 0, hi=h * (1 + Fr(1, 10 ** 12)) if h else None)
    if b.is_const() and b.const() == 10:
        return sexp10(e)
    if b.is_const() and b.const() == 2:
        # exact powers of two for concretised integer exponents
        return ufun('pow2', e, lo=0)
    # b ** e = exp(e*log(b))
    return sexp(e * slog(b))


def ufun(name, *args, lo=None, hi=None):
    at = mk_atom('fn_' + name, tuple(args), lo=lo, hi=hi)
    if not at.uvars and at.ax.get('num') is None:
        v = _fn_num(name, [neval(a, {}) if isinstance(a, SR) else a for a in args])
        at.ax['num'] = v
        eps = Fr(abs(v)) / 10 ** 12 + Fr(1, 10 ** 300)
        at.lo, at.hi = Fr(v) - eps, Fr(v) + eps
    if CTX.eng is not None:
        CTX.eng.note_fn(at)
    return SR({((at.id, 1),): ONE})


def ssum(items):
    """sum of many terms at once"""
    items = [lift(x) for x in items]
    if CTX.tiny or any(x.sp for x in items):
        r = SR({})
        for x in items:
            r = r + x
        return r
    out = {}
    for x in items:
        for m, c in x.t.items():
            _padd(out, m, c)
    return SR(out)


_CUTB = {}


def cut(x, lo=None, hi=None):
    """a name for x (equal terms get equal names); bounds are used where the solver confirms them for all values"""
    if not isinstance(x, SR):
        return x
    if x.sp or len(x.t) < 2 and (lo is None and hi is None or not any(len(m) > 1 for m in x.t)):
        return x
    l, h = x.iv()
    for v, op in ((lo, '<'), (hi, '>')):
        if v is not None and (op == '<' and (l is None or l < v) or op == '>' and (h is None or h > v)):
            from . import solver
            d = SB(op, x - v)
            k = d.key()
            if k not in _CUTB:
                _CUTB[k] = solver.check_interval(d, []) == 'unsat' or solver.check([d], 5.)[0] == 'unsat'
            if _CUTB[k]:
                l, h = (Fr(v), h) if op == '<' else (l, Fr(v))
    return ufun('cut', x, lo=l, hi=h)


def sexp(x):
    x = lift(x)
    if x.sp:
        return {'nan': NAN, '+inf': PINF, '-inf': SR({})}[x.sp]
    if x.is_const() and x.const() == 0:
        return lift(1)
    # exp(k*log(y)) for small integer k
    lo, hi = x.iv()
    l = 0
    h = None
    if hi is not None and hi < 200:
        h = Fr(math.exp(float(hi))) * (1 + Fr(1, 10 ** 12))
    if lo is not None and -200 < lo < 200:
        l = Fr(math.exp(float(lo))) * (1 - Fr(1, 10 ** 12))
    return ufun('exp', x, lo=l, hi=h)


def sexp10(x):
    x = lift(x)
    if x.sp:
        return {'nan': NAN, '+inf': PINF, '-inf': SR({})}[x.sp]
    if x.is_const() and x.const().denominator == 1 and abs(x.const()) < 30:
        return lift(Fr(10) ** int(x.const()))
    # 10**(a*log10(y) + rest)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn_log10':
            return spow(ATOMS[m[0][0]].args[0], lift(c))
    lo, hi = x.iv()
    l = 0
    h = None
    if hi is not None and hi < 100:
        h = Fr(10 ** float(hi)) * (1 + Fr(1, 10 ** 12))
    if lo is not None and -100 < lo < 100:
        l = Fr(10 ** float(lo)) * (1 - Fr(1, 10 ** 12))
    return ufun('exp10', x, lo=l, hi=h)


def _slog(x, name, f):
    x = lift(x)
    if x.sp:
        return {'nan': NAN, '+inf': PINF, '-inf': NAN}[x.sp]
    if x.is_const():
        c = x.const()
        if c == 1:
            return SR({})
        if c == 0:
            return NINF
        if c < 0:
            return NAN
    else:
        lo, hi = x.iv()
        if lo is None or lo <= 0:
            s = _sign(x)
            if s == 0:
                return NINF
            if s < 0:
                return NAN
    # inverse pairs
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == {'log10': 'fn_exp10', 'log': 'fn_exp'}.get(name):
                return at.args[0]
    lo, hi = x.iv()
    l = h = None
    if lo is not None and lo > 0:
        l = Fr(f(float(lo))) - Fr(1, 10 ** 12)
    if hi is not None and hi > 0:
        h = Fr(f(float(hi))) + Fr(1, 10 ** 12)
    return ufun(name, x, lo=l, hi=h)


def slog10(x): return _slog(x, 'log10', math.log10)
def slog(x): return _slog(x, 'log', math.log)


def stanh(x):
    x = lift(x)
    if x.sp:
        return {'nan': NAN, '+inf': lift(1), '-inf': lift(-1)}[x.sp]
    if not x.t:
        return x
    return ufun('tanh', x, lo=-1, hi=1)


# ---------------------------------------------------------------- trigonometry
PI_AT = mk_atom('pi', (), name='pi', lo=Fr('3.14159265358979323'), hi=Fr('3.14159265358979324'))
PI_ID = PI_AT.id
PI = SR({((PI_ID, 1),): ONE})
PIM = ((PI_ID, 1),)

UNITS = {}        # base monomial -> Fraction unit


def _chev(c, s, n):
    """cos(n x), sin(n x) from cos x, sin x"""
    neg = n < 0
    n = abs(n)
    C, S = lift(1), lift(0)
    for _ in range(n):
        C, S = C * c - S * s, S * c + C * s
    return C, (-S if neg else S)


def _const_cs(k):
    """cos, sin of k*pi, k rational"""
    k = k % 2
    q = k * 2
    if q.denominator == 1:
        return [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q) % 4]
    if (k * 4).denominator == 1:
        h = ssqrt(lift(2)) / 2
        j = int(k * 4)
        return {1: (h, h), 3: (-h, h), 5: (-h, -h), 7: (h, -h)}[j]
    if (k * 6).denominator == 1 or (k * 3).denominator == 1:
        r3 = ssqrt(lift(3)) / 2
        hf = lift(Fr(1, 2))
        j = int(k * 6)
        return {1: (r3, hf), 2: (hf, r3), 4: (-hf, r3), 5: (-r3, hf),
                7: (-r3, -hf), 8: (-hf, -r3), 10: (hf, -r3), 11: (r3, -hf)}[j]
    return _base_cs(PI * k)


def _base_cs(ang):
    """atoms for cos/sin of the angle polynomial ang"""
    ca = mk_atom('cos', (ang,), lo=-1, hi=1)
    sa = mk_atom('sin', (ang,), lo=-1, hi=1)
    if sa.rule is None:
        sa.rule = SR({(): ONE, ((ca.id, 2),): -ONE})
        sa.extra = ca.id
        ca.extra = sa.id
        if not ang.uvars():
            v = neval(ang, {})
            for at, f in ((ca, math.cos), (sa, math.sin)):
                x = Fr(f(v))
                at.lo, at.hi = x - Fr(1, 10 ** 14), x + Fr(1, 10 ** 14)
        else:
            lo, hi = ang.iv()
            if lo is not None and hi is not None:
                lo_, hi_ = float(lo), float(hi)
                eps = Fr(1, 10 ** 12)
                if 0 <= lo_ and hi_ <= math.pi:
                    ca.lo = max(Fr(-1), Fr(math.cos(hi_)) - eps)
                    ca.hi = min(Fr(1), Fr(math.cos(lo_)) + eps)
                    sa.lo = max(Fr(-0), Fr(0))
                elif -math.pi / 2 <= lo_ and hi_ <= math.pi / 2:
                    sa.lo = max(Fr(-1), Fr(math.sin(lo_)) - eps)
                    sa.hi = min(Fr(1), Fr(math.sin(hi_)) + eps)
                    ca.lo = Fr(0)
    c = SR({((ca.id, 1),): ONE})
    s = SR({((sa.id, 1),): ONE})
    if CTX.eng is not None and ang.uvars():
        CTX.eng.note_angle(ang, c, s)
    return c, s


def arc_cs(at):
    """cos and sin of an arc atom as polynomials"""
    if at.kind == 'acos':
        x = at.args[0]
        return x, (at.extra if at.extra is not None else ssqrt(1 - x * x))
    y, x = at.args
    r = ssqrt(x * x + y * y)
    ri = r.inv_nocheck()
    return x * ri, y * ri


def strig(x):
    """(cos x, sin x)"""
    x = lift(x)
    if CTX.eng is not None and CTX.eng.arcsub:
        x = substitute(x, CTX.eng.arcsub)
    if x.sp:
        return NAN, NAN
    k = ZERO
    C, S = lift(1), lift(0)
    rest = {}
    for m, c in x.t.items():
        if m == PIM:
            k += c
        else:
            rest[m] = c
    # group: constants (no user variables) go in one bag
    bag = {m: c for m, c in rest.items() if not any(ATOMS[i].uvars for i, _ in m)
           and not (c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in _ARCS)}
    if bag:
        cc, ss = _base_cs(SR(bag))
        C, S = C * cc - S * ss, S * cc + C * ss
    def is_arc(m):
        return len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in _ARCS

    groups = []
    multi = {}
    for m in sorted(rest):
        if m in bag:
            continue
        if is_arc(m) or CTX.split:
            groups.append(((m,), rest[m], SR({m: ONE})))
        else:
            multi[m] = rest[m]
    if multi:
        # one base angle for everything else, up to a rational factor
        lead = multi[max(multi)]
        base = SR({m: c / lead for m, c in multi.items()})
        groups.append((base.key(), lead, base))
    for gk, q, base in groups:
        m = gk[0] if len(base.t) == 1 else None
        if len(base.t) == 1:
            m = next(iter(base.t))
        if m is not None and is_arc(m):
            at = ATOMS[m[0][0]]
            bc, bs = arc_cs(at)
            if CTX.eng is not None:
                CTX.eng.note_angle(SR({m: ONE}), bc, bs)
            if q.denominator == 1:
                n = int(q)
            elif q.denominator == 2 and abs(q) <= 4:
                # half angle
                hc = ssqrt((1 + bc) / 2)
                hs = ssqrt((1 - bc) / 2)
                if at.kind == 'atan2' and CTX.eng.decide(SB('<', SR({m: ONE}))):
                    hs = -hs
                bc, bs = hc, hs
                if CTX.eng is not None:
                    CTX.eng.note_angle(SR({m: Fr(1, 2)}), bc, bs)
                n = int(q * 2)
            else:
                bc, bs = _base_cs(SR({m: abs(q)}))
                n = 1 if q > 0 else -1
        else:
            uk = base.key()
            u = UNITS.get(uk)
            if u is None:
                u = UNITS[uk] = abs(q)
            n = q / u
            if n.denominator != 1 or abs(n) > 12:
                g = Fr(math.gcd(q.numerator * u.denominator, u.numerator * q.denominator),
                       q.denominator * u.denominator)
                if abs(q / g) > 12 or abs(u / g) > 12:
                    # unrelated multiples: separate atoms
                    bc, bs = _base_cs(base * abs(q))
                    n = 1 if q > 0 else -1
                    cc, ss = _chev(bc, bs, n)
                    C, S = C * cc - S * ss, S * cc + C * ss
                    continue
                UNITS[uk] = g
                raise Restart(f"unit of {base}")
            n = int(n)
            bc, bs = _base_cs(base * u)
        cc, ss = _chev(bc, bs, n)
        C, S = C * cc - S * ss, S * cc + C * ss
    cc, ss = _const_cs(k)
    C, S = C * cc - S * ss, S * cc + C * ss
    if CTX.eng is not None and x.uvars():
        CTX.eng.note_angle(x, C, S)
    return C, S


def wrap_pi(A):
    """A - 2*pi*k in (-pi, pi] (forks on k)"""
    eng = CTX.eng
    for _ in range(8):
        if compare('>', A, PI) and True:
            A = A - 2 * PI
            continue
        break
    for _ in range(8):
        if compare('<=', A, -PI) and True:
            A = A + 2 * PI
            continue
        break
    return A


def satan2(y, x):
    y, x = lift(y), lift(x)
    if x.sp == 'nan' or y.sp == 'nan':
        return NAN
    if x.sp or y.sp:
        if not x.sp and y.sp:
            return PI / 2 if y.sp == '+inf' else -PI / 2
        if x.sp == '+inf' and not y.sp:
            return SR({})
        raise Unsupported('atan2 with infinities')
    if y.is_const() and y.const() == 0:
        return PI if compare('<', x, lift(0)) else SR({})
    if x.is_const() and x.const() == 0:
        s = _sign(y)
        return PI * Fr(s, 2)
    if not x.uvars() and not y.uvars():
        v = math.atan2(neval(y, {}), neval(x, {}))
        q = v / math.pi * 24
        if abs(q - round(q)) < 1e-13:
            return PI * Fr(round(q), 24)
    eng = CTX.eng
    # recognise a known angle
    for (T, c, s) in reversed(eng.angles):
        if (y * c - x * s).is_const() and not (y * c - x * s).t:
            D = x * c + y * s
            sg = _sign(D)
            if sg == 0:
                return SR({})
            return wrap_pi(T if sg > 0 else T + PI)
        D = x * c + y * s
        if not D.t:
            N = y * c - x * s
            sg = _sign(N)
            if sg == 0:
                return SR({})
            return wrap_pi(T + PI / 2 if sg > 0 else T - PI / 2)
        if not (y * c + x * s).t:
            # mirrored: (x, y) = k (c, -s)
            sg = _sign(x * c - y * s)
            if sg == 0:
                return SR({})
            return wrap_pi(-T if sg > 0 else PI - T)
        if not (y * s - x * c).t:
            # complement: (x, y) = k (s, c)
            sg = _sign(x * s + y * c)
            if sg == 0:
                return SR({})
            return wrap_pi(PI / 2 - T if sg > 0 else -PI / 2 - T)
    for at in reversed(eng.atan2s):
        y0, x0 = at.args
        if not (y * x0 - x * y0).t:
            D = x * x0 + y * y0
            sg = _sign(D)
            if sg == 0:
                return SR({})
            T = SR({((at.id, 1),): ONE})
            return T if sg > 0 else wrap_pi(T + PI)
        # mirror images
        if not (y * x0 + x * y0).t:
            D = x * x0 - y * y0
            sg = _sign(D)
            if sg == 0:
                return SR({})
            T = -SR({((at.id, 1),): ONE})
            return wrap_pi(T) if sg > 0 else wrap_pi(T + PI)
        # complementary: atan2(x, y)
        if not (x * x0 - y * y0).t:
            D = y * x0 + x * y0      # cos(pi/2 - T0) = y0/r, sin = x0/r
            D = x * y0 + y * x0
            sg = _sign(D)
            if sg == 0:
                return SR({})
            T = PI / 2 - SR({((at.id, 1),): ONE})
            return wrap_pi(T) if sg > 0 else wrap_pi(T + PI)
    # atan2 of (0, 0)
    if eng.decide(AND(SB('==', y), SB('==', x))):
        return SR({})
    # an angle with y >= 0 is an arc cosine: cos = x / sqrt(x^2+y^2)
    r = ssqrt(x * x + y * y)
    C = x * r.inv_nocheck()
    lo, hi = y.iv()
    if (lo is not None and lo >= 0) or _nonneg(y.t):
        return sacos(C, checked=True, sin=y * r.inv_nocheck())
    at = mk_atom('atan2', (y, x), lo=Fr('-3.14159265358979324'), hi=Fr('3.14159265358979324'))
    if not at.uvars:
        v = Fr(math.atan2(neval(y, {}), neval(x, {})))
        at.lo, at.hi = v - Fr(1, 10 ** 13), v + Fr(1, 10 ** 13)
    else:
        _atan2_iv(at, y.iv(), x.iv())
    eng.note_atan2(at)
    return SR({((at.id, 1),): ONE})


def _aeps(x):
    """more than the error of acos at a rounded x"""
    return Fr(1, 10 ** 12) if abs(x) < Fr(9999, 10000) else Fr(1, 10 ** 7)


def _atan2_iv(at, yv, xv):
    """bounds of an angle from a box that is clear of the cut along the negative axis"""
    if None in yv or None in xv:
        return
    if not (xv[0] > 0 or yv[0] > 0 or yv[1] < 0):
        return
    vs = [math.atan2(float(b), float(a)) for a in xv for b in yv]
    if max(vs) - min(vs) > 3.2:
        return
    at.lo = max(at.lo, _shorter(Fr(min(vs)) - Fr(1, 10 ** 12), -1))
    at.hi = min(at.hi, _shorter(Fr(max(vs)) + Fr(1, 10 ** 12), 1))


def sacos(x, checked=False, sin=None):
    x = lift(x)
    if x.sp:
        return NAN
    if x.is_const():
        c = x.const()
        tab = {ONE: ZERO, -ONE: ONE, ZERO: Fr(1, 2), Fr(1, 2): Fr(1, 3), Fr(-1, 2): Fr(2, 3)}
        if c in tab:
            return PI * tab[c]
        if abs(c) > 1:
            return NAN
    eng = CTX.eng
    if not checked:
        lo, hi = x.iv()
        if hi is None or hi > 1:
            if compare('>', x, lift(1)) and True:
                return NAN
        if lo is None or lo < -1:
            if compare('<', x, lift(-1)) and True:
                return NAN
    if not x.uvars():
        v = math.acos(max(-1, min(1, neval(x, {}))))
        q = v / math.pi * 24
        if abs(q - round(q)) < 1e-12:
            return PI * Fr(round(q), 24)
        if len(x.t) == 1:
            # the cosine or sine of a constant
            (m, k), = x.t.items()
            if abs(k) == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('cos', 'sin'):
                at = ATOMS[m[0][0]]
                a = lift(at.args[0])
                if at.kind == 'sin':
                    a = PI / 2 - a
                if k < 0:
                    a = PI - a
                n = round(neval(a, {}) / (2 * math.pi))
                a = a - 2 * n * PI
                f = neval(a, {})
                if abs(abs(f) - v) < 1e-9:
                    return a if f >= 0 else -a
    for (T, c, s) in reversed(eng.angles):
        for (p, off) in ((c, lift(0)), (-c, PI), (s, -PI / 2), (-s, PI / 2)):
            if not (x - p).t:
                A = wrap_pi(T + off)
                if compare('<', A, lift(0)) and True:
                    return -A
                return A
    at = mk_atom('acos', (x,), lo=0, hi=Fr('3.14159265358979324'))
    if not at.uvars:
        v = Fr(math.acos(max(-1, min(1, neval(x, {})))))
        at.lo, at.hi = max(ZERO, v - Fr(1, 10 ** 8)), v + Fr(1, 10 ** 8)
    else:
        lo, hi = x.iv()
        if hi is not None and hi < 1:
            at.lo = max(at.lo, _shorter(Fr(math.acos(max(-1., float(hi)))) - _aeps(hi), -1))
        if lo is not None and lo > -1:
            at.hi = min(at.hi, _shorter(Fr(math.acos(min(1., float(lo)))) + _aeps(lo), 1))
    if sin is not None and at.extra is None:
        at.extra = sin
    eng.note_acos(at)
    return SR({((at.id, 1),): ONE})


def sasin(x):
    x = lift(x)
    r = sacos(x)
    return NAN if r.sp else PI / 2 - r


def satan(x):
    x = lift(x)
    if x.sp:
        return {'nan': NAN, '+inf': PI / 2, '-inf': -PI / 2}[x.sp]
    return satan2(x, lift(1))


# ---------------------------------------------------------- numeric evaluation
def _fn_num(name, a):
    try:
        if name == 'cut':
            return a[0]
        if name == 'exp':
            return math.exp(a[0])
        if name == 'exp10':
            return 10.0 ** a[0]
        if name == 'pow2':
            return 2.0 ** a[0]
        if name == 'log10':
            return math.log10(a[0])
        if name == 'log':
            return math.log(a[0])
        if name == 'tanh':
            return math.tanh(a[0])
        if name == 'pow':
            return a[0] ** float(a[1])
        if name.startswith('normpdf'):
            x, m, s = a
            return math.exp(-((x - m) / s) ** 2 / 2) / math.sqrt(2 * math.pi) / s
    except (ValueError, OverflowError, ZeroDivisionError):
        return math.nan
    raise Unsupported(f'numeric value of {name}')


def neval(x, env, memo=None):
    """float value of x under env {var atom id: float}"""
    if memo is None:
        memo = {}
    if x.sp:
        return x.float()

    def atom(i):
        if i in memo:
            return memo[i]
        at = ATOMS[i]
        k = at.kind
        if k == 'var':
            v = env[i]
        elif k == 'pi':
            v = math.pi
        else:
            a = [poly(p) if isinstance(p, SR) else p for p in at.args]
            try:
                if k == 'sqrt':
                    v = math.sqrt(a[0]) if a[0] > 0 else 0.0
                elif k == 'recip':
                    v = 1 / a[0]
                elif k == 'cos':
                    v = math.cos(a[0])
                elif k == 'sin':
                    v = math.sin(a[0])
                elif k == 'acos':
                    v = math.acos(max(-1.0, min(1.0, a[0])))
                elif k == 'atan2':
                    v = math.atan2(a[0], a[1])
                elif k.startswith('fn_'):
                    v = _fn_num(k[3:], a)
                else:
                    raise Unsupported(k)
            except (ZeroDivisionError, ValueError, OverflowError):
                v = math.nan
        memo[i] = v
        return v

    def poly(p):
        s = []
        for m, c in p.t.items():
            v = float(c)
            for i, e in m:
                b = atom(i)
                try:
                    v *= b ** e
                except (ZeroDivisionError, OverflowError):
                    return math.nan
            s.append(v)
        try:
            return math.fsum(s)
        except (OverflowError, ValueError):
            return math.nan
    return poly(x)


def beval(b, env, memo=None):
    if memo is None:
        memo = {}
    if b.op == 'const':
        return b.p
    if b.op == 'and':
        return all(beval(k, env, memo) for k in b.kids)
    if b.op == 'or':
        return any(beval(k, env, memo) for k in b.kids)
    v = neval(b.p, env, memo)
    return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': abs(v) < 1e-12,
            '!=': v != 0}[b.op]
