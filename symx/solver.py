"""SMT back end: translation of terms, atom axioms, query portfolio."""
import os
import subprocess
import time
from fractions import Fraction as Fr

import z3

from . import terms as T
from .terms import SR, SB, ATOMS, ONE

RV = z3.RealVal


def _q(c):
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else RV(c.numerator)


class Tr:
    """translates polynomials to z3; one instance per process"""

    def __init__(self):
        self.v = {}
        self.inv = {}
        self.pc = {}

    def var(self, i):
        x = self.v.get(i)
        if x is None:
            x = self.v[i] = z3.Real(f'a{i}')
        return x

    def ivar(self, i):
        x = self.inv.get(i)
        if x is None:
            x = self.inv[i] = z3.Real(f'i{i}')
        return x

    def mono(self, m):
        fs = []
        for i, e in m:
            b = self.var(i) if e > 0 else self.ivar(i)
            fs.extend([b] * abs(e))
        if len(fs) == 1:
            return fs[0]
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def poly(self, p):
        k = p.key()
        r = self.pc.get(k)
        if r is not None:
            return r
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(_q(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(_q(c) * self.mono(m))
        r = z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else RV(0))
        self.pc[k] = r
        return r

    def sb(self, b):
        op = b.op
        if op == 'const':
            return z3.BoolVal(b.p)
        if op == 'and':
            return z3.And(*[self.sb(k) for k in b.kids])
        if op == 'or':
            return z3.Or(*[self.sb(k) for k in b.kids])
        # scale away denominators
        p = b.p
        x = self.poly(p)
        return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0,
                '==': x == 0, '!=': x != 0}[op]


TR = Tr()
_AX = {}


def S(p, op):
    return TR.sb(SB(op, p))


def _lo_hi(at, v):
    out = []
    if at.lo is not None:
        out.append(v >= _q(at.lo))
    if at.hi is not None:
        out.append(v <= _q(at.hi))
    return out


def axioms(i):
    """(z3 formulas, atoms they mention) for atom i"""
    at = ATOMS[i]
    nthr = len(at.ax.get('thr', ()))
    hit = _AX.get(i)
    if hit is not None and hit[2] == nthr:
        return hit[0], hit[1]
    v = TR.var(i)
    fs = _lo_hi(at, v)
    deps = set()
    k = at.kind

    def use(*ps):
        for p in ps:
            deps.update(p.atoms())

    pi = TR.var(T.PI_ID)
    if k == 'sqrt':
        p = at.args[0]
        use(p)
        fs += [v >= 0, v * v == TR.poly(p)]
    elif k == 'recip':
        p = at.args[0]
        use(p)
        fs += [v * TR.poly(p) == 1]
    elif k == 'cos':
        ang = at.args[0]
        use(ang)
        deps.add(at.extra)
        deps.add(T.PI_ID)
        c, s = v, TR.var(at.extra)
        fs += [c * c + s * s == 1, s >= -1, s <= 1]
        if ang.uvars():
            t = TR.poly(ang)
            fs += [
                z3.Implies(z3.And(t >= 0, t <= pi), z3.And(s >= 0, s <= t, 2 * (1 - c) <= t * t)),
                z3.Implies(z3.And(t <= 0, t >= -pi), z3.And(s <= 0, s >= t, 2 * (1 - c) <= t * t)),
                z3.Implies(z3.And(t > 0, t < pi), s > 0),
                z3.Implies(z3.And(t < 0, t > -pi), s < 0),
                z3.Implies(z3.And(t >= -pi / 2, t <= pi / 2), c >= 0),
                z3.Implies(z3.And(t > -pi / 2, t < pi / 2), c > 0),
                z3.Implies(z3.And(t > pi / 2, t < 3 * pi / 2), c < 0),
                z3.Implies(z3.And(t < -pi / 2, t > -3 * pi / 2), c < 0),
                z3.Implies(z3.And(t > pi, t < 2 * pi), s < 0),
                z3.Implies(z3.And(t < -pi, t > -2 * pi), s > 0),
                z3.Implies(t == 0, c == 1),
                z3.Implies(z3.Or(t == pi, t == -pi), c == -1),
                z3.Implies(z3.Or(t == pi / 2, t == -pi / 2), c == 0),
                z3.Implies(z3.And(t >= -pi / 4, t <= pi / 4), z3.And(c >= s, c >= -s)),
                z3.Implies(z3.And(t >= pi / 4, t <= pi / 2), c <= s),
            ]
    elif k == 'sin':
        deps.add(at.extra)
    elif k == 'acos':
        x = at.args[0]
        use(x)
        deps.add(T.PI_ID)
        X = TR.poly(x)
        fs += [v <= pi, X <= 1, X >= -1,
               z3.Implies(X > 0, v < pi / 2), z3.Implies(X < 0, v > pi / 2),
               z3.Implies(X == 0, v == pi / 2), z3.Implies(X == 1, v == 0),
               z3.Implies(v == 0, X == 1), z3.Implies(X == -1, v == pi), z3.Implies(v == pi, X == -1),
               2 * (1 - X) <= v * v, (1 - X) * pi * pi >= 2 * v * v,
               2 * (1 + X) <= (pi - v) * (pi - v), (1 + X) * pi * pi >= 2 * (pi - v) * (pi - v),
               z3.Implies(X >= 0, v >= (1 - X) * pi / 2),
               z3.Implies(X <= 0, v <= (1 - X) * pi / 2)]
        for th in list(at.ax.get('thr', {}).values()):
            tv = T.neval(th, {})
            if 0 < tv < 3.141592653589793:
                c = T.strig(th)[0]
                use(c, th)
                C = TR.poly(c)
                fs += [(v < TR.poly(th)) == (X > C), (v == TR.poly(th)) == (X == C)]
    elif k == 'atan2':
        y, x = at.args
        use(x, y)
        deps.add(T.PI_ID)
        X, Y = TR.poly(x), TR.poly(y)
        fs += [v <= pi, v > -pi,
               (v > 0) == z3.Or(Y > 0, z3.And(Y == 0, X < 0)),
               (v < 0) == (Y < 0),
               (v == pi) == z3.And(Y == 0, X < 0),
               z3.And(v < pi / 2, v > -pi / 2) == z3.Or(X > 0, z3.And(X == 0, Y == 0)),
               z3.Or(v == pi / 2, v == -pi / 2) == z3.And(X == 0, Y != 0),
               z3.Implies(X > 0, z3.And((v < pi / 4) == (Y < X), (v == pi / 4) == (Y == X),
                                        (v > -pi / 4) == (Y > -X), (v == -pi / 4) == (Y == -X))),
               z3.Implies(X < 0, z3.And((v == 3 * pi / 4) == (Y == -X), (v == -3 * pi / 4) == (Y == X),
                                        z3.Implies(Y >= 0, (v < 3 * pi / 4) == (Y > -X)),
                                        z3.Implies(Y < 0, (v > -3 * pi / 4) == (Y < X)))),
               ]
        if at.uvars:
            # |t| <= |y|/x near the positive axis, |y| <= t r
            fs += [z3.Implies(z3.And(X > 0, Y >= 0), v * X <= Y),
                   z3.Implies(z3.And(X > 0, Y <= 0), v * X >= Y)]
    elif k.startswith('fn_'):
        name = k[3:]
        ps = [a for a in at.args if isinstance(a, SR)]
        use(*ps)
        a = TR.poly(at.args[0]) if ps else None
        if at.uvars:
            if name == 'cut':
                if len(at.args[0].t) < 40:
                    fs += [v == a]
            elif name in ('exp', 'exp10', 'pow2'):
                fs += [v > 0, (v > 1) == (a > 0), (v < 1) == (a < 0)]
                if name == 'exp':
                    fs += [v >= 1 + a]
            elif name in ('log', 'log10'):
                fs += [(v > 0) == (a > 1), (v < 0) == (a < 1)]
                fs += [v <= a - 1] if name == 'log' else [2 * v <= a - 1]
                if name == 'log10':
                    fs += [z3.Implies(a >= 10, v >= 1), z3.Implies(a <= 10, v <= 1)]
            elif name == 'tanh':
                fs += [v < 1, v > -1, (v > 0) == (a > 0), (v < 0) == (a < 0)]
            elif name == 'pow':
                q = at.args[1]
                fs += [v > 0]
                if q > 0:
                    fs += [(v > 1) == (a > 1), (v < 1) == (a < 1)]
                    if q < 1:
                        fs += [z3.Implies(a >= 1, v <= a), z3.Implies(a <= 1, v >= a)]
                    else:
                        fs += [z3.Implies(a >= 1, v >= a), z3.Implies(a <= 1, v <= a)]
                else:
                    fs += [(v > 1) == (a < 1), (v < 1) == (a > 1)]
            elif name.startswith('normpdf'):
                fs += [v > 0]
    _AX[i] = (fs, deps, nthr)
    return fs, deps


def _mono_pairs(ids):
    """monotonicity between values of the same function"""
    out = []
    by = {}
    for i in ids:
        at = ATOMS[i]
        if at.kind in ('acos', 'fn_exp', 'fn_exp10', 'fn_log10', 'fn_log', 'fn_tanh', 'sqrt'):
            by.setdefault(at.kind, []).append(i)
        elif at.kind == 'fn_pow':
            by.setdefault((at.kind, at.args[1]), []).append(i)
    for k, l in by.items():
        if len(l) > 5:
            continue
        for a in range(len(l)):
            for b in range(a):
                x, y = ATOMS[l[a]], ATOMS[l[b]]
                if not x.uvars and not y.uvars:
                    continue
                X, Y = TR.poly(x.args[0]), TR.poly(y.args[0])
                vx, vy = TR.var(l[a]), TR.var(l[b])
                dec = k == 'acos' or (isinstance(k, tuple) and k[1] < 0)
                if dec:
                    out.append((X < Y) == (vx > vy))
                else:
                    out.append((X < Y) == (vx < vy))
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.memo = 0
        self.by = {}

    def add(self, r, t, who):
        self.queries += 1
        self.time += t
        if r == 'sat':
            self.sat += 1
        elif r == 'unsat':
            self.unsat += 1
        else:
            self.unknown += 1
        self.by[who] = self.by.get(who, 0) + 1


STATS = Stats()


def closure(sbs, base=()):
    """all atoms reachable from the constraints"""
    todo = set(base)
    for b in sbs:
        for p in b.polys():
            todo |= p.atoms()
    seen = set()
    fs = []
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f, d = axioms(i)
        fs.append((i, f))
        todo |= (d - seen)
    return seen, fs


def _neg_exp(sbs):
    out = set()
    for b in sbs:
        for p in b.polys():
            for m in p.t:
                for i, e in m:
                    if e < 0:
                        out.add(i)
    return out


def build(sbs):
    """all z3 formulas for the conjunction of sbs"""
    seen, fs = closure(sbs)
    out = [TR.sb(b) for b in sbs]
    neg = _neg_exp(sbs)
    for i, f in fs:
        out += f
        for p in ATOMS[i].args:
            if isinstance(p, SR):
                for m in p.t:
                    for j, e in m:
                        if e < 0:
                            neg.add(j)
    # rule atoms (unit vectors): z^2 = rule
    for i in seen:
        at = ATOMS[i]
        if at.kind == 'var' and at.rule is not None:
            out.append(TR.var(i) * TR.var(i) == TR.poly(at.rule))
            for j in at.rule.atoms():
                if j not in seen:
                    out += axioms(j)[0]
        if at.kind == 'acos' and at.extra is not None:
            for m in at.extra.t:
                for j, e in m:
                    if e < 0:
                        neg.add(j)
        # cos thresholds may use constants with negative exponents
        for th in at.ax.get('thr', {}).values():
            for m in th.t:
                for j, e in m:
                    if e < 0:
                        neg.add(j)
    for i in neg:
        x, y = TR.var(i), TR.ivar(i)
        out.append(x * y == 1)
        at = ATOMS[i]
        lo, hi = T._ipow((at.lo, at.hi), -1)
        if lo is not None:
            out.append(y >= _q(lo))
        if hi is not None:
            out.append(y <= _q(hi))
    out += _mono_pairs(seen)
    return out, seen


def _run(tactic, fs, timeout):
    t0 = time.time()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout * 1000))
    try:
        s.set('max_memory', 3000)
    except z3.Z3Exception:
        pass
    s.add(fs)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    m = s.model() if r == 'sat' else None
    STATS.add(r, time.time() - t0, tactic or 'z3')
    return r, m


def check(sbs, timeout=5.0, portfolio=('qfnra-nlsat', None), want_model=False):
    """sat / unsat / unknown for the conjunction of sbs under the axioms"""
    fs, seen = build(sbs)
    r, m = 'unknown', None
    for tac in portfolio:
        r, m = _run(tac, fs, timeout)
        if r != 'unknown':
            break
    if r == 'unknown' and os.environ.get('SYMX_CVC5') and timeout >= 5:
        r2 = _cvc5(fs, timeout)
        if r2 == 'unsat':
            r = r2
    return r, m


FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}


def clear(b):
    """an equivalent comparison without divisors of known sign"""
    if b.kids is not None or b.op == 'const':
        return b
    for _ in range(4):
        t = b.p.t
        for i in {i for m in t for i, e in m if e > 0 and ATOMS[i].kind == 'recip'}:
            if max(e for m in t for j, e in m if j == i) > 1:
                continue
            d = ATOMS[i].args[0]
            lo, hi = d.iv()
            if lo is not None and lo >= 0:
                op = b.op
            elif hi is not None and hi <= 0:
                op = FLIP.get(b.op, b.op)
            else:
                continue
            a, r = {}, {}
            for m, c in t.items():
                if any(j == i for j, e in m):
                    a[tuple(x for x in m if x[0] != i)] = c
                else:
                    r[m] = c
            b = T.SB(op, T.SR(a) + T.SR(r) * d)
            break
        else:
            return b
        if b.static() is not None:
            return b
    return b


def check_interval(goal, sbs):
    """abstraction: every non-linear monomial becomes a fresh variable confined
    to its interval; unsat proves the goal's negation impossible"""
    t0 = time.time()
    goal, sbs = clear(goal), [clear(b) for b in sbs]
    if goal.static() is not None:
        return 'sat' if goal.static() else 'unsat'
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 2000)
    mv = {}

    def tr(b):
        if b.op == 'const':
            return z3.BoolVal(b.p)
        if b.kids is not None:
            ks = [tr(k) for k in b.kids]
            return z3.And(*ks) if b.op == 'and' else z3.Or(*ks)
        ts = []
        for m, c in b.p.t.items():
            if not m:
                ts.append(_q(c))
                continue
            v = mv.get(m)
            if v is None:
                v = mv[m] = z3.Real('m%d' % len(mv))
                lo, hi = T.mono_iv(m)
                if lo is not None:
                    s.add(v >= _q(lo))
                if hi is not None:
                    s.add(v <= _q(hi))
            ts.append(_q(c) * v)
        x = z3.Sum(*ts) if ts else RV(0)
        return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0,
                '==': x == 0, '!=': x != 0}[b.op]
    s.add(tr(goal))
    ms = set(mv)
    for b in sbs:
        # only constraints over the same monomials
        if b.static() is not True and all(set(p.t) - {()} <= ms for p in b.polys()):
            s.add(tr(b))
    r = str(s.check())
    STATS.add(r, time.time() - t0, 'lra-abstraction')
    return r


def _cvc5(fs, timeout):
    t0 = time.time()
    s = z3.Solver()
    s.add(fs)
    txt = '(set-logic QF_NRA)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(timeout*1000)}', '-'],
                           input=txt, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        r = out[0] if out and out[0] in ('sat', 'unsat') and '(error' not in p.stdout else 'unknown'
    except Exception:
        r = 'unknown'
    STATS.add(r, time.time() - t0, 'cvc5')
    return r


def val(m, i):
    """float value of atom i in model m"""
    x = m.eval(TR.var(i), model_completion=True)
    try:
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        if z3.is_algebraic_value(x):
            return float(x.approx(20).as_fraction())
        return float(x.as_decimal(20).rstrip('?'))
    except Exception:
        return 0.0
