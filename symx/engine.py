"""Path exploration by decision-prefix re-execution, with SMT feasibility."""
import math
import random
import time
import traceback
from fractions import Fraction as Fr

from . import solver, terms as T
from .terms import SR, SB, ATOMS, CTX, AND, PathAbort, Restart, Unsupported, lift, neval, beval


class Infeasible(PathAbort):
    pass


class Budget(PathAbort):
    pass


class Root:
    def __init__(self, subst=None, assume=()):
        self.subst = subst or {}
        self.assume = list(assume)


_FEAS = {}


class Engine:
    fmtfloat = True

    def __init__(self, seed=1, max_paths=4000, budget=300., feas_timeout=1.0,
                 check_timeout=15.0, npoints=40):
        self.seed = seed
        self.max_paths = max_paths
        self.deadline = time.time() + budget
        self.feas_timeout = feas_timeout
        self.check_timeout = check_timeout
        self.npoints = npoints
        self.paths = 0
        self.decisions = 0
        self.zero_div = 0
        self.restarts = 0
        self.truncated = False
        self.tokens = {}
        self.arcsub = {}

    # ------------------------------------------------------------------ driver
    def explore(self, fn, on_path):
        """fn(env) is executed once per feasible path; on_path(engine, result, exc)"""
        CTX.eng = self
        todo = [(Root(), ())]
        try:
            while todo:
                if self.paths >= self.max_paths or time.time() > self.deadline:
                    self.truncated = True
                    break
                root, prefix = todo.pop()
                self._begin(root, prefix)
                exc = None
                res = None
                try:
                    res = fn(self)
                except Restart:
                    # trigonometric unit refined: start over
                    self.restarts += 1
                    if self.restarts > 8:
                        raise RuntimeError("too many restarts")
                    todo = [(Root(), ())]
                    self.paths = 0
                    on_path(self, None, 'restart')
                    continue
                except Infeasible:
                    todo.extend(self.spawn)
                    continue
                except Budget:
                    self.truncated = True
                    break
                except PathAbort:
                    raise
                except Exception as ex:          # noqa: the code under test raised
                    exc = ex
                    exc._tb = traceback.format_exc()
                self.paths += 1
                on_path(self, res, exc)
                todo.extend(self.spawn)
        finally:
            CTX.eng = None

    def _begin(self, root, prefix):
        self.root = root
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.spawn = []
        self.inputs = {}        # name -> ('real', SR) etc.
        self.choices = {}
        self.angles = []
        self.atan2s = []
        self.acoss = []
        self.ucount = 0
        self.arcsub = {}
        self.tokens = {}
        self.points = None
        self._assumed = False
        self.rng = random.Random(self.seed)
        for b in root.assume:
            self.pc.append(b)

    # ------------------------------------------------------------------ inputs
    def new_var(self, name, lo=None, hi=None, rule=None):
        key = (name, None if rule is None else rule.key())
        at = T.mk_atom('var', key, name=name, lo=lo, hi=hi)
        if at.lo is None and lo is not None:
            at.lo = Fr(lo)
        if at.hi is None and hi is not None:
            at.hi = Fr(hi)
        if rule is not None and at.rule is None:
            at.rule = rule
        return SR({((at.id, 1),): T.ONE})

    def real(self, name, lo=None, hi=None):
        if name in self.root.subst:
            v = self.root.subst[name]
            self.inputs[name] = v
            if v.uvars():
                # keep the declared range
                if lo is not None:
                    self.assume(T.compare('>=', v, lift(Fr(lo))))
                if hi is not None:
                    self.assume(T.compare('<=', v, lift(Fr(hi))))
            return v
        nm = f'{name}[{lo},{hi}]'
        v = self.new_var(nm, lo, hi)
        self.inputs[name] = v
        self._names[next(iter(v.atoms()))] = name
        return v

    _names = {}

    def unit(self, names):
        """symbolic unit vector"""
        sub = self.root.subst
        vals = {}
        free = [n for n in names if n not in sub]
        for n in names:
            if n in sub:
                vals[n] = sub[n]
        tot = lift(1)
        for n in names:
            if n in vals:
                tot = tot - vals[n] * vals[n]
        if not free:
            for n in names:
                self.inputs[n] = vals[n]
            self.assume(T.compare('==', tot, lift(0)))
            return [vals[n] for n in names]
        last = free[-1]
        for n in free[:-1]:
            nm = f'{n}(unit)'
            v = self.new_var(nm, -1, 1)
            self._names[next(iter(v.atoms()))] = n
            vals[n] = v
            tot = tot - v * v
        if tot.is_const():
            c = tot.const()
            if c < 0:
                raise Infeasible()
            r = T.ssqrt(tot)
            if c == 0 or self.choose_bool(f'{last}>0'):
                vals[last] = r
            else:
                vals[last] = -r
        else:
            self.assume(T.compare('>=', tot, lift(0)))
            nm = f'{last}(unit)'
            v = self.new_var(nm, -1, 1, rule=tot)
            self._names[next(iter(v.atoms()))] = last
            vals[last] = v
        for n in names:
            self.inputs[n] = vals[n]
        return [vals[n] for n in names]

    def choose_bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        """fork over a list of python values (no solver)"""
        n = len(self.trace)
        if n < len(self.prefix):
            k = self.prefix[n]
        else:
            k = 0
            for j in range(len(options) - 1, 0, -1):
                self.spawn.append((self.root, tuple(self.trace) + (j,)))
        self.trace.append(k)
        self.choices[name] = k
        return options[k]

    def assume(self, b):
        b = T.B(b)
        v = b.static()
        if v is True:
            return
        if v is False:
            raise Infeasible()
        self.pc.append(b)
        self.points = None if self.points is None else self._filter(self.points, b)
        if len(self.trace) >= len(self.prefix):
            if not (self.points) and self._feasible([]) == 'unsat':
                raise Infeasible()

    # ------------------------------------------------------------ sample points
    def _gen_points(self):
        pts = []
        vs = self._all_vars()
        for k in range(self.npoints):
            env = {}
            for i in sorted(vs):
                at = ATOMS[i]
                lo = float(at.lo) if at.lo is not None else None
                hi = float(at.hi) if at.hi is not None else None
                if at.rule is not None:
                    continue
                r = random.Random(f'{self.seed}-{at.name}-{k}')
                if lo is None and hi is None:
                    v = r.choice([r.uniform(-3, 3), r.uniform(-1, 1), r.uniform(-40, 40)])
                elif lo is None:
                    v = hi - abs(r.gauss(0, 3))
                elif hi is None:
                    v = lo + abs(r.gauss(0, 3)) * r.choice([.1, 1, 10])
                else:
                    u = r.random()
                    if k % 4 == 3:
                        u = u ** 4
                    elif k % 4 == 2:
                        u = 1 - u ** 4
                    v = lo + (hi - lo) * u
                    if k % 8 == 1:
                        v /= 20 if lo <= 0 <= hi else 1
                env[i] = v
            ok = True
            for i in sorted(vs):
                at = ATOMS[i]
                if at.rule is not None:
                    # scale the free components of this unit vector into the ball
                    q = neval(at.rule, env)
                    tries = 0
                    while q < 0 and tries < 20:
                        for j in at.rule.uvars():
                            env[j] *= .7
                        q = neval(at.rule, env)
                        tries += 1
                    if q < 0:
                        ok = False
                        break
                    r = random.Random(f'{self.seed}-{at.name}-{k}')
                    env[i] = math.sqrt(q) * r.choice([-1, 1])
            if ok:
                pts.append(env)
        return pts

    def _all_vars(self):
        vs = set()
        for v in self.inputs.values():
            if isinstance(v, SR):
                vs |= v.uvars()
        return vs

    def _filter(self, pts, b):
        out = []
        for e in pts:
            try:
                if beval_margin(b, e):
                    out.append(e)
            except KeyError:
                continue
        return out

    def _points(self, need):
        """points satisfying the path condition that define the variables in need"""
        if self.points is None or (self.points and any(i not in self.points[0] for i in need)):
            pts = self._gen_points()
            for b in self.pc:
                pts = self._filter(pts, b)
            self.points = pts
        return self.points

    # ------------------------------------------------------------- decisions
    @staticmethod
    def _ruled(vs):
        """with the other components of unit vectors"""
        out = set(vs)
        for i in vs:
            r = ATOMS[i].rule
            if r is not None:
                out |= r.uvars()
        return out

    def _cone(self, q):
        vs = set()
        for b in q:
            vs |= self._ruled(b.uvars())
        rest = list(self.pc)
        sel = []
        changed = True
        while changed:
            changed = False
            nr = []
            for b in rest:
                bv = self._ruled(b.uvars())
                if bv & vs:
                    sel.append(b)
                    if not bv <= vs:
                        vs |= bv
                        changed = True
                else:
                    nr.append(b)
            rest = nr
        return sel

    def _feasible(self, extra, timeout=None):
        if extra:
            cs = self._cone(extra) + list(extra)
        else:
            cs = list(self.pc)
        key = frozenset(c.key() for c in cs)
        r = _FEAS.get(key)
        if r is None:
            r = 'sat'
            if len(extra) == 1:
                r = solver.check_interval(extra[0], cs[:-1])
            if r != 'unsat':
                r, m = solver.check(cs, timeout or self.feas_timeout)
            _FEAS[key] = r
        else:
            solver.STATS.memo += 1
        return r

    def decide(self, sb):
        v = sb.static()
        if v is not None:
            return v
        n = len(self.trace)
        if n < len(self.prefix):
            k = self.prefix[n]
            self.trace.append(k)
            self._take(sb, k)
            return k in (1, 3)
        if time.time() > self.deadline:
            raise Budget()
        self.decisions += 1
        neg = sb.neg()
        eq = sb.op in ('==', '!=')
        if not sb.uvars():
            # constants only
            r = solver.check([sb], 2.0)[0]
            k = 2 if r == 'unsat' else 3
            if r == 'unknown':
                val = beval(sb, {})
                k = 3 if val else 2
            self.trace.append(k)
            return k == 3
        pts = self._points(sb.uvars())
        t = f = None
        for e in pts:
            x = beval_margin(sb, e)
            if x:
                t = True
            elif beval_margin(neg, e):
                f = True
            if t and f:
                break
        if t is None:
            r = self._feasible([sb])
            t = r != 'unsat'
        if f is None:
            r = self._feasible([neg])
            f = r != 'unsat'
        if t and f:
            if eq:
                # the equality branch becomes a new root with a substitution
                root = self._subst_root(sb.p)
                if root is not None:
                    self.spawn.append((root, ()))
                    k = 0 if sb.op == '==' else 1
                else:
                    k = 0 if sb.op == '==' else 1
                    self.spawn.append((self.root, tuple(self.trace) + (1 - k,)))
            else:
                k = 1
                self.spawn.append((self.root, tuple(self.trace) + (0,)))
        elif t:
            k = 3
        elif f:
            k = 2
        else:
            raise Infeasible()
        self.trace.append(k)
        self._take(sb, k)
        return k in (1, 3)

    def _take(self, sb, k):
        """k: 1 true, 0 false (both were possible); 3/2 forced true/false"""
        if k in (1, 0):
            b = sb if k == 1 else sb.neg()
            self.pc.append(b)
            if b.op == '==':
                self._note_eq(b.p)
            elif b.op in ('>=', '<=') and self._pinned(b):
                self._note_eq(b.p)
            if self.points is not None:
                self.points = self._filter(self.points, b)

    def _pinned(self, b):
        """the path also holds the opposite bound: b.p is 0 here"""
        def norm(q):
            m = min(q.p.t)
            c = q.p.t[m]
            return frozenset((k, v / c) for k, v in q.p.t.items()), (c > 0) == (q.op == '>=')
        k, up = norm(b)
        for c in self.pc:
            if c.op in ('>=', '<=') and c.p is not None and len(c.p.t) == len(b.p.t) \
                    and norm(c) == (k, not up):
                return True
        return False

    def _note_eq(self, p):
        """an arc equal to a constant on this path is replaced from here on"""
        arc = [i for i in p.atoms() if ATOMS[i].kind in T._ARCS and ATOMS[i].uvars]
        if len(arc) != 1 or any(ATOMS[i].uvars for i in p.atoms() if i != arc[0]):
            return
        m0 = ((arc[0], 1),)
        if m0 not in p.t or any(dict(m).get(arc[0]) for m in p.t if m != m0):
            return
        self.arcsub[arc[0]] = SR({m: -c / p.t[m0] for m, c in p.t.items() if m != m0})

    def _subst_root(self, p):
        """p == 0 solved for an input that occurs linearly with a constant
        coefficient, the rest being inputs only"""
        for m, c in sorted(p.t.items(), key=lambda mc: -len(mc[0])):
            if len(m) == 1 and m[0][1] == 1:
                at = ATOMS[m[0][0]]
                if at.kind != 'var' or at.id not in self._names:
                    continue
                rest = {mm: -cc / c for mm, cc in p.t.items() if mm != m}
                ok = True
                for mm in rest:
                    for i, e in mm:
                        a2 = ATOMS[i]
                        if i == at.id or e < 0 or a2.kind not in ('var', 'pi'):
                            ok = False
                        if at.rule is not None or a2.rule is not None:
                            ok = ok and not rest
                if not ok:
                    continue
                if at.name.endswith('(unit)') and rest and set(rest) != {()}:
                    continue
                name = self._names[at.id]
                sub = dict(self.root.subst)
                val = SR(rest)
                if name in sub:
                    continue
                # earlier substitutions that mention this variable
                bad = any(at.id in v.uvars() for v in sub.values())
                if bad:
                    continue
                if not rest or set(rest) == {()}:
                    c0 = rest.get((), T.ZERO)
                    if (at.lo is not None and c0 < at.lo) or (at.hi is not None and c0 > at.hi):
                        return Root({'__none__': 0}, [SB('const', False)])
                sub[name] = val
                assume = []
                for b in self.pc:
                    nb = subst_sb(b, at.id, val)
                    if nb is None:
                        continue            # weaker, still covers
                    assume.append(nb)
                # a unit vector loses a component: its rule variable changes,
                # so constraints over it are dropped (over-approximation)
                if at.name.endswith('(unit)'):
                    assume = [b for b in assume if not self._mentions_rule(b)]
                return Root(sub, assume)
        return None

    def _mentions_rule(self, b):
        return any(ATOMS[i].rule is not None for i in b.uvars())

    def pick_floor(self, x):
        lo, hi = x.iv()
        if lo is None or hi is None or hi - lo > 4096:
            pts = self._points(x.uvars())
            vs = [neval(x, e) for e in pts]
            vs = [v for v in vs if v == v]
            if lo is None:
                lo = Fr(math.floor(min(vs)) - 2) if vs else Fr(-8)
            if hi is None:
                hi = Fr(math.floor(max(vs)) + 2) if vs else Fr(8)
            # widen until nothing lies outside
            for _ in range(12):
                if self._feasible([T.SB('<', x - lo)]) == 'unsat':
                    break
                lo = lo - max(8, (hi - lo))
            for _ in range(12):
                if self._feasible([T.SB('>', x - hi)]) == 'unsat':
                    break
                hi = hi + max(8, (hi - lo))
        a, b = math.floor(lo), math.floor(hi)
        if b - a > 4096:
            raise Unsupported(f"integer range too wide for {x!r}")
        while a < b:
            mid = (a + b + 1) // 2
            if bool(T.compare('>=', x, lift(mid))):
                a = mid
            else:
                b = mid - 1
        return a

    # -------------------------------------------------------------- bookkeeping
    def note_angle(self, ang, c, s):
        k = ang.key()
        for a, _, _ in self.angles:
            if a.key() == k:
                return
        self.angles.append((ang, c, s))

    def note_atan2(self, at):
        if at not in self.atan2s:
            self.atan2s.append(at)
            t = SR({((at.id, 1),): T.ONE})
            c, s = T.arc_cs(at)
            self.note_angle(t, c, s)

    def note_acos(self, at):
        if at not in self.acoss:
            self.acoss.append(at)
            t = SR({((at.id, 1),): T.ONE})
            c, s = T.arc_cs(at)
            self.note_angle(t, c, s)

    def note_fn(self, at):
        pass

    def token(self, sr, spec):
        """placeholder text for a symbolic number written into a string"""
        for k, v in self.tokens.items():
            if v is sr or v.key() == sr.key():
                return k
        k = '@%03d' % len(self.tokens)
        self.tokens[k] = sr
        return k


def subst_sb(b, vid, val):
    if b.op == 'const':
        return b
    if b.kids is not None:
        ks = [subst_sb(k, vid, val) for k in b.kids]
        if any(k is None for k in ks):
            return None
        return SB(b.op, kids=ks)
    p = b.p
    for i in p.atoms():
        if ATOMS[i].kind not in ('var', 'pi') and vid in ATOMS[i].uvars:
            return None
    out = lift(0)
    for m, c in p.t.items():
        term = SR({(): c})
        for i, e in m:
            if i == vid:
                if e < 0:
                    return None
                for _ in range(e):
                    term = term * val
            else:
                term = term * SR({((i, e),): T.ONE})
        out = out + term
    return SB(b.op, out)


def beval_margin(b, env, eps=1e-9):
    """b holds at env with a margin"""
    if b.op == 'const':
        return b.p
    if b.op == 'and':
        return all(beval_margin(k, env, eps) for k in b.kids)
    if b.op == 'or':
        return any(beval_margin(k, env, eps) for k in b.kids)
    v = neval(b.p, env)
    if v != v:
        return False
    if b.op == '==':
        return False
    if b.op == '!=':
        return abs(v) > eps
    return v < -eps if b.op in ('<', '<=') else v > eps
