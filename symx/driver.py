"""Runs one task: explore all paths, discharge the obligations, replay."""
import json
import math
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction as Fr

import numpy as np

from . import api, engine, facade, fresh, loader, solver, terms as T
from .symenv import SymEnv
from .terms import ATOMS, SR, AND, OR, B, beval, lift, neval

VENV_PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def confirm(prop, task, values, choices):
    """fresh interpreter, the project's own environment, unmodified code"""
    job = dict(prop=prop, task=task, values=values, choices=choices)
    try:
        p = subprocess.run([VENV_PY, '-B', os.path.join(HERE, 'replay.py'), '-'],
                           input=json.dumps(job), capture_output=True, text=True, timeout=120,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as ex:                      # noqa
        return dict(status='error', fails=[], what=repr(ex))


class Run:
    def __init__(self, prop, task, seed, deadline):
        self.prop, self.task, self.seed = prop, task, seed
        self.deadline = deadline
        self.out = dict(task=task.name, paths=0, decisions=0, obligations=0, by_normal_form=0,
                        by_interval=0, by_nra=0, inconclusive=[], violations=[], witnesses=0,
                        obs_compared=0, obs_mismatch=[], labels={}, raised=0, zero_div=0,
                        restarts=0, truncated=False)
        self.memo = {}
        self.seen_viol = set()

    # -------------------------------------------------------------- points
    def values_at(self, eng, env):
        vals = {}
        for n, v in eng.inputs.items():
            vals[n] = neval(v, env) if isinstance(v, SR) else float(v)
        return vals

    def model_env(self, eng, m):
        env = {}
        for i in eng._all_vars():
            env[i] = solver.val(m, i)
        # an angle that occurs only through its sine and cosine is free in the model
        for c in range(len(ATOMS)):
            at = ATOMS[c]
            if at.kind != 'cos':
                continue
            t = lift(at.args[0]).t
            if len(t) != 1:
                continue
            (mon, k), = t.items()
            vs = [i for i, e in mon if ATOMS[i].kind == 'var']
            if len(vs) != 1 or vs[0] not in env or any(ATOMS[i].kind not in ('var', 'pi') or e != 1 for i, e in mon):
                continue
            sn = [j for j in range(len(ATOMS)) if ATOMS[j].kind == 'sin' and lift(ATOMS[j].args[0]).t == t]
            if not sn:
                continue
            try:
                a = math.atan2(float(solver.val(m, sn[0])), float(solver.val(m, c)))
                k = float(k) * (math.pi if len(mon) > 1 else 1)
                if abs(math.cos(env[vs[0]] * k) - math.cos(a)) + abs(math.sin(env[vs[0]] * k) - math.sin(a)) < 1e-9:
                    continue
            except (TypeError, ValueError, OverflowError, KeyError):
                continue
            lo, hi = (float(b) if b is not None else d for b, d in ((ATOMS[vs[0]].lo, -1e9), (ATOMS[vs[0]].hi, 1e9)))
            for n in (0, 1, -1, 2, -2, 3, -3):
                v = (a + 2 * math.pi * n) / k
                if lo <= v <= hi:
                    env[vs[0]] = v
                    break
        return env

    def clamp(self, env):
        for i in list(env):
            at = ATOMS[i]
            if at.lo is not None:
                env[i] = max(env[i], float(at.lo))
            if at.hi is not None:
                env[i] = min(env[i], float(at.hi))
        return env

    def real_run(self, values, choices):
        return api.run_real(loader.real(), self.task.fn, self.task.params, values, choices)

    def report(self, values, choices, res, why):
        labels = tuple(sorted({f[0].split('[')[0] for f in res['fails']}))
        if labels in self.seen_viol or len(self.out['violations']) >= 3:
            return True
        c = confirm(self.prop, self.task.name, values, choices)
        if c.get('fails'):
            self.seen_viol.add(labels)
            self.out['violations'].append(dict(
                task=self.task.name, values=values, choices=choices, fails=c['fails'][:6],
                found_by=why))
            return True
        self.inconc(f'{labels}: concrete failure not confirmed in a fresh interpreter ({c})')
        return False

    def inconc(self, what):
        if len(self.out['inconclusive']) < 40:
            self.out['inconclusive'].append(what[:400])

    # ---------------------------------------------------------------- paths
    def on_path(self, eng, res, exc):
        if exc == 'restart':
            o = self.out
            keep = dict(restarts=o['restarts'] + 1, violations=o['violations'])
            self.__init__(self.prop, self.task, self.seed, self.deadline)
            self.out.update(keep)
            return
        o = self.out
        o['paths'] += 1
        env = self.env
        choices = dict(eng.choices)
        pts = self.witness_points(eng)
        used = 0
        if exc is not None:
            o['raised'] += 1
            ok = False
            for e in pts[:3]:
                vals = self.values_at(eng, e)
                r = self.real_run(vals, choices)
                o['witnesses'] += 1
                if r['status'] == 'raise' or r['fails']:
                    if self.report(vals, choices, r, 'path raised ' + type(exc).__name__):
                        ok = True
                        break
            if not ok:
                last = [l for l in getattr(exc, '_tb', '').splitlines() if l.strip()]
                self.inconc(f'symbolic execution stopped: {exc!r} :: {" | ".join(last[-4:])}')
            return
        # witnesses: the real code at points of this path
        for e in pts[:self.task.witnesses]:
            vals = self.values_at(eng, e)
            r = self.real_run(vals, choices)
            if r['status'] in ('skip', 'missing'):
                continue
            o['witnesses'] += 1
            used += 1
            if r['fails']:
                self.report(vals, choices, r, 'replay of a path witness')
            elif r['status'] == 'ok' and self.holds_at(eng, e):
                self.compare_obs(env, e, r['obs'])
        # obligations
        todo = []
        for ob in env.obls:
            o['obligations'] += 1
            l = ob.label.split('[')[0]
            o['labels'][l] = o['labels'].get(l, 0) + 1
            s = ob.goal.static()
            if s is True:
                o['by_normal_form'] += 1
                continue
            todo.append(ob)
        if not todo:
            if env.obls and o['paths'] <= 200:
                solver.check_interval(OR(*[b.goal.neg() for b in env.obls]), [])
            return
        neg = OR(*[b.goal.neg() for b in todo])
        if neg.static() is None and solver.check_interval(neg, eng.pc) == 'unsat':
            o['by_interval'] += len(todo)
            return
        for ob in todo:
            self.discharge(eng, ob, pts, choices)

    def holds_at(self, eng, e):
        try:
            return all(beval(c, e) for c in eng.pc)
        except (KeyError, ValueError, ZeroDivisionError, OverflowError):
            return False

    def witness_points(self, eng):
        pts = list(eng._points(eng._all_vars()) or []) if eng._all_vars() else [{}]
        if not pts:
            r, m = solver.check(eng.pc, 2.0)
            if r == 'sat':
                pts = [self.clamp(self.model_env(eng, m))]
        return pts

    def compare_obs(self, env, e, obs):
        for k, sv in env.obs.items():
            rv = obs.get(k)
            if rv is None:
                continue
            self.out['obs_compared'] += 1
            if len(rv) != len(sv):
                self.out['obs_mismatch'].append(f'{k}: sizes {len(sv)} {len(rv)}')
                continue
            for s, r in zip(sv, rv):
                x = neval(s, e) if not s.sp else s.float()
                if not (abs(x - r) <= 1e-6 * (1 + abs(r)) or (x != x and r != r) or x == r):
                    if len(self.out['obs_mismatch']) < 10:
                        self.out['obs_mismatch'].append(f'{k}: symbolic {x!r} real {r!r} at ' + ' '.join(f'{T.ATOMS[i].name}={v}' for i, v in e.items() if T.ATOMS[i].kind == 'var')[:200])
                    break

    def discharge(self, eng, ob, pts, choices):
        o = self.out
        neg = ob.goal.neg()
        cone = eng._cone([neg])
        key = (ob.goal.key(), frozenset(c.key() for c in cone))
        hit = self.memo.get(key)
        if hit is not None:
            o[hit] += 1
            return
        st = neg.static()
        if st is not True:
            if solver.check_interval(neg, cone) == 'unsat':
                o['by_interval'] += 1
                self.memo[key] = 'by_interval'
                return
        # a violated point among the samples?
        cand = []
        for e in pts:
            try:
                if beval(neg, e):
                    cand.append(e)
            except (KeyError, T.Unsupported):
                pass
        for e in cand[:4]:
            if self.try_point(eng, e, choices, ob, 'sample point of the path'):
                return
        left = max(1.0, min(self.task.check_timeout, self.deadline - time.time()))
        r, m = solver.check(cone + [neg], left)
        if r == 'unsat':
            o['by_nra'] += 1
            self.memo[key] = 'by_nra'
            return
        ms = []
        if r == 'sat':
            if ob.strong is not None and B(ob.strong).static() is not False:
                r2, m2 = solver.check(list(eng.pc) + [B(ob.strong)], min(left, 5))
                if r2 == 'sat':
                    ms.append(m2)
            r3, m3 = solver.check(list(eng.pc) + [neg], min(left, 5))
            if r3 == 'sat':
                ms.append(m3)
            else:
                ms.append(m)
        for mm in ms:
            e = self.clamp(self.model_env(eng, mm))
            if self.try_point(eng, e, choices, ob, 'solver model'):
                return
            # neighbours of the model
            rnd = random.Random(self.seed)
            for _ in range(6):
                e2 = dict(e)
                for i in e2:
                    e2[i] += rnd.gauss(0, 1e-3)
                e2 = self.clamp(e2)
                if all(engine.beval_margin(b, e2) for b in eng.pc):
                    if self.try_point(eng, e2, choices, ob, 'neighbour of a solver model'):
                        return
        if r == 'sat':
            for e in self.climb(eng, neg, ms, pts):
                if self.try_point(eng, e, choices, ob, 'search from a solver model'):
                    return
        self.inconc(f'{ob.label}: {r}; {ob.goal!r}'[:300] + f' | pc {eng.pc!r}'[:250])

    def climb(self, eng, neg, ms, pts, seconds=6.0):
        """points that violate the obligation with the functions evaluated as they are (in a model they
        are only bounded); nothing is decided here, a point found is replayed on the real code"""
        t0 = time.time()
        rnd = random.Random(self.seed)
        vs = sorted(eng._all_vars())

        def settle(e):
            for i in vs:
                at = ATOMS[i]
                if at.rule is not None:
                    q = neval(at.rule, e)
                    if q != q or q < 0:
                        return False
                    e[i] = math.copysign(math.sqrt(q), e.get(i, 1) or 1)
            return True

        def score(b, e):
            if b.op == 'const':
                return math.inf if b.p else -math.inf
            if b.op in ('and', 'or'):
                return (min if b.op == 'and' else max)(score(k, e) for k in b.kids)
            v = neval(b.p, e)
            if v != v:
                return -math.inf
            return {'==': -abs(v), '!=': abs(v), '<': -v, '<=': -v}.get(b.op, v)

        def rate(e):
            try:
                if settle(e) and all(engine.beval_margin(b, e) for b in eng.pc):
                    return score(neg, e)
            except (KeyError, T.Unsupported, ValueError, OverflowError, ZeroDivisionError):
                pass
            return -math.inf
        pool = []
        n0, pp = eng.npoints, eng.points
        try:
            eng.npoints = 200
            start = [self.clamp(self.model_env(eng, m)) for m in ms] + list(pts) + eng._gen_points()
        finally:
            eng.npoints, eng.points = n0, pp
        for e in start:
            if time.time() - t0 > seconds / 2:
                break
            pool.append((rate(e), e))
        pool = sorted((x for x in pool if x[0] > -math.inf), key=lambda x: -x[0])[:6]
        out = [dict(e) for s, e in pool if s > 0]
        k = 0
        while pool and time.time() - t0 < seconds:
            j = k % len(pool)
            k += 1
            s, e = pool[j]
            e2 = dict(e)
            for i in vs:
                at = ATOMS[i]
                if at.rule is not None or (len(vs) > 2 and rnd.random() < .5):
                    continue
                w = float(at.hi - at.lo) if at.lo is not None and at.hi is not None else 10.
                h = w * 10 ** rnd.uniform(-7, 0)
                e2[i] = e2[i] + rnd.gauss(0, h) if rnd.random() < .7 else e2[i] * 10 ** rnd.gauss(0, .5)
            self.clamp(e2)
            s2 = rate(e2)
            if s2 > s:
                if s2 > 0 >= s:
                    out.append(dict(e2))
                pool[j] = (s2, e2)
        best = [e for s, e in sorted(pool, key=lambda x: -x[0]) if s > 0]
        return (best + out)[:6]

    def try_point(self, eng, e, choices, ob, why):
        try:
            vals = self.values_at(eng, e)
        except (KeyError, T.Unsupported):
            return False
        if any(v != v for v in vals.values()):
            return False
        r = self.real_run(vals, choices)
        if r['fails']:
            return self.report(vals, choices, r, why)
        return False


def run_task(prop, task, seed):
    t0 = time.time()
    solver.STATS.__init__()
    T.UNITS.clear()
    T.CTX.split = task.split
    T.CTX.tiny = Fr(repr(task.tiny)) if task.tiny else 0
    T.CTX.near = Fr(1, 10 ** 11) if task.mode == 'float' else 0
    ns = loader.sym(task.mode == 'exact')
    fresh.snapshot(ns)
    run = Run(prop, task, seed, t0 + task.budget)
    eng = engine.Engine(seed=seed, max_paths=task.max_paths, budget=task.budget,
                        feas_timeout=task.feas_timeout, check_timeout=task.check_timeout,
                        npoints=task.npoints)

    def fn(e):
        env = SymEnv(e, ns)
        run.env = env
        fresh.reset(ns)
        try:
            return task.fn(env, **task.params)
        finally:
            env.cleanup()
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    err = None
    try:
        eng.explore(fn, run.on_path)
    except BaseException as ex:      # noqa
        err = traceback.format_exc()
        run.inconc('engine: ' + repr(ex) + ' ' + err[-300:])
    o = run.out
    o['decisions'] = eng.decisions
    o['zero_div'] = eng.zero_div
    o['truncated'] = eng.truncated
    if eng.truncated:
        run.inconc('exploration stopped at its budget')
    st = solver.STATS
    o['solver'] = dict(queries=st.queries, sat=st.sat, unsat=st.unsat, unknown=st.unknown,
                       time_s=round(st.time, 3), memo=st.memo, by=st.by)
    o['wall_s'] = round(time.time() - t0, 2)
    return o
