"""What a harness sees.  The same harness function runs symbolically (SymEnv) and
on the unmodified package with plain floats (RealEnv)."""
import math

import numpy as np

from . import fresh

CTOL = 1e-6
MISSING = object()


class Skip(BaseException):
    """assumption not met by the concrete inputs"""


class Task:
    def __init__(self, name, fn, mode='exact', tier='quick', budget=60, split=False,
                 max_paths=3000, check_timeout=10., feas_timeout=1.0, witnesses=1, covers=(),
                 npoints=40, setup=None, may_raise=(), tiny=0, **params):
        self.name = name
        self.fn = fn
        self.mode = mode
        self.tier = tier
        self.budget = budget
        self.split = split
        self.max_paths = max_paths
        self.check_timeout = check_timeout
        self.feas_timeout = feas_timeout
        self.witnesses = witnesses
        self.covers = covers
        self.npoints = npoints
        self.params = params
        self.tiny = tiny


class Obl:
    __slots__ = ('label', 'goal', 'strong')

    def __init__(self, label, goal, strong=None):
        self.label = label
        self.goal = goal
        self.strong = strong        # negated goal with a margin


class BaseEnv:
    symbolic = False

    def m(self, name):
        return self.ns['raytools.' + name if name else 'raytools']

    def fresh(self):
        """as in a new process: nothing kept outside of objects (what setattr replaced stays)"""
        fresh.reset(self.ns, [q[:2] for q in self._patch])

    def vec(self, prefix, n=3, lo=None, hi=None):
        return [self.real(f'{prefix}{i}', lo, hi) for i in range(n)]


class RealEnv(BaseEnv):
    """concrete evaluation with given input values"""

    def __init__(self, ns, values, choices):
        self.ns = ns
        self.np = np
        self.values = values
        self.choices = choices
        self.fails = []
        self.checked = 0
        self.obs = {}
        self.pi = math.pi
        self.rng_draws = 0
        self._patch = []

    def real(self, name, lo=None, hi=None):
        return float(self.values[name])

    def unit(self, *names):
        v = [float(self.values[n]) for n in names]
        n = math.sqrt(sum(x * x for x in v))
        if not abs(n - 1) < 1e-3:
            raise Skip()
        return [x / n for x in v]

    def bound_dot(self, a, b):
        pass

    def choice(self, name, options):
        return options[self.choices[name]]

    def arr(self, x, dtype=float):
        return np.array(x, dtype=dtype)

    def float(self, x):
        return float(x)

    def num(self, x):
        return x

    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def _fail(self, label, detail):
        self.fails.append((label, detail))

    def check(self, label, cond):
        self.checked += 1
        c = np.asarray(cond)
        if not bool(np.all(c)):
            self._fail(label, f'condition false: {cond!r}'[:300])

    def close(self, label, a, b, tol=1e-9, ctol=None, equal_nan=False):
        self.checked += 1
        ctol = CTOL if ctol is None else ctol
        try:
            a, b = np.asarray(a, float), np.asarray(b, float)
        except (TypeError, ValueError):
            return self._fail(label, f'not numeric: {a!r} {b!r}'[:300])
        if a.shape != b.shape and a.size != b.size:
            return self._fail(label, f'shape {a.shape} expected {b.shape}')
        a, b = a.ravel(), b.ravel()
        with np.errstate(all='ignore'):
            bad = ~(np.abs(a - b) <= ctol * (1 + np.abs(b)))
            bad &= ~((a == b) & np.isinf(a))
            if equal_nan:
                bad &= ~(np.isnan(a) & np.isnan(b))
        if bad.any():
            i = int(np.argmax(bad))
            self._fail(label, f'got {a[i]!r}, expected {b[i]!r}')

    def le(self, label, a, b, slack=1e-9, cslack=None):
        self.checked += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        cs = CTOL if cslack is None else cslack
        with np.errstate(all='ignore'):
            bad = ~(a <= b + cs * (1 + np.abs(b)))
        if bad.any():
            self._fail(label, f'{a!r} exceeds {b!r}'[:300])

    def same(self, label, a, b):
        """exact equality of discrete values"""
        self.checked += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not bool(np.all(a == b)):
            self._fail(label, f'got {a.tolist()!r}, expected {b.tolist()!r}'[:300])

    def shape(self, label, a, shp):
        self.checked += 1
        if tuple(np.shape(a)) != tuple(shp):
            self._fail(label, f'shape {np.shape(a)} expected {tuple(shp)}')

    def observe(self, label, v):
        self.obs[label] = np.asarray(v, float).ravel().tolist()

    def raises(self, label, exc, fn):
        self.checked += 1
        try:
            r = fn()
        except exc:
            return True
        self._fail(label, f'no exception, returned {r!r}'[:300])
        return False

    def fmt(self, x):
        return x

    def patch_rng(self, module):
        """random draws of a module come from the inputs"""
        env = self

        class Rng:
            def __init__(self, *a):
                pass

            def _draw(self, size, lo, hi):
                shp = () if size is None else size
                shp = (shp,) if isinstance(shp, int) else tuple(shp)
                out = np.empty(shp)
                for i in np.ndindex(*shp):
                    env.rng_draws += 1
                    out[i] = lo + (hi - lo) * env.values[f'rng{env.rng_draws}']
                return out if shp else float(out)

            def uniform(self, low=0.0, high=1.0, size=None):
                return self._draw(size, low, high)

            def random(self, size=None, **k):
                return self._draw(size, 0., 1.)
        self._patch.append((np.random, 'default_rng', np.random.default_rng))
        np.random.default_rng = Rng

    def setattr(self, obj, name, value):
        old = vars(obj)[name] if name in vars(obj) else getattr(obj, name, MISSING)
        self._patch.append((obj, name, old))
        setattr(obj, name, value)

    def cut(self, x):
        return x

    def cleanup(self):
        for o, n, v in reversed(self._patch):
            if v is MISSING:
                delattr(o, n)
            else:
                setattr(o, n, v)
        self._patch = []


def run_real(ns, fn, params, values, choices):
    """-> dict(status, fails, obs)"""
    env = RealEnv(ns, values, choices)
    import warnings
    fresh.snapshot(ns)
    fresh.reset(ns)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            fn(env, **params)
    except Skip:
        return dict(status='skip', fails=env.fails, obs=env.obs, checked=env.checked)
    except KeyError as ex:
        if ex.args and isinstance(ex.args[0], str) and ex.args[0] not in values and \
                (ex.args[0].startswith('rng') or ex.args[0] not in choices):
            import traceback
            tb = traceback.format_exc()
            if 'symx/api.py' in tb.splitlines()[-3] or 'symx/api.py' in tb:
                return dict(status='missing', fails=[], obs={}, checked=0, what=ex.args[0])
        return dict(status='raise', fails=env.fails + [('raised', repr(ex)[:300])], obs=env.obs,
                    checked=env.checked, exc=type(ex).__name__)
    except Exception as ex:
        return dict(status='raise', fails=env.fails + [('raised', repr(ex)[:300])], obs=env.obs,
                    checked=env.checked, exc=type(ex).__name__)
    finally:
        env.cleanup()
    return dict(status='ok', fails=env.fails, obs=env.obs, checked=env.checked)
