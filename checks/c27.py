"""C27: pooled calls return what the loop returns"""
import sys
from collections import namedtuple
from io import StringIO
from symx.api import Task

FUNCTIONS = ['raytools.utility.pool_call', 'raytools.utility.TStqdm.__init__', 'raytools.utility.TStqdm.write',
             'raytools.utility.TStqdm.set_description', 'raytools.utility.TStqdm.ts_message', 'raytools.io.get_nproc',
             'raytools.io.set_nproc', 'raytools.io.unset_nproc']
BOUNDS = ('every order of completion (any positive duration of every call, any number of workers from 1 to 4) and every value of arguments and '
          'results of 0 to 4 calls; any one call failing; process caps 1 to 5 from the call or the environment')
OUTSIDE = ('the executors of the standard library are modelled: submit, map, result, done, exception, callbacks, wait and as_completed with '
           'first-in first-out assignment of calls to workers; pickling, dying workers and platforms without fork')
Done = namedtuple('DoneAndNotDoneFutures', 'done not_done')


class Clock:
    """calls run on k workers in order of submission; each takes a symbolic time"""

    def __init__(self, env, k, durations, crash=None):
        self.env, self.k, self.free, self.dur = env, k, [], list(durations)
        self.futures, self.log, self.pools = [], [], []

    def start(self, n):
        if not self.free:
            self.free = [0.] * (n or self.k)
        i = 0
        for j in range(1, len(self.free)):
            if self.free[j] < self.free[i]:
                i = j
        t = self.free[i] + self.dur[len(self.futures)]
        self.free[i] = t
        return t


class Future:
    def __init__(self, clock, fn, a, k, n):
        self.clock, self.t, self.calls = clock, clock.start(n), []
        clock.futures.append(self)
        try:
            self.value, self.error = fn(*a, **k), None
        except Exception as ex:
            self.value, self.error = None, ex

    def result(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value

    def exception(self, timeout=None):
        return self.error

    def done(self):
        return True

    def cancel(self):
        return False

    def running(self):
        return False

    def cancelled(self):
        return False

    def add_done_callback(self, f):
        f(self)


def ordered(fs):
    """by the time of completion"""
    out = []
    for f in fs:
        i = len(out)
        while i > 0 and f.t < out[i - 1].t:
            i -= 1
        out.insert(i, f)
    return out


def install(env, clock):
    ut = env.m('utility')

    class Pool:
        kind = 'process'

        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
            self._max_workers = max_workers or clock.k
            clock.pools.append((self.kind, max_workers, mp_context))

        def submit(self, fn, /, *a, **k):
            return Future(clock, fn, a, k, self._max_workers)

        def map(self, fn, *its, timeout=None, chunksize=1):
            fs = [self.submit(fn, *a) for a in zip(*its)]
            return (f.result() for f in fs)

        def shutdown(self, wait=True, cancel_futures=False):
            clock.log.append('shutdown')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Threads(Pool):
        kind = 'thread'

    def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
        fs = list(fs)
        n = 1 if return_when == 'FIRST_COMPLETED' else len(fs)
        o = ordered(fs)
        return Done(set(o[:n]), set(o[n:]))
    for k, v in dict(ProcessPoolExecutor=Pool, ThreadPoolExecutor=Threads, wait=wait, get_context=lambda c=None: ('context', c),
                     as_completed=lambda fs, timeout=None: iter(ordered(list(fs))), FIRST_COMPLETED='FIRST_COMPLETED').items():
        env.setattr(ut, k, v)
    return ut


def values(env, n):
    return ([env.real(f'a{i}', -9, 9) for i in range(n)], [env.real(f'b{i}', -9, 9) for i in range(n)],
            [env.real(f't{i}', .01, 9) for i in range(n)])


def calls(env, n, k, workers, expand, fixed=(), kw=None, pbar=False, cap='k', context=None, two=True):
    a, b, t = values(env, n)
    clock = Clock(env, k, t)
    ut = install(env, clock)
    seen = []

    def f(*args, **kwargs):
        seen.append((args, kwargs))
        x = args[0] if expand else args[0][0]
        return [3 * x - 1, args, kwargs]
    if pbar:
        env.setattr(sys, 'stderr', StringIO())
    args = list(zip(a, b)) if two else [(x,) for x in a]
    ck = {} if context is None else dict(context=context)
    r = ut.pool_call(f, args, *fixed, cap=k if cap == 'k' else cap, expandarg=expand, desc='calls', workers=workers, pbar=pbar, **ck,
                     **(kw or {}))
    env.check('a list with one result each', type(r) is list and len(r) == n)
    env.check('one call each', len(seen) == n)
    for i in range(n):
        env.close('results in order', r[i][0], 3 * a[i] - 1, tol=1e-9)
        want = (args[i] if expand else (args[i],)) + tuple(fixed)
        got = r[i][1]
        env.check('number of arguments', len(got) == len(want))
        for g, w in zip(got, want):
            if isinstance(w, tuple):
                env.check('packed', len(g) == len(w))
                env.close('argument', list(g), list(w), tol=1e-9)
            elif isinstance(w, str):
                env.check('fixed', g == w)
            else:
                env.close('argument', g, w, tol=1e-9)
        env.check('keywords', r[i][2] == (kw or {}))
    if not workers:
        env.check('no pool', clock.pools == [])
    elif str(workers).lower()[0] == 't' and workers is not True:
        env.check('threads', [p[0] for p in clock.pools] == ['thread'])
    else:
        env.check('processes', clock.pools == [('process', k, ('context', context or 'fork'))])


def several(env, k, workers):
    """results of any kind, some equal or absent"""
    a, b, t = values(env, 7)
    clock = Clock(env, k, t)
    ut = install(env, clock)
    out = [None, 'b', 2., a[0], None, (1, 'x'), 2.]
    r = ut.pool_call(lambda i, x: out[i], list(enumerate(a)), cap=k, workers=workers, pbar=False)
    env.check('a list', type(r) is list and len(r) == 7)
    env.check('results in order', [type(x) for x in r] == [type(x) for x in out])
    for x, w in zip(r, out):
        if w is None or isinstance(w, (str, tuple)):
            env.check('result', x == w)
        else:
            env.close('value', x, w)


class Failed(Exception):
    pass


def failing(env, n, k, at, workers):
    a, b, t = values(env, n)
    clock = Clock(env, k, t)
    ut = install(env, clock)

    def f(i, x):
        if i in at:
            raise Failed(i)
        return x
    got = None
    try:
        r = ut.pool_call(f, list(enumerate(a)), cap=k, workers=workers, pbar=False)
    except Failed as ex:
        got = ex.args[0]
    env.check('the error of a failing call', got in at)


def caps(env, cap, set_, want):
    io = env.m('io')
    clock = Clock(env, 8, [1.] * 3)
    ut = install(env, clock)
    envd = {}

    class OS:
        environ = envd
        getenv = staticmethod(lambda k, d=None: envd.get(k, d))
        cpu_count = staticmethod(lambda: 8)
        sched_getaffinity = staticmethod(lambda p: set(range(8)))
    env.setattr(io, 'os', OS)
    for s in set_:
        if s == 'unset':
            io.unset_nproc()
        elif isinstance(s, str) or isinstance(s, float):
            env.raises('not a number', ValueError, lambda: io.set_nproc(s))
        else:
            io.set_nproc(s)
    x = env.real('x', 0, 1)
    r = ut.pool_call(lambda v: v, [(x,), (x + 1,)], cap=cap, pbar=False)
    env.close('results', r, [x, x + 1], tol=1e-9)
    env.check('workers', clock.pools == [('process', want, ('context', 'fork'))])
    env.check('number of processes', io.get_nproc(cap) == want)


def bar(env, k, instance, desc, level):
    """the counters of the bar"""
    clock = Clock(env, k, [])
    ut = install(env, clock)
    x = env.real('x', 0, 1)
    for w, n, kind in ((True, k, ['process']), ('threads', clock.k, ['thread']), ('T', clock.k, ['thread']), (False, 0, [])):
        del clock.pools[:]
        b = ut.TStqdm(instance=instance, workers=w, position=level, desc=desc, cap=k, total=3, disable=True)
        env.check('workers', b.nworkers == n and [p[0] for p in clock.pools] == kind and (b.pool is None) == (not kind))
        env.check('wait', b.wait is ut.wait)
        name = type(instance).__name__ if instance is not None else ''
        env.check('label', b.ts_message('s') == f"{' | ' * level} {name} s" and b.ts_message(None) == f"{' | ' * level} {name}")
    env.close('x', x, x)


def tasks(tier):
    ts = []
    deep = tier != 'quick'
    for n in (0, 1, 2, 3, 4) + ((5, 6) if deep else ()):
        for k in (1, 2, 3, 4):
            if k > max(n, 1):
                continue
            for e in (True, False):
                ts.append(Task(f'n{n}-k{k}-{int(e)}', calls, n=n, k=k, workers=True, expand=e))
                ts.append(Task(f't-n{n}-k{k}-{int(e)}', calls, n=n, k=k, workers='t', expand=e, cap=None))
    for w in (True, False, 'thread', 'threads', 'T', 0, 1):
        for e in (True, False):
            ts.append(Task(f'w{w}-{int(e)}', calls, n=3, k=2, workers=w, expand=e, fixed=(2., 'x'), kw=dict(u=1, v='w')))
    ts += [Task('bar', calls, n=3, k=2, workers=True, expand=True, pbar=True), Task('single', calls, n=3, k=2, workers=True, expand=True, two=False),
           Task('context', calls, n=3, k=2, workers=True, expand=True, context='spawn', fixed=('q',)),
           Task('keywords', calls, n=3, k=2, workers=True, expand=False, kw=dict(func2=3, arg='a', nearest=True))]
    ts += [Task(f'several-{k}-{w}', several, k=k, workers=w) for k, w in ((1, True), (2, True), (2, 't'), (1, False))]
    for n, k in ((1, 1), (2, 1), (3, 2), (4, 3)):
        for at in ((0,), (n - 1,), (0, n - 1)):
            for w in (True, 't', False):
                ts.append(Task(f'fail-{n}-{k}-{at}-{w}', failing, n=n, k=k, at=at, workers=w))
    for i, (c, s, w) in enumerate(((None, (), 8), (1, (), 1), (3, (), 3), (None, (2,), 2), (5, (2,), 5), (None, (2, None), 2), (None, (2, 0), 8),
                                   (None, (2, -1), 8), (None, (2, 'unset'), 8), (None, (2, 4), 4), (None, ('3', 2), 2), (None, (3, 2.), 3),
                                   (None, ('unset',), 8), (1, (4, 'unset'), 1))):
        ts.append(Task(f'cap-{i}', caps, cap=c, set_=s, want=w))
    for i, (a, d, l) in enumerate(((None, None, 0), (None, 'd', 1), ([], 'd', 2), ({}, None, 3))):
        ts.append(Task(f'label-{i}', bar, k=3, instance=a, desc=d, level=l))
    return ts
