"""C09: weighted quantiles"""
from symx.api import Task

FUNCTIONS = ['raytools.translate.weighted_quantile', 'raytools.translate.weighted_median']
BOUNDS = ('every data value in [-10, 10], weight in [0, 5] and quantile in [0, 1] for 1 to 3 values '
          '(4 with symbolic data or symbolic weights only), in any order, with thresholds 0, 1')
OUTSIDE = 'floating-point rounding; more values; non-finite data'


def ref(env, d, w, q, t):
    """piecewise linear interpolation between (cumulated weight, value)"""
    p = [(a, b) for a, b in zip(d, w) if bool(b > t)]
    n = len(p)
    # sort (forks)
    for i in range(1, n):
        j = i
        while j > 0 and bool(p[j][0] < p[j - 1][0]):
            p[j], p[j - 1] = p[j - 1], p[j]
            j -= 1
    cw = [0]
    for k in range(1, n):
        cw.append(cw[-1] + p[k][1])
    x = q * cw[-1]
    for k in range(n - 1):
        if bool(x < cw[k + 1]):
            return p[k][0] + (p[k + 1][0] - p[k][0]) * (x - cw[k]) / (cw[k + 1] - cw[k]), p
    return p[-1][0], p


def inputs(env, n, sd, sw, t):
    d = [env.real(f'd{i}', -10, 10) if sd else [3., -1., 2.5, .5][i] for i in range(n)]
    w = [env.real(f'w{i}', 0, 5) if sw else [1.5, .5, 2., .75][i] for i in range(n)]
    any_in = False
    for x in w:
        any_in = (x > t) | any_in
        if sw:
            # a weight is clearly in or out
            env.assume((x > t + .01) | (x <= t))
    env.assume(any_in)
    return d, w


def wq(env, n, sd=True, sw=True, t=0, q=None):
    tr = env.m('translate')
    d, w = inputs(env, n, sd, sw, t)
    qq = env.real('q', 0, 1) if q is None else q
    r = tr.weighted_quantile(env.arr(d), env.arr(w), q=qq, t=t) if t else \
        tr.weighted_quantile(env.arr(d), env.arr(w), q=qq)
    e, p = ref(env, d, w, qq, t)
    env.observe('wq', r)
    env.close('quantile', r, e, tol=1e-8, ctol=1e-5)
    env.le('not below the smallest', p[0][0], r)
    env.le('not above the largest', r, p[-1][0])


def many(env, n):
    """several quantiles at once, monotone, ends are the extremes, default q is the median"""
    tr, np = env.m('translate'), env.np
    d, w = inputs(env, n, True, False, 0)
    q = env.real('q', 0, 1)
    qs = env.arr([0., .25, q, 1.])
    r = tr.weighted_quantile(env.arr(d), env.arr(w), q=qs)
    env.shape('one per quantile', r, (4,))
    for k, x in enumerate([0., .25, q, 1.]):
        env.close('each', r[k], ref(env, d, w, x, 0)[0], tol=1e-8, ctol=1e-5)
    env.le('0 is the minimum', r[0], d[0])
    env.le('monotone', r[0], r[2])
    env.le('monotone', r[2], r[3])
    m = ref(env, d, w, .5, 0)[0]
    env.close('default', tr.weighted_quantile(env.arr(d), env.arr(w)), m, tol=1e-8, ctol=1e-5)
    env.close('median', tr.weighted_median(env.arr(d), env.arr(w)), m, tol=1e-8, ctol=1e-5)
    env.close('scale of the weights', tr.weighted_median(env.arr(d), env.arr(w) * 3), m, tol=1e-8, ctol=1e-5)
    env.close('any shape', tr.weighted_median(env.arr([d]), env.arr([w])), m, tol=1e-8, ctol=1e-5)


def equal(env, n):
    """equal weights (or none): the ordinary linear quantile"""
    tr, np = env.m('translate'), env.np
    d = [env.real(f'd{i}', -10, 10) for i in range(n)]
    q = env.real('q', 0, 1)
    r = tr.weighted_quantile(env.arr(d), env.arr([1.] * n), q=q)
    s = tr.weighted_quantile(env.arr(d), q=q)
    e, _ = ref(env, d, [1] * n, q, 0)
    env.close('equal weights', r, e, tol=1e-8, ctol=1e-5)
    env.close('no weights', s, e, tol=1e-8, ctol=1e-5)


def thr(env):
    """threshold of the median"""
    tr = env.m('translate')
    d = [env.real(f'd{i}', -10, 10) for i in range(4)]
    w = [1., 2., 0., 3.]
    for t in (0, 1, 2.5):
        env.close('threshold', tr.weighted_median(env.arr(d), env.arr(w), t=t), ref(env, d, w, .5, t)[0],
                  tol=1e-8, ctol=1e-5)


def tasks(tier):
    ts = [Task(f'wq-{n}', wq, mode='float', n=n) for n in (1, 2)]
    ts += [Task('wq-3', wq, mode='float', n=3, budget=150), Task('wq-3-t', wq, mode='float', n=3, t=1, budget=150),
           Task('wq-2-t', wq, mode='float', n=2, t=1), Task('wq-4-data', wq, mode='float', n=4, sw=False),
           Task('wq-4-weights', wq, mode='float', n=4, sd=False, budget=150), Task('many-3', many, mode='float', n=3, budget=120),
           Task('equal-3', equal, mode='float', n=3), Task('equal-2', equal, mode='float', n=2), Task('thr', thr, mode='float')]
    for q in (0., .9999, .999995, 1.):
        ts.append(Task(f'wq-3-{q}', wq, mode='float', n=3, q=q, sw=False))
    if tier == 'thorough':
        ts += [Task('wq-4', wq, mode='float', n=4, budget=1500, max_paths=20000), Task('many-4', many, mode='float', n=4, budget=1500, max_paths=20000)]
    return ts
