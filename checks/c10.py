"""C10: gaussian filter over unevenly spaced data"""
import math
from symx.api import Task

FUNCTIONS = ['raytools.translate.non_uniform_gaussian_filter', 'raytools.translate.weighted_quantile',
             'raytools.translate.weighted_median']
BOUNDS = ('every feature value in [-10, 10] over sorted and unsorted positions (4 to 6 samples, up to 2 '
          'features), with and without resampling positions and bandwidth limits (1, 2, 500); every position and '
          'width (3 samples) for the mean; the median and one or two quantiles for one feature')
OUTSIDE = 'floating-point rounding; more samples; median and quantiles over more than one feature'

XS = {'sorted': [0., .5, 1.5, 1.75, 3.], 'unsorted': [1.5, 0., 3., .5, 1.75], 'reversed': [3., 1.75, 1.5, .5, 0.],
      'ties': [1., 0., 1., 2., 0.], 'three': [2., 1., 0., 1., 1., .5]}


def window(xs, ys, x0, bw, i=None):
    """samples used: all, or the bw ones on each side in order of position"""
    o = sorted(range(len(xs)), key=lambda k: xs[k])
    if bw is None:
        return o
    if i is None:
        c = sum(1 for k in o if xs[k] < x0)
    else:
        c = o.index(i)
    return o[max(0, c - bw):min(len(o), c + bw)]


def mean_at(xs, y, x0, s, use):
    w = [math.exp(-.5 * ((xs[k] - x0) / s) ** 2) for k in use]
    t = sum(w)
    return sum(y[k] * a for k, a in zip(use, w)) / t


def mean(env, order, m=1, bw=500, xr=None, sigma=.7, sscale=None, extra=True):
    tr = env.m('translate')
    xs = XS[order]
    n = len(xs)
    y = [[env.real(f'y{f}_{k}', -10, 10) for k in range(n)] for f in range(m)]
    kw = dict(sigma=sigma)
    if bw != 500 or not extra:
        kw['bw'] = bw
    if sscale is not None:
        kw['sscale'] = sscale
    if xr is not None:
        kw['xr'] = env.np.array(xr)
    r = tr.non_uniform_gaussian_filter(env.np.array(xs), env.arr(y if m > 1 else y[0]), **kw)
    s = sigma
    if s is None:
        mu = sum(xs) / n
        s = math.sqrt(sum((a - mu) ** 2 for a in xs) / (n - 1) * n ** -.4)
    s *= sscale or 1
    at = xs if xr is None else xr
    env.shape('result', r, (m, len(at)))
    env.observe('r', r)
    for f in range(m):
        for k, x0 in enumerate(at):
            use = window(xs, y[f], x0, bw, k if xr is None else None)
            env.close('normalised gaussian mean', r[f, k], mean_at(xs, y[f], x0, s, use), tol=1e-7)
            lo = 10


def convex(env, order):
    """the mean stays within the data; a constant stays itself"""
    tr = env.m('translate')
    xs = XS[order]
    y = [env.real(f'y{k}', -10, 10) for k in range(len(xs))]
    t = env.real('top', -10, 10)
    for v in y:
        env.assume(v <= t)
    r = tr.non_uniform_gaussian_filter(env.np.array(xs), env.arr(y), sigma=.5)
    env.le('within the data', r, t, slack=1e-7)
    c = env.real('c', -10, 10)
    r = tr.non_uniform_gaussian_filter(env.np.array(xs), env.arr([c] * len(xs)), sigma=.5)
    env.close('constant', r, [[c] * len(xs)], tol=1e-7)


def general(env, bw, resample):
    """positions and width arbitrary"""
    tr, np = env.m('translate'), env.np
    x = [env.real(f'x{i}', -5, 5) for i in range(3)]
    y = [env.real(f'y{i}', -10, 10) for i in range(3)]
    s = env.real('sigma', .5, 4)
    for i in range(3):
        for j in range(i):
            env.assume((x[i] < x[j] - .01) | (x[i] > x[j] + .01))
    at = [env.real('x0', -5, 5), .5] if resample else x
    kw = dict(xr=env.arr(at)) if resample else {}
    r = tr.non_uniform_gaussian_filter(env.arr(x), env.arr(y), sigma=s, bw=bw, **kw)
    env.shape('result', r, (1, len(at)))
    for k, x0 in enumerate(at):
        w = [np.exp(-(a - x0) * (a - x0) / (2 * s * s)) for a in x]
        env.close('normalised gaussian mean', r[0, k] * sum(w), sum(a * b for a, b in zip(w, y)), tol=1e-7)


def fallback(env, m, q=None, order='sorted'):
    """positions out of reach of the kernel: linear interpolation, ends held"""
    tr = env.m('translate')
    xs = [0., 10., 30.] if order == 'sorted' else [30., 0., 10.]
    y = [[env.real(f'y{f}_{k}', -10, 10) for k in range(3)] for f in range(m)]
    at = [-50., 5., 12.5, 25., 60.]
    kw = {} if q is None else dict(amethod=q)
    r = tr.non_uniform_gaussian_filter(env.np.array(xs), env.arr(y), xr=env.np.array(at), sigma=.01, bw=None, **kw)
    o = sorted(range(3), key=lambda k: xs[k])
    for f in range(m):
        a, b, c = [y[f][k] for k in o]
        exp = [a, (a + b) / 2, b + (c - b) * .125, b + (c - b) * .75, c]
        got = r[f] if q is None else r.reshape(-1, 5)[0]
        env.close('linear fallback', got, exp, tol=1e-7)


def quant(env, order, am, bw=500, xr=None):
    tr = env.m('translate')
    xs = XS[order]
    n = len(xs)
    y = [env.real(f'y{k}', -10, 10) if k < 3 else [2., -1.][k - 3] for k in range(n)]
    kw = {} if bw == 500 else dict(bw=bw)
    if xr is not None:
        kw['xr'] = env.np.array(xr)
    r = tr.non_uniform_gaussian_filter(env.np.array(xs), env.arr(y), sigma=.7, amethod=am, **kw)
    at = xs if xr is None else xr
    qs = [.5] if am == 'median' else (am if isinstance(am, list) else [am])
    r = r.reshape(len(qs), len(at))
    for k, x0 in enumerate(at):
        use = window(xs, y, x0, bw, k if xr is None else None)
        w = [math.exp(-.5 * ((xs[j] - x0) / .7) ** 2) / (.7 * math.sqrt(2 * math.pi)) for j in use]
        for j, q in enumerate(qs):
            e = tr.weighted_quantile(env.arr([y[i] for i in use]), env.np.array(w), q=q)
            env.close('weighted quantile', r[j, k], e, tol=1e-6, ctol=1e-5)


def bad(env):
    tr = env.m('translate')
    x, y = env.np.array([0., 1., 2.]), env.arr([[env.real('y', -1, 1), 1., 2.]] * 2)
    env.raises('unknown method', ValueError, lambda: tr.non_uniform_gaussian_filter(x, y, sigma=1., amethod='mode'))
    env.raises('quantile out of range', ValueError, lambda: tr.non_uniform_gaussian_filter(x, y, sigma=1., amethod=[1.5]))
    env.raises('two quantiles of two features', ValueError,
               lambda: tr.non_uniform_gaussian_filter(x, y, sigma=1., amethod=[.1, .5]))


def tasks(tier):
    ts = []
    for o in XS:
        ts += [Task(f'mean-{o}', mean, mode='float', order=o), Task(f'mean-{o}-2', mean, mode='float', order=o, m=2),
               Task(f'mean-{o}-bwNone', mean, mode='float', order=o, m=2, bw=None),
               Task(f'mean-{o}-xr', mean, mode='float', order=o, m=2, xr=[2., -1., .6]),
               Task(f'mean-{o}-xr-bwNone', mean, mode='float', order=o, xr=[2., -1., .6], bw=None),
               Task(f'mean-{o}-scott', mean, mode='float', order=o, sigma=None),
               Task(f'mean-{o}-scott-scale', mean, mode='float', order=o, sigma=None, sscale=.5)]
        if o not in ('ties', 'three'):
            ts += [Task(f'mean-{o}-bw2', mean, mode='float', order=o, m=2, bw=2),
                   Task(f'mean-{o}-xr-bw2', mean, mode='float', order=o, m=2, bw=2, xr=[2., -1., .6, 4.]),
                   Task(f'mean-{o}-xr-bw1', mean, mode='float', order=o, bw=1, xr=[2., 1.6, .6])]
        else:
            ts += [Task(f'mean-{o}-bw{b}', mean, mode='float', order=o, m=2, bw=b) for b in (1, 2, 3)]
        ts.append(Task(f'convex-{o}', convex, mode='float', order=o))
    for bw in (None, 500):
        for rs in (False, True):
            ts.append(Task(f'general-{bw}-{rs}', general, bw=bw, resample=rs))
    for m in (1, 2):
        for o in ('sorted', 'unsorted'):
            ts.append(Task(f'fallback-{m}-{o}', fallback, mode='float', m=m, order=o))
    ts.append(Task('fallback-q', fallback, mode='float', m=1, q=.3))
    for am, nm in (('median', 'median'), (.25, 'q'), ([.1, .9], 'qq')):
        ts += [Task(f'quant-{nm}', quant, mode='float', order='unsorted', am=am),
               Task(f'quant-{nm}-xr', quant, mode='float', order='sorted', am=am, bw=None, xr=[.6, 2.]),
               Task(f'quant-{nm}-bw2', quant, mode='float', order='reversed', am=am, bw=2)]
    ts.append(Task('bad', bad, mode='float'))
    return ts
