"""C08: resampling of arrays by whole factors"""
import math
from itertools import product
from symx.api import Task

FUNCTIONS = ['raytools.translate.resample']
BOUNDS = ('every pixel value in [-100, 100] of arrays of shape (2,), (2, 2), (2, 3), (4, 2), (6, 3), (6, 2), (4, 4), '
          '(2, 2, 2) with enlargement or reduction factors 1 to 4 per axis, explicit and default filter radius')
OUTSIDE = ('floating-point rounding; larger images; factors that enlarge one axis and reduce another; the '
           'scipy filters are encoded by their exact impulse response')


def refl_idx(i, n):
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def kern(s):
    if s <= 1e-15:
        return [(0, 1.)]
    r = int(4 * s + .5)
    w = [(k, math.exp(-.5 * (k / s) ** 2)) for k in range(-r, r + 1)]
    t = sum(x for _, x in w)
    return [(k, x / t) for k, x in w]


def box(size):
    """scipy: a window of `size` samples, centred (left of centre when even)"""
    return [(k - size // 2, 1. / size) for k in range(size)]


def smooth(img, shp, kernels):
    """img: dict index -> value"""
    for ax, ker in enumerate(kernels):
        out = {}
        for ix in product(*[range(n) for n in shp]):
            t = 0
            for k, w in ker:
                j = list(ix)
                j[ax] = refl_idx(ix[ax] + k, shp[ax])
                t = t + w * img[tuple(j)]
            out[ix] = t
        img = out
    return img


def image(env, shp):
    src = {ix: env.real('p' + '_'.join(map(str, ix)), -100, 100) for ix in product(*[range(n) for n in shp])}
    a = env.arr([src[ix] for ix in sorted(src)]).reshape(shp)
    return src, a


def compare(env, label, out, exp):
    for ix, e in exp.items():
        env.close(label, out[ix], e)


def up(env, shp, f, gauss, radius=None):
    tr = env.m('translate')
    src, a = image(env, shp)
    ts = tuple(n * k for n, k in zip(shp, f))
    kw = {} if radius is None else dict(radius=radius)
    if gauss is not None:
        kw['gauss'] = gauss
    out = tr.resample(a, ts, **kw)
    env.shape('enlarged', out, ts)
    rep = {ix: src[tuple(i // k for i, k in zip(ix, f))] for ix in product(*[range(n) for n in ts])}
    if gauss is False:
        return compare(env, 'nearest source pixel', out, rep)
    if radius is None:
        sig = [k - 1 for k in f]
    else:
        sig = radius if isinstance(radius, tuple) else (radius,) * len(shp)
    compare(env, 'smoothed source pixel', out, smooth(rep, ts, [kern(s) for s in sig]))
    env.close('the sum is kept', sum(out[ix] for ix in rep), sum(rep.values()), tol=1e-6)


def down(env, shp, f):
    tr = env.m('translate')
    src, a = image(env, shp)
    ts = tuple(n // k for n, k in zip(shp, f))
    out = tr.resample(a, ts)
    env.shape('reduced', out, ts)
    for ix in product(*[range(n) for n in ts]):
        blk = [src[tuple(i * k + o for i, k, o in zip(ix, f, off))] for off in product(*[range(k) for k in f])]
        env.close('mean of the block', out[ix], sum(blk) / len(blk))
    same = {ix: src[ix] for ix in src}
    for ix in src:
        env.close('input untouched', a[ix], same[ix])


def keep(env, shp, mode, ts=None):
    tr = env.m('translate')
    src, a = image(env, shp)
    if mode == 'none':
        compare(env, 'unchanged', tr.resample(a, ts), src)
        compare(env, 'unchanged', tr.resample(a, ts, gauss=False), src)
    elif mode == 'gauss':
        compare(env, 'gaussian', tr.resample(a, ts, radius=1.5), smooth(src, shp, [kern(1.5)] * len(shp)))
    else:
        compare(env, 'box', tr.resample(a, ts, gauss=False, radius=3), smooth(src, shp, [box(3)] * len(shp)))
        compare(env, 'box', tr.resample(a, ts, gauss=False, radius=2.7), smooth(src, shp, [box(2)] * len(shp)))


def tasks(tier):
    ts = []
    for shp, f in (((2,), (3,)), ((2, 2), (2, 2)), ((2, 3), (3, 2)), ((2, 3), (1, 4)), ((4, 2), (2, 1)),
                   ((2, 2, 2), (2, 2, 1))):
        nm = 'x'.join(map(str, shp)) + '-' + 'x'.join(map(str, f))
        ts += [Task('up-' + nm, up, mode='float', shp=shp, f=f, gauss=None),
               Task('up-flat-' + nm, up, mode='float', shp=shp, f=f, gauss=False)]
    ts += [Task('up-radius', up, mode='float', shp=(2, 2), f=(2, 2), gauss=True, radius=.75),
           Task('up-radius2', up, mode='float', shp=(2, 3), f=(2, 2), gauss=True, radius=(.5, 2.))]
    for shp, f in (((6,), (3,)), ((4, 4), (2, 2)), ((6, 3), (3, 1)), ((6, 3), (2, 3)), ((4, 2), (4, 2)),
                   ((6, 2), (3, 1)), ((5, 5), (5, 5)), ((2, 2, 2), (2, 1, 2))):
        nm = 'x'.join(map(str, shp)) + '-' + 'x'.join(map(str, f))
        ts.append(Task('down-' + nm, down, mode='float', shp=shp, f=f))
    for t in (None, (2, 3)):
        for m in ('none', 'gauss', 'box'):
            ts.append(Task(f'keep-{m}-{"ts" if t else "none"}', keep, mode='float', shp=(2, 3), mode_=m, ts=t))
    for t in ts:
        if 'mode_' in t.params:
            t.params['mode'] = t.params.pop('mode_')
    return ts
