"""C30: retina: point spread, source correction and densities"""
import json
import math
import os
from symx.api import Task

FUNCTIONS = ['raytools.evaluate.retina.' + k for k in ('hpsf', 'inv_hpsf', 'blur_sun', 'rgcf_density_on_meridian', 'rgc_density_on_meridian',
                                                       'rgcf_density_xy', 'binocular_density', 'rgcf_density', 'rgc_density')]
BOUNDS = ('every distance in [-20, 20], level in [1e-4, 1] and width in [0.01, 2] (or stated widths); every solid angle in [1e-8, 0.1] and luminance '
          'in [0, 1e8] of one of up to 3 sources; every eccentricity in [0, 90] on each meridian; every position of one of up to 3 points in '
          'each quadrant within 90 degrees')
OUTSIDE = 'floating-point rounding; agreement of the measured densities with their source (the table is a copy)'
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'curcio.json')))
WATSON = ((0.9851255243509307, 1.057910790284875, 22.139309670912258), (0.9934935604656688, 1.0354962329628912, 16.346430181031927),
          (0.9729319961934142, 1.0841663616483523, 7.632575316432455), (0.9960391452747578, 0.993222146189384, 12.131840717293096))


def spread(env, fwhm):
    r = env.m('evaluate.retina')
    w = env.real('w', .01, 2) if fwhm == 'any' else fwhm
    kw = {} if w is None else dict(fwhm=w)
    if w is None:
        w = env.num(.183333)
    x, y = env.real('x', -20, 20), env.real('y', 1e-4, 1)
    env.close('law', r.hpsf(x, **kw) * (4 * x * x + w * w), w * w, tol=1e-7)
    env.close('peak', r.hpsf(env.num(0), **kw), 1)
    env.close('half', r.hpsf(w / 2, **kw), env.num(.5))
    env.close('symmetric', r.hpsf(-x, **kw), r.hpsf(x, **kw))
    i = r.inv_hpsf(y, **kw)
    env.le('a distance', 0, i)
    env.close('level of the distance', r.hpsf(i, **kw), y, tol=1e-7)
    a = env.real('a', .001, 20)
    env.close('distance of the level', r.inv_hpsf(r.hpsf(a, **kw), **kw), a, tol=1e-6)
    v = r.hpsf(env.arr([[x, 1.], [0., a]]), **kw)
    env.check('shape', env.np.shape(v) == (2, 2))
    env.close('array', env.np.ravel(v), [r.hpsf(x, **kw), r.hpsf(env.num(1), **kw), 1, r.hpsf(a, **kw)], tol=1e-7)


def corrected(env, om, lum, lmin, fwhm):
    """(r0 + r)^2 / r0^2, r where the (limited) peak has fallen to lmin"""
    np = env.np
    r0 = np.sqrt(om / env.pi) * 180 / env.pi
    top = lmin * (1 + (.183333 / 2) ** 2) / (.183333 / 2) ** 2
    h = (fwhm / 2) ** 2
    if lum <= lmin:
        return 1
    l = lum if lum < top else top
    r = np.sqrt(h * l / lmin - h)
    return (1 + r / r0) ** 2


def sun(env, which, lmin=None, fwhm=None, lum=None, om=None):
    rt = env.m('evaluate.retina')
    kw = {k: v for k, v in (('lmin', lmin), ('fwhm', fwhm)) if v is not None}
    m, w = lmin or 279.33, fwhm or .183333
    o = env.real('omega', 1e-8, .1) if om is None else env.num(om)
    l = env.real('lum', *lum) if isinstance(lum, tuple) else env.num(lum)
    want = corrected(env, o, l, m, w)
    if which == 'scalar':
        r = rt.blur_sun(o, l, **kw)
        env.close('correction', r, want, tol=1e-6)
        env.le('enlarges', 1, r, slack=1e-9)
    else:
        a, b = env.arr([o, 6.7967e-05, 1e-3]), env.arr([l, 2000., 5.])
        keep = a.copy(), b.copy()
        r = rt.blur_sun(a, b, **kw)
        env.check('shape', env.np.shape(r) == (3,))
        env.close('correction', r[0], want, tol=1e-6)
        for i, (p, q) in enumerate(((6.7967e-05, 2000.), (1e-3, 5.))):
            env.close('others', r[i + 1], corrected(env, env.num(p), env.num(q), m, w), tol=1e-6)
        env.close('arguments', list(a) + list(b), list(keep[0]) + list(keep[1]))


def meridian(env, mi, finding=False):
    rt = env.m('evaluate.retina')
    np = env.np
    d = env.real('d', 0, 90)
    import numpy
    r = rt.rgcf_density_on_meridian(env.arr([d, 5., 0.]), numpy.array([mi, (mi + 1) % 4, mi]))
    env.check('shape', np.shape(r) == (3,))
    for k, (x, i) in enumerate(((d, mi), (5., (mi + 1) % 4), (0., mi))):
        a, r2, re = WATSON[i]
        p = (1 + x / r2)
        e = np.exp(-x / re) if k == 0 else math.exp(-x / re)
        if finding:
            env.close('density of the formula', r[k], 33162.4 * (a / (p * p) + (1 - a) * e), tol=1e-4)
        else:
            f = env.num(33162.4)
            dif = r[k] - f * a / (p * p)
            one, full = (1 - a) * e, f * ((1 - a) * e)
            env.check('density with the second term scaled or not', ((dif - one < 1e-5) & (one - dif < 1e-5)) | ((dif - full < 1e-4) & (full - dif < 1e-4)))


def table(env, mi, lo, hi):
    rt = env.m('evaluate.retina')
    import numpy
    t = TABLE[mi]
    d = env.real('d', lo, hi)
    r = rt.rgc_density_on_meridian(env.arr([d, 3.]), numpy.array([mi, (mi + 1) % 4]))
    if hi <= t[0][0]:
        want = t[0][1]
    elif lo >= t[-1][0]:
        want = t[-1][1]
    else:
        k = [i for i in range(len(t) - 1) if t[i][0] <= lo and hi <= t[i + 1][0]][0]
        want = t[k][1] + (d - t[k][0]) * ((t[k + 1][1] - t[k][1]) / (t[k + 1][0] - t[k][0]))
    if not isinstance(want, float) or want > 1:
        env.close('between the measurements', r[0], want if isinstance(want, float) or t[-1][1] > 1 else env.np.maximum(want, 1), tol=1e-6)
    else:
        env.close('at least one', r[0], 1)
    o = TABLE[(mi + 1) % 4]
    k = [i for i in range(len(o) - 1) if o[i][0] <= 3 <= o[i + 1][0]][0]
    env.close('other point', r[1], o[k][1] + (3 - o[k][0]) * (o[k + 1][1] - o[k][1]) / (o[k + 1][0] - o[k][0]), tol=1e-6)


def quadrant(env, sx, sy, finding=False):
    """the radius of the ellipse through the densities of the two meridians"""
    rt = env.m('evaluate.retina')
    np = env.np
    x = sx * env.real('x', .1, 60) if sx else env.num(0)
    y = sy * env.real('y', .1, 60) if sy else env.num(0)
    seen = []

    def func(r, mi):
        seen.append((r, mi))
        return r + np.asarray([(100., 220., 360., 540.)[int(k)] for k in mi])
    p = env.arr([[x, y], [3., 4.], [0., 0.]])
    keep = p.copy()
    d = rt.rgcf_density_xy(p, func)
    env.close('argument', np.ravel(p), np.ravel(keep))
    env.check('shape', np.shape(d) == (3,))
    r = np.sqrt(x * x + y * y)
    dx = r + (100. if sx > 0 else 360.)
    up, down = r + 220., r + 540.

    def off(dy):
        return d[0] - r * r / (x * x / dx + y * y / dy)
    eps = 1e-5
    if sy == 0:
        env.close('on the meridian', d[0], dx, tol=1e-5)
    elif finding or sx == sy:
        q = off(up if sy > 0 else down)
        env.check('density of the quadrant', (q < eps) & (q > -eps))
    else:
        u, v = off(up), off(down)
        env.check('density with one of the vertical meridians', ((u < eps) & (u > -eps)) | ((v < eps) & (v > -eps)))
    dx, dy = 105., 225.
    env.close('other point', d[1], 25 / (9 / dx + 16 / dy), tol=1e-5)
    env.check('centre', (d[2] > 100 - 1e-9) & (d[2] < 540 + 1e-9))
    env.close('distance', seen[0][0][0], r, tol=1e-6)


def both(env, sx, sy, which, lo=.01, hi=.6):
    """the average of both eyes, left and right alike"""
    rt = env.m('evaluate.retina')
    np = env.np
    x, y = sx * env.real('x', lo, hi), sy * env.real('y', .01 if hi < .7 else .001, .6 if hi < .7 else .01)
    p = env.arr([[x, y], [.3, .2]])
    keep = p.copy()
    if which == 'rgcf':
        f, r = rt.rgcf_density_on_meridian, rt.rgcf_density(p)
    elif which == 'rgc':
        def f(r, mi):
            return r + np.asarray([(100., 220., 360., 540.)[int(k)] for k in mi])
        env.setattr(rt, 'rgc_density_on_meridian', f)
        r = rt.rgc_density(p)
    else:
        def f(r, mi):
            return r + np.asarray([(100., 220., 360., 540.)[int(k)] for k in mi])
        r = rt.binocular_density(p, f)
    env.close('argument', np.ravel(p), np.ravel(keep))
    a = rt.rgcf_density_xy(env.arr([[90 * x, 90 * y], [27., 18.]]), f)
    b = rt.rgcf_density_xy(env.arr([[-90 * x, 90 * y], [-27., 18.]]), f)
    env.close('average of both eyes', r, [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2], tol=1e-5)
    if which != 'rgc':
        q = rt.binocular_density(env.arr([[-x, y], [-.3, .2]]), f)
        env.close('left and right alike', q, list(r), tol=1e-5)


def tasks(tier):
    ts = [Task(f'spread-{w}', spread, fwhm=w) for w in ('any', None, .5)]
    f = dict(mode='float')
    R = ((0, 279), (279.34, 30000), (34000, 1e8))
    for i, l in enumerate(R):
        ts += [Task(f'sun-{i}', sun, which='scalar', lum=l, **f), Task(f'sun-array-{i}', sun, which='array', lum=l, **f)]
    for i, w in enumerate((.05, .5, 1.)):
        for j, m in enumerate((None, 100., 1000.)):
            k = m or 279.33
            lum = ((0, .99 * k), (1.01 * k, 110 * k), (125 * k, 1e8))[(i + j) % 3]
            ts.append(Task(f'sun-{w}-{m}', sun, which='array' if i else 'scalar', lum=lum, lmin=m, fwhm=w, **f))
            ts.append(Task(f'sun-solid-{w}-{m}', sun, which='scalar', lum=(1.01 * k, 110 * k), om=6.8e-5, lmin=m, fwhm=w, **f))
    for m in range(4):
        ts.append(Task(f'meridian-{m}', meridian, mi=m, **f))
        t = TABLE[m]
        ts += [Task(f'table-{m}-{k}', table, mi=m, lo=t[k][0], hi=t[k + 1][0], **f) for k in range(len(t) - 1)]
        ts += [Task(f'table-{m}-in', table, mi=m, lo=0, hi=t[0][0], **f), Task(f'table-{m}-out', table, mi=m, lo=t[-1][0], hi=120, **f)]
    ts.append(Task('watson', meridian, mi=1, finding=True, **f))
    for sx in (1, -1, 0):
        for sy in (1, -1, 0):
            if sx or sy:
                if sx:
                    ts.append(Task(f'quadrant{sx}{sy}', quadrant, sx=sx, sy=sy, **f))
                if sx and sy:
                    ts += [Task(f'both-{w}{sx}{sy}', both, sx=sx, sy=sy, which=w, **f) for w in ('rgcf', 'rgc', 'any')]
                    ts += [Task(f'both-edge-{w}{sx}{sy}', both, sx=sx, sy=sy, which=w, lo=.9, hi=.9999, **f) for w in ('rgcf', 'any')]
    ts += [Task('above', quadrant, sx=-1, sy=1, finding=True, **f)]
    return ts
