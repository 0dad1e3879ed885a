"""C18: basic metrics of rays in a view"""
from symx.api import Task
from checks.util import dot
from checks.c12 import DIRS, axes

FUNCTIONS = ['raytools.evaluate.BaseMetricSet.' + k for k in
             ('__init__', '__call__', 'check_metrics', 'check_safe2sum', 'ctheta', 'radians', 'pweight', 'pweighted_area',
              'illum', 'avglum', 'maxlum', 'pwavglum', 'avgraylum', 'gcr', 'pwgcr', 'logpwgcr', 'loggcr', 'density',
              'omega')] + ['raytools.evaluate.MetricSet.maxlum', 'raytools.mapper.AngularMixin.ctheta',
                           'raytools.mapper.AngularMixin.in_view']
BOUNDS = ('every luminance in [0, 1000], solid angle in [0.001, 1] and scale in [1, 200] of up to 4 rays; one ray of any '
          'direction in a plane through the view direction; views of 90, 180 and 360 degrees, 5 view directions; rays given as '
          'unit vectors or of any length')
OUTSIDE = ('floating-point rounding; more rays (up to 100 follow the same sums; above see C21); bright rays within a degree of '
           'the edge of the view (C21); the position index (C22) is taken from the package')
NAMES = ['illum', 'avglum', 'loggcr', 'gcr', 'pwgcr', 'logpwgcr', 'density', 'avgraylum', 'pwavglum', 'maxlum']


def scene(env, dn, va, n, length=False, sym=True):
    """vectors, whether they are in view, their cosine"""
    np = env.np
    r, u, d = [[env.num(round(c, 12)) for c in v] for v in axes(DIRS[dn])]
    lim = {90: .7, 180: 1.5, 360: 3.1}[va]

    def at(c, s, a, b):
        c, s, a, b = [env.num(k) for k in (c, s, a, b)]
        return [c * d[k] + s * (a * r[k] + b * u[k]) for k in range(3)], c
    rays = []
    if sym:
        t = env.real('tilt', .01, lim)
        rays.append((*at(np.cos(t), np.sin(t), .6, .8), True))
    for c, s, a, b in ((.96, .28, .8, -.6), (.8, .6, 0., 1.), (.936, .352, -1., 0.)):
        rays.append((*at(c, s, a, b), True))
    rays = rays[:n]
    if va != 360:
        rays.insert(1, (*at(*{90: (.28, .96), 180: (-.6, .8)}[va], -.6, .8), False))
    else:
        rays.insert(1, (*at(-.6, .8, -.6, .8), True))
    vec = [v for v, _, _ in rays]
    if length:
        f = env.real('length', .5, 2)
        vec = [[f * (k + 1) * c for c in v] for k, v in enumerate(vec)]
    return vec, [c for _, c, _ in rays], [i for _, _, i in rays]


def base(env, dn, va, n, cls='BaseMetricSet', length=False, names=None, sym=True, dark=False, guth=True, ctor=False, zero=False, black=()):
    np = env.np
    ev, m = env.m('evaluate'), env.m('mapper')
    vm = m.ViewMapper(DIRS[dn], va)
    vec, cos, inside = scene(env, dn, va, n, length, sym)
    N = len(vec)
    lum = [env.real(f'l{i}', 0 if zero else .01, 1000) for i in range(N)]
    if dark:
        lum = [0. * x for x in lum]
    lum = [env.num(0) if i in black else x for i, x in enumerate(lum)]
    oga = [env.real(f'o{i}', .001, 1) for i in range(N)]
    sc = env.real('scale', 1, 200)
    names = names or NAMES
    kw = dict(scale=sc, guth=guth)
    if ctor:
        kw['metricset'] = list(names)
    ms = getattr(ev, cls)(env.arr(vec), env.arr(oga), env.arr(lum), vm, **kw)
    got = ms() if ctor else ms(names)
    env.shape('metrics', got, (len(names),))
    I = [i for i in range(N) if inside[i]]
    P = None
    if any('pw' in k for k in names):
        P = ev.PositionIndex(guth).positions(vm, env.arr([vec[i] for i in I]))
    S = lambda f: sum(f(i) for i in I)      # noqa
    area = S(lambda i: oga[i])
    avg = S(lambda i: lum[i] * oga[i]) / area
    for name, g in zip(names, got):
        env.observe(name, g)
        if name == 'illum':
            e = sc * S(lambda i: cos[i] * lum[i] * oga[i])
        elif name == 'avglum':
            e = sc * avg
        elif name == 'gcr' or name == 'loggcr':
            if bool(avg > 0):
                e = S(lambda i: lum[i] * lum[i] * oga[i]) / area / (avg * avg)
            else:
                e = env.num(1)
            if name == 'loggcr':
                e = np.log10(e)
        elif name == 'density':
            e = len(I) / area
        elif name == 'avgraylum':
            e = sc * S(lambda i: lum[i]) / len(I)
        elif name == 'maxlum':
            env.le(name, [sc * lum[i] for i in I], [g] * len(I))
            env.check(name, env.np.any(env.arr([sc * lum[i] for i in I]) >= g - 1e-9))
            continue
        else:
            w = [oga[i] / (P[k] * P[k]) for k, i in enumerate(I)]
            pa = sum(w)
            pavg = sum(lum[i] * x for i, x in zip(I, w)) / pa
            if name == 'pwavglum':
                e = sc * pavg
            elif bool(pavg > 0):
                e = sum(lum[i] * lum[i] * x for i, x in zip(I, w)) / pa / (pavg * pavg)
            else:
                e = env.num(1)
            if name == 'logpwgcr':
                e = np.log10(e)
        env.close(name, g, e, tol=1e-6)
        env.close(name + ' as a property', getattr(ms, name), e, tol=1e-6)


def names(env, cls, bad):
    ev, m = env.m('evaluate'), env.m('mapper')
    x = env.real('l', 1, 2)
    vm = m.ViewMapper((0., 1., 0.), 180)
    K = getattr(ev, cls)
    a = [env.arr([[0., 1., 0.], [.6, .8, 0.]]), env.arr([.1, .2]), env.arr([x, 1.]), vm]
    env.raises('unknown name at construction', AttributeError, lambda: K(*a, metricset=['illum', bad]))
    env.raises('unknown name in a call', AttributeError, lambda: K(*a)(['avglum', bad]))
    env.check('known names', K.check_metrics(['illum', bad, 'gcr']) == ['illum', 'gcr'])
    env.check('safe to add', K.check_safe2sum(['illum', 'avglum', 'density']) and not K.check_safe2sum(['illum', 'gcr']))
    r = K(*a, metricset=['avglum', 'illum', 'avglum'])()
    env.close('in the order asked', r, [(.1 * x + .2) / .3 * 179, (.1 * x + .16) * 179, (.1 * x + .2) / .3 * 179], tol=1e-6)


def additive(env):
    """metrics declared safe to sum are additive over parts of the light"""
    ev, m = env.m('evaluate'), env.m('mapper')
    vm = m.ViewMapper(DIRS['a'], 180)
    vec, cos, inside = scene(env, 'a', 180, 3)
    N = len(vec)
    a = [env.real(f'a{i}', .01, 100) for i in range(N)]
    b = [env.real(f'b{i}', .01, 100) for i in range(N)]
    o = [env.real(f'o{i}', .001, 1) for i in range(N)]
    ms = [ev.BaseMetricSet(env.arr(vec), env.arr(o), env.arr(l), vm)(['illum', 'avglum'])
          for l in (a, b, [x + y for x, y in zip(a, b)])]
    env.close('sum of parts', ms[0] + ms[1], ms[2], tol=1e-6)


def permute(env, p):
    """the order of the rays does not matter"""
    ev, m = env.m('evaluate'), env.m('mapper')
    vm = m.ViewMapper(DIRS['y'], 180)
    vec, cos, inside = scene(env, 'y', 180, 3)
    l = [env.real(f'l{i}', .01, 100) for i in range(4)]
    o = [env.real(f'o{i}', .001, 1) for i in range(4)]
    k = ['illum', 'avglum', 'gcr', 'density', 'avgraylum']
    a = ev.BaseMetricSet(env.arr(vec), env.arr(o), env.arr(l), vm)(k)
    b = ev.BaseMetricSet(env.arr([vec[i] for i in p]), env.arr([o[i] for i in p]), env.arr([l[i] for i in p]), vm)(k)
    env.close('permuted rays', a, b, tol=1e-6)


def tasks(tier):
    ts = []
    for dn in ('y', 'a', 'b', 'z', '-z'):
        for va in (90, 180, 360):
            ts.append(Task(f'base-{dn}-{va}', base, dn=dn, va=va, n=3, names=['illum', 'avglum', 'gcr', 'density', 'avgraylum', 'loggcr']))
    for cls in ('BaseMetricSet', 'MetricSet'):
        for va in (180, 360):
            ts.append(Task(f'max-{cls}-{va}', base, dn='y', va=va, n=3, cls=cls, names=['maxlum', 'illum']))
            ts.append(Task(f'pw-{cls}-{va}', base, dn='y', va=va, n=3, cls=cls, names=['pwavglum', 'pwgcr', 'logpwgcr'], sym=False))
            ts.append(Task(f'length-{cls}-{va}', base, dn='a', va=va, n=2, cls=cls, length=True, names=['illum', 'avglum', 'gcr']))
            ts.append(Task(f'dark-{cls}-{va}', base, dn='a', va=va, n=2, cls=cls, dark=True, sym=False))
            for q, k in (('pw', ['pwavglum', 'pwgcr', 'logpwgcr']), ('sum', ['illum', 'avglum', 'gcr', 'density', 'avgraylum'])):
                ts.append(Task(f'black-{q}-{cls}-{va}', base, dn='y', va=va, n=3, cls=cls, black=(2,), sym=False, names=k))
                ts.append(Task(f'black2-{q}-{cls}-{va}', base, dn='b', va=va, n=3, cls=cls, black=(0, 3), sym=False, names=k))
            ts.append(Task(f'zero-{cls}-{va}', base, dn='a', va=va, n=2, cls=cls, zero=True, names=['illum', 'gcr', 'avglum']))
            ts.append(Task(f'ctor-{cls}-{va}', base, dn='a', va=va, n=2, cls=cls, ctor=True, names=['gcr', 'illum', 'density']))
        ts += [Task(f'names-{cls}-{b}', names, cls=cls, bad=b) for b in ('Illum', 'vec', 'dgp2')]
    ts += [Task('pw-kim', base, dn='y', va=180, n=3, names=['pwavglum', 'pwgcr'], sym=False, guth=False),
           Task('additive', additive), Task('permute-1', permute, p=(3, 1, 0, 2)), Task('permute-2', permute, p=(1, 2, 3, 0))]
    return ts
