"""C19: glare metrics"""
from symx.api import Task
from checks.c12 import DIRS, axes

FUNCTIONS = ['raytools.evaluate.MetricSet.' + k for k in
             ('__init__', 'src_mask', 'task_mask', 'sources', 'background', 'source_pos_idx', 'threshold', 'pwsl2', 'srcillum',
              'srcarea', 'backlum', 'backlum_true', 'tasklum', 'dgp', 'dgp_t1', 'dgp_t2', 'log_gc', 'ugr', 'ugp', 'maxlum',
              'illum', 'view_area')]
BOUNDS = ('every luminance in [0, 1000] (some fixed), solid angle in [0.001, 1], scale in [1, 200], threshold in [0.1, 5000] '
          'and task radius in [1, 80] degrees (away from the rays) of up to 5 rays, one of them out of view; views of 90, 180 and '
          '360 degrees in 4 view directions')
OUTSIDE = ('floating-point rounding; more than 100 rays (C21); no ray within the task radius or no background ray (division by '
           'zero); the position index (C22) is taken from the package')
RAYS = ((.96, .28, .8, -.6), (.8, .6, 0., 1.), (.6, .8, -.6, .8), (.936, .352, -1., 0.), (.28, .96, 1., 0.))
ANG = (16.2602, 36.8699, 53.1301, 20.61, 73.7398)


def scene(env, dn, va, n):
    r, u, d = [[env.num(round(c, 12)) for c in v] for v in axes(DIRS[dn])]
    lim = {90: 46., 180: 90., 360: 200.}[va]
    rays = [(*q, a) for q, a in zip(RAYS, ANG) if a < lim][:n]
    rays.insert(1, (*{90: (.28, .96), 180: (-.6, .8), 360: (-.8, .6)}[va], -.6, .8, 1e3 if va != 360 else 143.1301))
    rays = [([env.num(x) for x in q[:4]], q[4]) for q in rays]
    vec = [[c * d[k] + s * (a * r[k] + b * u[k]) for k in range(3)] for (c, s, a, b), _ in rays]
    return vec, [q[0][0] for q in rays], [q[1] for q in rays]


LIN = ['pwsl2', 'srcillum', 'srcarea', 'backlum', 'illum', 'threshold', 'dgp_t1', 'view_area', 'log_gc', 'dgp_t2', 'tasklum',
       'backlum_true']


def glare(env, dn, va, n, thr='abs', guth=True, low=False, fixed=None, ctor=False, order=0, trad=None, cls='MetricSet', cst=True, sc=179, which=LIN):
    """which: names asked for"""
    np, pi = env.np, env.pi
    ev, m = env.m('evaluate'), env.m('mapper')
    vm = m.ViewMapper(DIRS[dn], va)
    vec, cos, ang = scene(env, dn, va, n)
    N = len(vec)
    I = [i for i in range(N) if ang[i] < 900]
    if fixed is None:
        lum = [env.real(f'l{i}', 0, 1000) for i in range(N)]
    else:
        lum = [env.real(f'l{i}', 0, 1000) if i in fixed else env.num([20., 3., 11., 500., 7., 2.][i]) for i in range(N)]
    oga = [env.real(f'o{i}', .001, 1) for i in range(N)] if not cst else [env.num([.02, .3, .4, .011, .15, .07][i]) for i in range(N)]
    sc = env.num(sc) if sc else env.real('scale', 1, 200)
    kw = dict(scale=sc, guth=guth)
    if thr == 'abs':
        kw['threshold'] = env.real('thr', 100.001, 5000)
    elif thr == 'factor':
        kw['threshold'] = env.real('thr', .1, 99.999)
    elif thr == 'any':
        kw['threshold'] = env.real('thr', 50, 150)
    elif thr == '100':
        kw['threshold'] = 100
    t = kw.get('threshold', 2000.)
    if trad == 'any':
        kw['tradius'] = env.real('trad', 17, 80)
        for a in ang:
            env.assume((kw['tradius'] > a + 1e-3) | (kw['tradius'] < a - 1e-3))
    elif trad is not None:
        kw['tradius'] = trad
    tr = kw.get('tradius', 30.)
    if low is not None:
        kw['lowlight'] = low
    P = ev.PositionIndex(guth).positions(vm, env.arr([vec[i] for i in I]))
    P = dict(zip(I, P))
    S = lambda f, J: sum((f(i) for i in J), 0.)      # noqa
    T = [i for i in I if bool(ang[i] < tr)]
    task = sc * S(lambda i: lum[i] * oga[i], T) / S(lambda i: oga[i], T) if T else None
    if not bool(t > 100):
        t = t * task
    src = [i for i in I if bool(lum[i] * sc > t)]
    bg = [i for i in I if i not in src]
    illum = sc * S(lambda i: cos[i] * lum[i] * oga[i], I)
    sill = sc * S(lambda i: cos[i] * lum[i] * oga[i], src)
    pw = sc * sc * S(lambda i: lum[i] * lum[i] * oga[i] / (P[i] * P[i]), src)
    env.assume(illum > 1e-3)
    e = {'pwsl2': pw, 'srcillum': sill, 'srcarea': S(lambda i: oga[i], src), 'backlum': (illum - sill) / pi,
         'illum': illum, 'threshold': t, 'dgp_t1': 5.87 * 10**-5 * illum, 'view_area': S(lambda i: oga[i], I),
         'log_gc': np.log10(1 + pw / illum ** 1.87)}
    if T:
        e['tasklum'] = task
    if bg:
        e['backlum_true'] = sc * S(lambda i: lum[i] * oga[i], bg) / S(lambda i: oga[i], bg)
    env.assume((e['log_gc'] >= 0) & (e['log_gc'] < 100))       # true for these ranges
    e['dgp_t2'] = 9.18 * 10**-2 * e['log_gc']
    if 'dgp' in which:
        ll = 1.
        if low and bool(illum < 500):
            ll = np.exp(.024 * illum - 4) / (1 + np.exp(.024 * illum - 4))
        dgp = ll * (e['dgp_t1'] + e['dgp_t2'] + .16)
        e['dgp'] = dgp if bool(dgp < 1) else 1.
    if 'ugr' in which or 'ugp' in which:
        if not src:
            e['ugr'] = 0.
        elif bg:
            env.assume((illum - sill > 1e-3) & (pw > 1e-3))
            ugr = 8 * np.log10(.25 * pw / ((illum - sill) / pi))
            e['ugr'] = ugr if bool(ugr > 0) else 0.
        if 'ugr' in e:
            e['ugp'] = (1 + 2 / 7 * 10 ** (-(e['ugr'] + 5) / 40)) ** -10
    e = {k: e[k] for k in which if k in e}
    names = sorted(e)
    if order:
        names = names[::-1] if order == 1 else names[order:] + names[:order]
    if ctor:
        kw['metricset'] = names
    ms = getattr(ev, cls)(env.arr(vec), env.arr(oga), env.arr(lum), vm, **kw)
    got = ms() if ctor else ms(names)
    env.shape('metrics', got, (len(names),))
    for k, g in zip(names, got):
        env.close(k, g, e[k], tol=1e-6)
    for k in ('dgp', 'ugr', 'ugp', 'pwsl2'):
        if k in e:
            env.close(k + ' as a property', getattr(ms, k), e[k], tol=1e-6)
    if 'dgp' in e:
        env.le('dgp range', ms.dgp, 1.)


def tasks(tier):
    f = {}
    ts = []
    for dn in ('y', 'a', 'b', 'z'):
        for va in (90, 180, 360):
            ts.append(Task(f'abs-{dn}-{va}', glare, dn=dn, va=va, n=3))
    D, U = ['dgp', 'illum'], ['ugr', 'ugp', 'srcarea']
    for va in (90, 180, 360):
        ts += [Task(f'factor-{va}', glare, dn='y', va=va, n=3, thr='factor', fixed=(0, 2)),
               Task(f'omega-{va}', glare, dn='y', va=va, n=2, cst=False),
               Task(f'scale-{va}', glare, dn='y', va=va, n=2, sc=None),
               Task(f'kim-{va}', glare, dn='y', va=va, n=3, guth=False),
               Task(f'default-{va}', glare, dn='y', va=va, n=3, thr='default', low=None),
               Task(f'ctor-{va}', glare, dn='y', va=va, n=3, fixed=(0, 2), ctor=True)]
        for k, w in (('dgp', D), ('ugr', U)):
            ts += [Task(f'{k}-{va}', glare, dn='y', va=va, n=2, which=w), Task(f'{k}-one-{va}', glare, dn='b', va=va, n=3, fixed=(0,), which=w),
                   Task(f'{k}-low-{va}', glare, dn='y', va=va, n=2, fixed=(0, 2), which=w, low=True, thr='any'),
                   Task(f'{k}-kim-{va}', glare, dn='a', va=va, n=2, fixed=(0,), which=w, guth=False),
                   Task(f'{k}-factor-{va}', glare, dn='a', va=va, n=3, fixed=(2,), which=w, thr='factor', trad=20.),
                   Task(f'{k}-default-{va}', glare, dn='z', va=va, n=3, fixed=(2,), which=w, thr='default', low=None, ctor=True)]
    ts += [Task('both-thresholds', glare, dn='y', va=180, n=3, thr='any', fixed=(0, 3)),
           Task('threshold-100', glare, dn='y', va=180, n=3, thr='100', fixed=(0, 3)),
           Task('radius', glare, dn='y', va=180, n=5, thr='factor', fixed=(0,), trad='any'),
           Task('radius-abs', glare, dn='a', va=180, n=5, fixed=(3,), trad='any')]
    for tr in (18., 25., 45., 60., 80.):
        ts.append(Task(f'radius-{int(tr)}', glare, dn='b', va=180, n=5, thr='factor', fixed=(0, 4), trad=tr))
    for k in (1, 3, 5, 7, 9):
        ts.append(Task(f'order-{k}', glare, dn='y', va=180, n=2, order=k))
    for k in (0, 1, 2):
        ts.append(Task(f'order-glare-{k}', glare, dn='y', va=180, n=2, order=k, fixed=(0,), which=U + D + ['pwsl2', 'backlum']))
    return ts
