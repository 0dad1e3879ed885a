"""C20: metrics do not depend on what was evaluated before"""
from symx.api import Task

ALL = ['illum', 'avglum', 'loggcr', 'gcr', 'pwgcr', 'logpwgcr', 'density', 'avgraylum', 'pwavglum', 'maxlum', 'ugp', 'dgp', 'tasklum',
       'backlum', 'dgp_t1', 'log_gc', 'dgp_t2', 'ugr', 'threshold', 'pwsl2', 'view_area', 'backlum_true', 'srcillum', 'srcarea']
BASE = ALL[:10]
COLOR = ALL + ['irradiance']
ATTR = ['ctheta', 'radians', 'pos_idx', 'pweight', 'src_mask', 'source_pos_idx', 'task_mask', 'omega', 'lum', 'vec']
FUNCTIONS = ['raytools.evaluate.BaseMetricSet.__call__', 'raytools.evaluate.MetricSet', 'raytools.evaluate.ColorMetricSet.__call__',
             'raytools.evaluate.BaseMetricSet'] + ['raytools.evaluate.MetricSet.' + k for k in ALL]
BOUNDS = ('every luminance of a source and a background ray in stated ranges, solid angles fixed; every metric (and array property) '
          'first, followed by all others in 3 orders, with every metric of one or two other metric sets (other rays, view, '
          'scale; same or other class; sets that differ in one thing only) evaluated in between; single and repeated calls')
OUTSIDE = 'floating-point rounding; assigning omega after metrics were read; threads; more than 3 rays'
K = {'BaseMetricSet': BASE, 'MetricSet': ALL, 'ColorMetricSet': COLOR}


def make(env, cls, which=0, lum=None, flip=None, **kw):
    ev, m = env.m('evaluate'), env.m('mapper')
    num = float
    if which == 0:
        vec, oga, vm = [[0, 1, 0], [.6, .8, 0], [0, .6, .8]], [.1, .3, .2], m.ViewMapper((0, 1., 0), 180)
        kw = dict(dict(scale=num(179)), **kw)
    elif which == 1:
        vec, oga, vm = [[.6, .8, 0], [1, 0, 0], [.8, .6, 0]], [.2, .15, .4], m.ViewMapper((1., 0, 0), 180)
        kw = dict(dict(scale=num(100)), **kw)
    else:
        vec, oga, vm = [[0, 0, 1], [0, .6, .8]], [.25, .5], m.ViewMapper((0, 0, 1.), 90)
        kw = dict(dict(scale=num(50)), **kw)
    if flip == 'later':                                                                  # the first ray and the solid angles stay
        vec = vec[:1] + [[v[2], v[1], v[0]] if abs(v[0]) != abs(v[2]) else [v[1], v[0], v[2]] for v in vec[1:]]
    elif flip == 'first':                                                                # the last ray stays
        vec = [[v[0], v[1] * .96, v[1] * .28] for v in vec[:1]] + vec[1:]
    elif flip == 'away':                                                                 # no ray of the task
        vec = [[v[1] * .8, v[0] + v[1] * .6, v[2]] if v[0] == 0 == v[2] else v for v in vec]
    elif flip == 'below':
        vec = [[v[0], v[1], -v[2]] for v in vec]
    elif flip == 'omega':
        oga = oga[::-1]
    elif flip == 'lum':
        lum = lum[:1] + lum[:0:-1]
    elif flip == 'view':
        vm = m.ViewMapper((.6, .8, 0), vm.viewangle)
    elif flip == 'angle':
        vm = m.ViewMapper((0, 1., 0), 90)
    vec = [[num(c) for c in v] for v in vec]
    oga = [num(o) for o in oga]
    lum = lum[:len(vec)]
    if cls == 'ColorMetricSet':
        lum = [[x, num(2) * x, num(.5) * x] for x in lum]
    return getattr(ev, cls)(env.arr(vec), env.arr(oga), env.arr(lum), vm, **kw)


def lums(env, pre):
    return [env.real(pre + '0', 50, 1000), env.real(pre + '1', .1, 5), env.num(3)]


def flat(env, x):
    return env.np.ravel(env.np.asarray(x))


def order(env, cls, first, shift, other):
    """first on this set, something on another one, then everything"""
    names = K[cls]
    la = lums(env, 'a')
    if other:
        la[1] = env.num(.7)
    ref = {n: getattr(make(env, cls, 0, la), n) for n in names + (ATTR if cls != 'BaseMetricSet' else ATTR[:4])}
    env.fresh()
    ms = make(env, cls, 0, la)
    if other:
        ob = [make(env, o, 1 + k, [env.real('bc'[k], 50, 1000), env.num(2), env.num(3)]) for k, o in enumerate(other)]
        onames = K[other[0]][shift % 4::4]
        k = env.choice("metric", list(range(len(onames))))
        for o in ob:
            getattr(o, onames[k] if onames[k] in K[type(o).__name__] else 'illum')
    getattr(ms, first)
    if other:
        for o in ob:
            getattr(o, onames[k] if onames[k] in K[type(o).__name__] else 'illum')
    rest = list(ref)
    rest = rest[shift:] + rest[:shift]
    if shift % 2:
        rest = rest[::-1]
    for n in rest:
        env.close(f'{n} after {first}', flat(env, getattr(ms, n)), flat(env, ref[n]), tol=1e-9)
    got = ms(names)
    exp = [x for n in names for x in flat(env, ref[n])]
    env.close('called', got, exp, tol=1e-9)
    env.close('called again', ms(names), exp, tol=1e-9)


def selection(env, cls):
    """metricset at construction, in a call, alone or together"""
    names = K[cls]
    la = lums(env, 'a')
    i, j = env.choice('i', list(range(len(names)))), env.choice('j', list(range(3)))
    pick = [names[i], names[(i + 1 + 5 * j) % len(names)], names[i]]
    ref = [x for n in pick for x in flat(env, getattr(make(env, cls, 0, la), n))]
    env.close('at construction', make(env, cls, 0, la, metricset=pick)(), ref, tol=1e-9)
    ms = make(env, cls, 0, la, metricset=pick)
    ms([names[(i + 2) % len(names)]])
    env.close('default kept', ms(), ref, tol=1e-9)
    env.close('in a call', make(env, cls, 0, la)(pick), ref, tol=1e-9)
    d = make(env, cls, 0, la)
    env.close('class default', d(), make(env, cls, 0, la)(list(type(d).defaultmetrics)), tol=1e-9)


def similar(env, cls, flip, **kw):
    """two sets that agree in most of what they are made of"""
    la = lums(env, 'a')
    la[1] = env.num(.7)
    names = K[cls] + (ATTR if cls != 'BaseMetricSet' else ATTR[:4])
    fresh = [{n: flat(env, getattr(make(env, cls, 0, la), n)) for n in names}]
    env.fresh()
    fresh.append({n: flat(env, getattr(make(env, cls, 0, la, flip=flip, **kw), n)) for n in names[::-1]})
    env.fresh()
    a, b = make(env, cls, 0, la), make(env, cls, 0, la, flip=flip, **kw)
    for n in names:
        for _ in range(2):
            env.close(n, flat(env, getattr(a, n)), fresh[0][n], tol=1e-9, equal_nan=True)
            env.close(n + ' of the other', flat(env, getattr(b, n)), fresh[1][n], tol=1e-9, equal_nan=True)


def dependence(env, cls):
    """equal rays give equal metrics, whatever the object"""
    la, lb = lums(env, 'a'), lums(env, 'b')
    for n in K[cls]:
        a, b, c = make(env, cls, 0, la), make(env, cls, 0, lb), make(env, cls, 0, la)
        x, _, z = getattr(a, n), getattr(b, n), getattr(c, n)
        env.close(n, flat(env, z), flat(env, x), tol=1e-9)
        env.close(n + ' again', flat(env, getattr(a, n)), flat(env, x), tol=1e-9)
        y = getattr(make(env, cls, 0, lb), n)
        env.close(n + ' of the other', flat(env, getattr(b, n)), flat(env, y), tol=1e-9)


def tasks(tier):
    ts = []
    f = dict(mode='float')
    for cls, names in K.items():
        for i, n in enumerate(names):
            ts.append(Task(f'order-{cls}-{n}', order, cls=cls, first=n, shift=(3 * i) % 10, other=(), **f))
            if i % 3 == 0 or tier == 'thorough':
                o = [('MetricSet',), ('ColorMetricSet', 'MetricSet'), ('BaseMetricSet', cls), (cls, 'ColorMetricSet')][(i // 3) % 4]
                ts.append(Task(f'between-{cls}-{n}', order, cls=cls, first=n, shift=(3 * i + 1) % 10, other=o, **f))
        ts.append(Task(f'select-{cls}', selection, cls=cls, **f))
        ts.append(Task(f'twice-{cls}', dependence, cls=cls, **f))
    for cls in K:
        for fl in ('later', 'first', 'away', 'below', 'omega', 'lum', 'view', 'angle'):
            ts.append(Task(f'similar-{cls}-{fl}', similar, cls=cls, flip=fl, **f))
        for i, kw in enumerate((dict(scale=50.), dict(guth=False), dict(threshold=900.), dict(omega_as_view_area=True)) if cls == 'MetricSet' else (dict(scale=50.),)):
            ts.append(Task(f'similar-{cls}-option{i}', similar, cls=cls, flip=None, **kw, **f))
    for n in ATTR:
        ts.append(Task(f'order-attr-{n}', order, cls='MetricSet', first=n, shift=4, other=(), **f))
    return ts
