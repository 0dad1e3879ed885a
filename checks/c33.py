"""C33: functions leave their arguments alone and repeat themselves"""
import numpy
from symx.api import Task
from checks.rad import Picture, Radiance

FUNCTIONS = ['raytools.translate.*', 'raytools.mapper.mapper.Mapper.*', 'raytools.mapper.angularmixin.AngularMixin.*', 'raytools.mapper.viewmapper.ViewMapper.*',
             'raytools.mapper.solidviewmapper.SolidViewMapper.*', 'raytools.imagetools.array_*, normalize_peak, find_peak, gather_strays',
             'raytools.evaluate (metric sets, PositionIndex, retina, GSS)', 'raytools.io (conversions and writers)']
BOUNDS = ('every value (in ranges clear of poles) of one or two entries of each array argument; arrays that are whole, reversed, transposed or '
          'slices of larger ones; two calls of each function')
OUTSIDE = 'floating-point rounding; functions that change an array by contract (add_vecs_to_img changes its image)'


def vecs(env, n=3, norm=True):
    """directions in front of y; a component of the first is symbolic (which leaves its length within 1e-3 of one)"""
    a = env.real('a', .2999, .3001) if norm else env.real('a', -.3, .3)
    v = [[a, .8, .51961524], [.1, .9, -.3], [-.4, .6, .5], [.2, .7, .1]][:n]
    return v[:1] + [[float(c) for c in numpy.asarray(x) / numpy.linalg.norm(x)] if norm else x for x in v[1:]]


def points(env):
    a, b = env.real('a', .31, .33), env.real('b', .42, .44)
    return [[a, b], [.6, .35], [.55, .71]]


def lums(env, n=3):
    return [env.real('l', 100, 900), 5000., 20.][:n]


def image(env, w=4, h=4):
    x = [[.3 + .1 * ((3 * i + 5 * j) % 7) for j in range(h)] for i in range(w)]
    x[w // 2][h // 2] = env.real('p', .1, 9)
    x[1][2] = env.real('q', .1, 9)
    return x


def color(env, w=4):
    return [[[.2 * (k + 1) + .1 * ((3 * i + 5 * j) % 7) if (i, j, k) != (1, 2, 0) else env.real('p', .1, 9) for j in range(w)] for i in range(w)]
            for k in range(3)]


def T(name):
    return lambda env: getattr(env.m('translate'), name)


def M(name, kind='v'):
    def get(env):
        mp = env.m('mapper')
        o = {'v': lambda: mp.ViewMapper((0, 1., 0), 180), 'n': lambda: mp.ViewMapper((0, 1., 0), 60), 'w': lambda: mp.ViewMapper((0, 1., 0), 360),
             's': lambda: mp.SolidViewMapper((0, 1., 0), 180), 'm': lambda: mp.Mapper((0, 1., 0))}[kind]()
        return getattr(o, name)
    return get


def I(name):
    return lambda env: getattr(env.m('imagetools'), name)


def first(get):
    def g(env):
        f = get(env)
        return lambda *a, **k: f(*a, **k)[0]
    return g


def R(name):
    return lambda env: getattr(env.m('evaluate.retina'), name)


def IO(name):
    return lambda env: getattr(env.m('io'), name)


def metrics(cls, **kw):
    def get(env):
        ev, mp = env.m('evaluate'), env.m('mapper')
        vm = mp.ViewMapper((0, 1., 0), 180)

        def call(v, o, l):
            k = dict(kw)
            if cls == 'ColorMetricSet':
                k['omega_as_view_area'] = False
            m = getattr(ev, cls)(v, o, l, vm, **k)
            return [m()]
        return call
    return get


def position(kind):
    def get(env):
        p = env.m('evaluate').PositionIndex(kind)
        vm = env.m('mapper').ViewMapper((0, 1., 0), 180)
        return lambda v: [p.positions(vm, v), p.positions_vec(env.arr([[0, 1., 0]]), v)]
    return get


def write(name):
    def get(env):
        rad = Radiance(env).install()

        def call(x):
            getattr(env.m('io'), name)(x, 'a.hdr', ['x'])
            p = rad.files['a.hdr']
            return [c for row in p.rows for q in row for c in q]
        return call
    return get


def transform(env):
    mp = env.m('mapper')
    a, b = mp.ViewMapper((0, 1., 0), 180), mp.ViewMapper((.1, 1., 0), 120)
    return lambda im: a.transform_to(im, b)


def add(env):
    vm = env.m('mapper').ViewMapper((0, 1., 0), 180)
    return lambda v: vm.add_vecs_to_img(env.np.zeros((6, 6)), v, grow=1)


def sun(env):
    """bright source of several pixels"""
    l = [env.real('l', 2e5, 4e5), 1.5e5, 1e4, 30.]
    v = [[0, 1., 0], [.003, 1., 0], [0, 1., .004], [.3, .8, .2]]
    return [[float(c) for c in numpy.asarray(x) / numpy.linalg.norm(x)] for x in v], [2e-5, 3e-5, 2e-5, 1e-4], l


def glare(env):
    hv, mp = env.m('evaluate.hvsgsm'), env.m('mapper')
    Radiance(env, {'a.hdr': Picture(['x'], 4, 4, [[[1., 2., 3.]] * 4] * 4)}).install()
    g = hv.GSS(mp.ViewMapper((0, 1., 0), 3), fwidth=2)
    g.lum = 'a.hdr'

    def call(x):
        r, a = g.glare_response(x, 30., 12., 4., return_arrays=True)
        return [r] + [a[k] for k in sorted(a)] + [g.gss(r), g.local_eye_adaptation(x, 2.), g.field_response(x), g.normalized_field_response(x)]
    return call


def flat(env, r):
    out = []
    if isinstance(r, (tuple, list)):
        for x in r:
            out += flat(env, x)
    elif isinstance(r, dict):
        for k in sorted(r):
            out += flat(env, r[k])
    elif r is None or isinstance(r, str):
        out.append(r)
    else:
        out += list(env.np.ravel(r))
    return out


def layout(env, x, how):
    """the argument as an array with another layout in memory"""
    np = env.np
    if getattr(x, 'dtype', None) == int:                                                  # whole numbers stay so
        return x
    a = env.arr(x)
    if how == 'reversed':
        b = env.arr(x[::-1])
        return b[::-1]
    if how == 'slice':
        n = a.shape
        b = np.zeros(tuple(k + 2 for k in n)) + env.arr(numpy.full(tuple(k + 2 for k in n), 7.))
        s = tuple(slice(1, k + 1) for k in n)
        b[s] = a
        return b[s]
    if how == 'transposed':
        return a.T.copy().T
    return a


def case(env, get, make, how='plain', kw=None, fixed=(), extra=None):
    f = get(env)
    data = make(env)
    args = [layout(env, x, how) for x in (data if isinstance(data, tuple) else (data,))]
    keep = [a.copy() for a in args]
    shapes = [a.shape for a in args]
    bases = [a.base.copy() if how == 'slice' and getattr(a, 'base', None) is not None else None for a in args]
    if extra:
        extra(env)
    r1 = flat(env, f(*args, *fixed, **(kw or {})))
    for a, k, s in zip(args, keep, shapes):
        env.check('shape of the argument', a.shape == s)
        env.close('argument unchanged', env.np.ravel(a), env.np.ravel(k), tol=1e-12, ctol=1e-12)
    for a, b in zip(args, bases):
        if b is not None:
            env.close('array around the argument', env.np.ravel(a.base), env.np.ravel(b), tol=1e-12, ctol=1e-12)
    r2 = flat(env, f(*args, *fixed, **(kw or {})))
    env.check('same size of results', len(r1) == len(r2))
    for x, y in zip(r1, r2):
        if isinstance(x, str) or x is None:
            env.check('same result', x == y)
        else:
            env.close('same result', x, y, tol=1e-9, ctol=1e-9, equal_nan=True)


def cases():
    v, uv, img = (lambda e: vecs(e)), points, image
    raw = lambda e: vecs(e, norm=False)                                                 # noqa: E731
    ang = lambda e: [[e.real('a', .2, 1.4), .5], [.4, -2.], [1., 3.]]                     # noqa: E731
    C = {}
    for n, mk in (('norm', raw), ('norm1', lambda e: raw(e)[0]), ('uv2xy', uv), ('uv2xyz', uv), ('xyz2uv', v), ('xyz2xy', v), ('tpnorm', ang),
                  ('tp2xyz', ang), ('xyz2tp', v), ('aa2xyz', lambda e: [[e.real('a', 10, 80), 20.], [30., -100.]]), ('xyz2aa', v),
                  ('chord2theta', lambda e: [e.real('a', .1, 1.9), .5]), ('theta2chord', ang), ('rmtx_yp', v)):
        C[n] = (T(n), mk, {})
    wide = lambda e: [[e.real('a', 100, 170), 200.], [-30., 350.], [20., e.real('b', 190, 350)], [95., -200.]]         # noqa: E731
    rad = lambda e: [[e.real('a', 1.7, 3), 4.], [-.5, 6.], [.4, e.real('b', 3.3, 6)], [7., -4.]]                        # noqa: E731
    C['aa2xyz-wide'] = (T('aa2xyz'), wide, {})
    for n in ('tp2xyz', 'tpnorm'):
        C[n + '-wide'] = (T(n), rad, {})
    out = lambda e: [[e.real('a', 1.1, 1.9), -.4], [-.3, e.real('b', 1.1, 1.9)], [2.5, .5]]                             # noqa: E731
    C['uv2xy-out'] = (T('uv2xy'), lambda e: [[e.real('a', .1, .4), .9], [.9, .95], [.02, .5]], {})
    C['uv2ij-out'] = (T('uv2ij'), out, dict(fixed=(5,)))
    C['uv2ij-aspect'] = (T('uv2ij'), lambda e: [[e.real('a', 1.1, 1.9), .4], [.3, .6]], dict(fixed=(5, 2)))
    C['chord2theta-out'] = (T('chord2theta'), lambda e: [e.real('a', 1.99, 2), 0.], {})
    C['aa2xyz-1'] = (T('aa2xyz'), lambda e: [e.real('a', 100, 170), 200.], {})
    C['xyz2aa-long'] = (T('xyz2aa'), raw, {})
    C['xyz2tp-long'] = (T('xyz2tp'), raw, {})
    C['xyz2skybin-below'] = (T('xyz2skybin'), lambda e: [[e.real('a', .2999, .3001), .8, -.51961524], [0., 0., -1.]], dict(fixed=(4,)))
    C['resample-r'] = (T('resample'), img, dict(kw=dict(ts=(4, 4), radius=1.)))
    C['rotate_elem-wrap'] = (T('rotate_elem'), v, dict(fixed=(400.,)))
    C['xyz2uv-n'] = (T('xyz2uv'), raw, dict(kw=dict(normalize=True)))
    for n in ('ctheta', 'radians', 'degrees'):
        C[n] = (T(n), lambda e: ([.6, .8, 0.], vecs(e)), {})
    C['uv2ij'] = (T('uv2ij'), uv, dict(fixed=(5,)))
    C['uv2bin'] = (T('uv2bin'), uv, dict(fixed=(5,)))
    C['bin2uv'] = (T('bin2uv'), lambda e: [3., 7., 12.], dict(fixed=(5,)))
    C['xyz2skybin'] = (T('xyz2skybin'), v, dict(fixed=(4,)))
    C['skybin2xyz'] = (T('skybin2xyz'), lambda e: [3., 7.], dict(fixed=(4,)))
    C['rotate_elem'] = (T('rotate_elem'), v, dict(fixed=(30.,)))
    for i, k in enumerate((dict(ts=(8, 8)), dict(ts=(2, 2)), dict(ts=(8, 8), gauss=False), dict(radius=1.), dict(radius=2, gauss=False))):
        C[f'resample-{i}'] = (T('resample'), img, dict(kw=k))
    C['quantile'] = (T('weighted_quantile'), lambda e: ([e.real('a', .1, .2), 3., 1., 2.], [1., 2., e.real('w', .1, 5), 1.]), dict(kw=dict(q=.4)))
    C['median'] = (T('weighted_median'), lambda e: ([e.real('a', .1, .2), 3., 1., 2.], [1., 2., e.real('w', .1, 5), 1.]), {})
    C['nugf'] = (T('non_uniform_gaussian_filter'), lambda e: ([0., 1., 2.5, 4., 5.], [1., e.real('a', 0, 4), 2., 5., 1.]), dict(kw=dict(bw=10)))
    C['cull'] = (T('cull_vectors'), v, dict(fixed=(.01,)))
    C['reflect'] = (T('reflect'), lambda e: (vecs(e), [[0., 0., 1.], [0., .6, .8]]), {})
    C['take'] = (T('simple_take'), img, dict(fixed=([2, 0], slice(0, 3))))
    for k in 'vnws':
        for n, mk in (('xyz2uv', v), ('uv2xyz', uv), ('xyz2vxy', v), ('vxy2xyz', uv), ('view2world', v), ('world2view', v), ('in_view', v),
                      ('ctheta', v), ('radians', v), ('degrees', v)):
            C[f'{k}-{n}'] = (M(n, k), mk, {})
        C[f'{k}-ray2pixel'] = (M('ray2pixel', k), v, dict(fixed=(8,)))
        C[f'{k}-ray2pixel-f'] = (M('ray2pixel', k), v, dict(fixed=(8,), kw=dict(integer=False)))
        px = lambda e: [[e.real('a', 2.1, 2.3), 4.4], [5.5, 3.2]]                         # noqa: E731
        C[f'{k}-pixel2ray'] = (M('pixel2ray', k), px, dict(fixed=(8,)))
        C[f'{k}-pixel2omega'] = (M('pixel2omega', k), lambda e: [[2., 4.], [5., 3.]], dict(fixed=(8,)))
    for n, mk in (('solid_xyz2vxy', v), ('solid_vxy2xyz', uv)):
        C[n] = (M(n), mk, {})
    C['solid_pixel2ray'] = (M('solid_pixel2ray'), px, dict(fixed=(8,)))
    C['solid_ray2pixel'] = (M('solid_ray2pixel'), v, dict(fixed=(8,)))
    for n, mk in (('xyz2uv', v), ('uv2xyz', uv), ('xyz2vxy', v), ('vxy2xyz', uv), ('view2world', v), ('world2view', v), ('in_view', v)):
        C[f'm-{n}'] = (M(n, 'm'), mk, {})
    C['idx2uv'] = (M('idx2uv'), lambda e: numpy.array([3, 5]), dict(fixed=((4, 4),), kw=dict(jitter=False)))
    C['uv2idx'] = (M('uv2idx'), uv, dict(fixed=((4, 4),)))
    C['add'] = (add, v, {})
    C['transform'] = (transform, img, {})
    C['uv2ang'] = (I('array_uv2ang'), img, {})
    C['ang2uv'] = (I('array_ang2uv'), img, {})
    for i, k in enumerate((dict(), dict(reverse=True), dict(nearest=True))):
        C[f'solid2ang-{i}'] = (first(I('array_solid2ang')), img, dict(kw=k))
    C['rotate'] = (I('array_rotate'), img, dict(fixed=(30.,)))
    C['rotate-center'] = (I('array_rotate'), img, dict(fixed=(30.,), kw=dict(center=(1, 2))))
    C['peak'] = (I('find_peak'), sun, {})
    C['normalize'] = (I('normalize_peak'), sun, {})
    fix = lambda e: [[float(c) for c in numpy.asarray(x) / numpy.linalg.norm(x)] for x in ([.3, .8, .5], [.1, .9, -.3], [-.4, .6, .5])]   # noqa: E731
    mv = lambda e: (fix(e), [e.real('o', .05, .2), .2, .05], lums(e))                                      # noqa: E731
    C['metrics'] = (metrics('MetricSet'), mv, dict(kw={}))
    C['metrics-area'] = (metrics('MetricSet', omega_as_view_area=True), mv, {})
    C['base'] = (metrics('BaseMetricSet', metricset=['illum', 'avglum', 'loggcr']), mv, {})
    C['base-filter'] = (metrics('BaseMetricSet', metricset=['illum', 'avglum', 'loggcr'], filterviews=True), mv, {})
    C['colors'] = (metrics('ColorMetricSet'), lambda e: (fix(e), [.1, .2, .05], [[e.real('l', 1, 9), 2., 3.], [50., 60., 70.], [.1, .2, .3]]), {})
    for n, mk in (('hpsf', lambda e: [e.real('a', 0, 3), 1.]), ('inv_hpsf', lambda e: [e.real('a', .1, .9), .5]),
                  ('rgcf_density', lambda e: [[e.real('a', .1, .6), .2], [.3, -.4]]), ('rgc_density', lambda e: [[e.real('a', .11, .111), .2], [.3, -.4]]),
                  ('rgcf_density_xy', lambda e: [[e.real('a', 1, 6), .2], [.3, -.4]]),
                  ('blur_sun', lambda e: ([e.real('a', 1e-5, 1e-4), 6e-5], [400., 500.]))):
        C[n] = (R(n), mk, {})
    C['guth'] = (position(True), fix, {})
    C['kim'] = (position(False), fix, {})
    C['gss'] = (glare, img, {})
    for n in ('array2hdr', 'carray2hdr'):
        C[n] = (write(n), img if n == 'array2hdr' else color, {})
    C['rgb2rad'] = (IO('rgb2rad'), lambda e: [[e.real('a', 0, 9), 1., 2.], [3., 4., 5.]], {})
    C['rgb2lum'] = (IO('rgb2lum'), lambda e: [[e.real('a', 0, 9), 1., 2.], [3., 4., 5.]], {})
    C['rgbe2lum'] = (IO('rgbe2lum'), lambda e: [[e.real('a', 1, 255), 10., 20., 130.], [3., 4., 5., 128.]], {})
    return C


def tasks(tier):
    ts = []
    for n, (get, make, opt) in cases().items():
        for how in ('plain', 'slice', 'reversed', 'transposed'):
            if how == 'transposed' and n in ('norm1',):
                continue
            ts.append(Task(f'{n}:{how}', case, get=get, make=make, mode='float', **{**opt, 'how': how}))
    return ts
