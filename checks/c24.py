"""C24: metrics of colour rays and of pictures"""
from symx.api import Task
from checks.c20 import ALL
from checks.c12 import DIRS
from checks.rad import Picture, Radiance, WEIGHTS

FUNCTIONS = ['raytools.evaluate.ColorMetricSet.' + k for k in ('__init__', '__call__', 'rgb', 'sources', 'background', 'pwsl2', 'srcillum',
                                                               'srcarea', 'backlum_true', 'irradiance')]
FUNCTIONS += ['raytools.imagetools.imgmetric', 'raytools.imagetools.hdr2vol', 'raytools.io.hdr2array', 'raytools.io.hdr2carray',
              'raytools.io.header_items']
BOUNDS = ('every colour of 1 to 2 of 3 to 4 rays with 1 to 4 channels (stated or any weights), one ray out of view; every colour of two '
          'pixels of pictures of 4x4 to 6x6 pixels; every metric; luminance weights from the call, the header (usual, unusual, '
          'malformed, none)')
OUTSIDE = 'floating-point rounding; luminance within 1e-6 of the glare threshold; the programs getinfo and pvalue (modelled); picture precision'
W4 = (.2, .3, .4, .1)
NOCOL = [m for m in ALL]


def away(env, lum, lim):
    for x in lum:
        env.assume((x > lim * (1 + 1e-6)) | (x < lim * (1 - 1e-6)))


def rays(env, m, weights, va=180, flat=False, dn='y', names=None, **kw):
    ev, mp = env.m('evaluate'), env.m('mapper')
    vec = [[0, 1, 0], [.6, .8, 0], [0, .6, -.8], [.6, -.8, 0]]
    if dn == 'x':
        vec = [[v[1], -v[0], v[2]] for v in vec]
    vm = mp.ViewMapper({'y': (0, 1., 0), 'x': (1., 0, 0)}[dn], va)
    oga = [.1, .3, .2, .5]
    rgb = [[env.real(f'a{k}', 5, 100) for k in range(m)], [env.real('b0', 1, 5)] + [1. + k for k in range(m - 1)],
           [.5 * (k + 1) for k in range(m)], [30.] * m]
    wkw = {}
    if weights == 'any':
        w = [env.real(f'w{k}', .1, 1) for k in range(m)]
        wkw['vlambda'] = tuple(w)
    elif weights == 'default':
        w = WEIGHTS
    else:
        w = weights
        wkw['vlambda'] = w
    lum = list(env.m('io').rgb2rad(env.arr(rgb), w))      # C26
    thr = kw.setdefault('threshold', 2000.)
    away(env, [x * kw.get('scale', 179.) for x in lum], thr)
    given = env.arr([c for p in rgb for c in p]) if flat else env.arr(rgb)
    names = names or ALL
    ms = ev.ColorMetricSet(env.arr(vec), env.arr(oga), given, vm, **wkw, **kw)
    ref = ev.MetricSet(env.arr(vec), env.arr(oga), env.arr(lum), vm, **dict(dict(omega_as_view_area=False), **kw))
    inside = [i for i in range(4) if va == 360 or i < (3 if va == 180 else 2)]
    env.close('colours in view', ms.rgb, [rgb[i] for i in inside], tol=1e-9)
    env.close('luminance', ms.lum, [lum[i] for i in inside], tol=1e-9)
    got = ms(names + ['irradiance', 'illum'])
    env.shape('one value per metric and channel', got, (len(names) + m + 1,))
    env.close('metrics', got[:len(names)], ref(names), tol=1e-6, equal_nan=True)
    sc = kw.get('scale', 179.)
    cos = [max(0., v[1] if dn == 'y' else v[0]) if va != 360 else None for v in vec]
    if va != 360:
        irr = [sc * sum(cos[i] * oga[i] * rgb[i][k] for i in inside) for k in range(m)]
        env.close('irradiance', got[len(names):len(names) + m], irr, tol=1e-4)
        env.close('illuminance is weighted irradiance', got[-1], sum(a * b for a, b in zip(w, irr)), tol=1e-4)
    src = [i for i in inside if bool(lum[i] * sc > thr)]
    for what, idx, r in (('sources', src, ms.sources), ('background', [i for i in inside if i not in src], ms.background)):
        env.check(what + ' has four arrays', len(r) == 4)
        for q, x in zip(r, (vec, oga, lum, rgb)):
            q = env.np.asarray(q)
            env.shape(what, q, (len(idx),) + ((3,) if x is vec else (m,) if x is rgb else ()))
            if idx:
                env.close(what, q, [x[i] for i in idx], tol=1e-9)
    for k in ('irradiance', 'illum', 'pwsl2', 'srcillum', 'srcarea', 'backlum_true'):
        env.close(k + ' as a property', env.np.ravel(env.np.asarray(getattr(ms, k))),
                  env.np.ravel(env.np.asarray(getattr(ref, k))) if k != 'irradiance' else got[len(names):len(names) + m], tol=1e-6, equal_nan=True)


def order(env, names):
    """values in the order asked, channels in place"""
    ev, mp = env.m('evaluate'), env.m('mapper')
    vm = mp.ViewMapper((0, 1., 0), 180)
    rgb = [[env.real(f'a{k}', 5, 100) for k in range(3)], [1., 2., 3.]]
    away(env, [179 * sum(a * b for a, b in zip(WEIGHTS, rgb[0]))], 2000.)
    def new(**kw):
        return ev.ColorMetricSet(env.arr([[0, 1, 0], [.6, .8, 0]]), env.arr([.1, .2]), env.arr(rgb), vm, **kw)
    one = []
    for n in names:
        one += list(env.np.ravel(env.np.asarray(getattr(new(), n))))
    env.close('call', new()(names), one, tol=1e-9)
    env.close('construction', new(metricset=names)(), one, tol=1e-9)
    env.close('with warnings', new(metricset=names, warn=True)(), one, tol=1e-9)
    ms = new()
    for bad in (['nometric'], ['irradiance', 'nometric']):
        env.raises('unknown metric', AttributeError, lambda: ms(bad))
        env.raises('unknown metric', AttributeError, lambda: new(metricset=bad))
    env.raises('no channels without colour', AttributeError, lambda: ev.MetricSet(env.arr([[0, 1, 0]]), env.arr([.1]), env.arr([1.]), vm, ['irradiance']))


def image(env, names, w=4, view='VIEW= -vta -vd 0 1 0 -vh 180 -vv 180', head=None, lumrgb=None, eff=None, dn='y', va=180, peakn=False, **kw):
    it, ev, mp = env.m('imagetools'), env.m('evaluate'), env.m('mapper')
    px = [[[1. + .1 * (i * w + j), 2. - .05 * j, .5 + .02 * i] for i in range(w)] for j in range(w)]
    a, b = (w // 2, w // 2), (1, w // 2)
    px[a[1]][a[0]] = [env.real(f'a{k}', 5, 2000) for k in range(3)]
    px[b[1]][b[0]] = [env.real('b0', 1, 5), .4, env.real('b2', 1, 5)]
    lines = ['rpict'] + ([head] if head else []) + ([view] if view else [])
    Radiance(env, {'i.hdr': Picture(lines, w, w, px)}).install()
    color = 'irradiance' in names
    eff = eff or WEIGHTS
    vm = mp.ViewMapper(DIRS[dn], va)
    # picture column i, row j from the top
    vec = env.np.asarray(vm.pixelrays(w)).reshape(-1, 3)
    oga = env.np.ravel(vm.pixel2omega(vm.pixels(w), w))
    rgb = [px[w - 1 - j][i] for i in range(w) for j in range(w)]
    lum = list(env.m('io').rgb2rad(env.arr(rgb), eff))      # C26
    sc = kw.get('scale', 179)
    sym = [i for i, p in enumerate(rgb) if p is px[a[1]][a[0]] or p is px[b[1]][b[0]]]
    thr = kw.get('threshold', 2000.)
    if thr > 100:
        away(env, [lum[i] * sc for i in sym], thr)
    res = it.imgmetric('i.hdr', names, peakn=peakn, lumrgb=lumrgb, **kw)
    pk = {k: kw.pop(k) for k in list(kw) if k.startswith('peak') or k == 'blursun'}
    val = env.arr(rgb) if color else env.arr(lum)
    if peakn:
        vec, oga, val = it.normalize_peak(vec, oga, val, sc, **pk, **(dict(vlambda=eff) if color and eff is not WEIGHTS else {}))
    kw = dict(dict(scale=179, threshold=2000., lowlight=False), **kw)
    if color:
        ms = ev.ColorMetricSet(vec, oga, val, vm, names, vlambda=tuple(eff), **kw)
    else:
        ms = ev.MetricSet(vec, oga, val, vm, names, **kw)
    env.close('metrics', res, ms(), tol=1e-5, equal_nan=True)


def tasks(tier):
    f = dict(mode='float')
    ts = []
    IR = ['illum', 'irradiance', 'dgp']
    for m, w in ((3, 'default'), (3, (.5, .25, .125)), (1, (2.,)), (2, (.3, .7)), (4, W4)):
        for va in (90, 180, 360):
            ts += [Task(f'rays-{m}-{w[0]}-{va}', rays, m=m, weights=w, va=va, **f)]
        ts += [Task(f'flat-{m}-{w[0]}', rays, m=m, weights=w, flat=True, dn='x', **f),
               Task(f'scale-{m}-{w[0]}', rays, m=m, weights=w, scale=100., threshold=1500., **f)]
    ts += [Task('any-weights', rays, m=2, weights='any', names=['illum', 'avglum', 'pwsl2', 'srcillum', 'backlum_true'], **f),
           Task('low', rays, m=3, weights='default', lowlight=True, threshold=1000., dn='x', **f),
           Task('as-view', rays, m=3, weights='default', omega_as_view_area=True, **f),
           Task('kim', rays, m=3, weights='default', guth=False, dn='x', **f)]
    for i, n in enumerate((['irradiance'], ['irradiance', 'dgp'], ['avglum', 'irradiance', 'illum'], ['illum', 'irradiance', 'irradiance', 'ugr'], ['dgp', 'illum'])):
        ts.append(Task(f'order-{i}', order, names=n, **f))
    U = 'LUMINANCERGB= .3 .5 .2'
    for c, n in (('mono', ['illum', 'avglum', 'dgp', 'ugp']), ('color', IR)):
        d = dict(names=n, **f)
        ts += [Task(f'image-{c}', image, **d), Task(f'image-weights-{c}', image, head=U, eff=(.3, .5, .2), **d),
               Task(f'image-lower-{c}', image, head='LuminanceRGB=.2 .6 .2', eff=(.2, .6, .2), **d),
               Task(f'image-given-{c}', image, lumrgb=(.1, .8, .1), eff=(.1, .8, .1), **d),
               Task(f'image-over-{c}', image, head=U, lumrgb=(.1, .8, .1), eff=(.1, .8, .1), **d),
               Task(f'image-bad-{c}', image, head='LUMINANCERGB= .3 .5', **d),
               Task(f'image-usual-{c}', image, head='LUMINANCERGB= .26507413 .67011463 .06481124', eff=None if c == 'mono' else (.26507413, .67011463, .06481124), **d),
               Task(f'image-noview-{c}', image, view=None, **d), Task(f'image-scale-{c}', image, scale=100, threshold=3000., **d),
               Task(f'image-low-{c}', image, lowlight=True, threshold=500., **d),
               Task(f'image-dir-{c}', image, view='VIEW= -vta -vd 1 0 0 -vh 90 -vv 90', dn='x', va=90, w=6, **d),
               Task(f'image-peak-{c}', image, peakn=True, peaka=.5, peakt=4e4, **d),
               Task(f'image-peak-weights-{c}', image, peakn=True, head=U, eff=(.3, .5, .2), peaka=.5, peakt=4e4, peakr=2., **d)]
    return ts
