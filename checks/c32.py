"""C32: stages of the glare sensation model"""
import math
import numpy
from symx.api import Task
from checks.rad import Picture, Radiance, WEIGHTS

FUNCTIONS = ['raytools.evaluate.hvsgsm.GSS.' + k for k in (
    'lum', 'adapt', 'compute', 'glare_response', 'sigma_c', 'pupil', 'retinal_irradiance', 'psf_coef', 'prep_kernel', 'apply_psf',
    'apply_eye_movement_1', 'apply_eye_movement_2', 'local_eye_adaptation', 'cone_response', 'field_response',
    'normalized_field_response', 'gss')] + ['raytools.evaluate.hvsgsm.f_b', 'raytools.evaluate.hvsgsm.l_b']
BOUNDS = ('every illuminance in [0.1, 50000], every irradiance in [1e-20, 5000], every pupil diameter in [1, 9], every angle, every value of one or two pixels of pictures of 4 to 9 '
          'pixels width in views of 0.5 to 180 degrees; stated ages, pigmentations, focal lengths, frames and eye movements')
OUTSIDE = 'floating-point rounding; other ages and pigmentations than the stated ones; accuracy of the solid angle of pixels (C13)'


def mirror(i, n):
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def spread(env, x, kernel, axis):
    """correlation with a symmetric kernel, mirrored at the edge"""
    n, r = x.shape[axis], len(kernel) // 2
    x = env.np.moveaxis(x, axis, 0)
    out = [sum(kernel[k + r] * x[mirror(i + k, n)] for k in range(-r, r + 1)) for i in range(n)]
    return env.np.moveaxis(env.np.stack(out), 0, axis)


def gauss(env, x, sigma, truncate=4.):
    r = int(truncate * sigma + .5)
    k = numpy.exp(-.5 * (numpy.arange(-r, r + 1) / sigma) ** 2)
    k = [float(v) for v in k / k.sum()]
    return spread(env, spread(env, x, k, 0), k, 1)


def setup(env, w, angle, lo=20, hi=400, kw=None, n=1, base=.5, scale=179):
    """an instance with a picture of one or two symbolic pixels"""
    hv, mp = env.m('evaluate.hvsgsm'), env.m('mapper')
    px = [[[base + .1 * ((i * 7 + j * 3) % 5)] * 3 for i in range(w)] for j in range(w)]
    q = [env.real(f'p{i}', lo, hi) for i in range(n)]
    for i, v in enumerate(q):
        px[w // 2 - i][w // 2 + i] = [v, v, v]
    Radiance(env, {'a.hdr': Picture(['x'], w, w, px)}).install()
    g = hv.GSS(mp.ViewMapper((0, 1., 0), angle), scale=scale, **(kw or {}))
    g.lum = 'a.hdr'
    lum = env.np.stack([env.arr([px[w - 1 - j][i][0] * sum(WEIGHTS) * scale for j in range(w)]) for i in range(w)])
    return g, lum


def field(env, w, n=2, lo=.01, hi=5., base=.3):
    """an array with n symbolic values"""
    x = [[base + .07 * ((5 * i + 3 * j) % 7) for j in range(w)] for i in range(w)]
    for k in range(n):
        x[(w // 2 + k) % w][(w // 2 - 2 * k) % w] = env.real(f'x{k}', lo, hi)
    return env.arr(x)


def pupil(env, age):
    g = env.m('evaluate.hvsgsm').GSS(age=age)
    np = env.np
    ev = env.real('ev', .1, 50000)
    area, d = g.pupil(ev)
    want = 5 - 3 * np.tanh(.4 * np.log10(ev / 1600)) - .043 * (age - 10) * np.exp(-ev / 174)
    env.close('diameter', d, want, tol=1e-7)
    env.close('area', area, math.pi * want ** 2 / 4, tol=1e-6)


def irradiance(env, f):
    g = env.m('evaluate.hvsgsm').GSS(f=f)
    lum, a = env.real('lum', 0, 1e5), env.real('area', 1, 60)
    env.close('irradiance', g.retinal_irradiance(lum, a), a * lum / f ** 2, tol=1e-6)
    x = env.arr([[lum, 3.], [0., 2 * lum]])
    env.close('array', env.np.ravel(g.retinal_irradiance(x, a)), [a * lum / f ** 2, 3 * a / f ** 2, 0, 2 * a * lum / f ** 2], tol=1e-6)
    env.close('argument', env.np.ravel(x), [lum, 3., 0., 2 * lum], tol=1e-9)


def coefficients(env, age, pig):
    g = env.m('evaluate.hvsgsm').GSS(age=age, pigmentation=pig)
    p = env.real('pupil', 1, 9)
    bs, cs = g.psf_coef(p)
    env.check('four components', len(bs) == 4 and len(cs) == 4)
    env.close('coefficients sum to one', sum(cs), 1, tol=1e-7)
    A = 1 + (age / 70) ** 4
    m = 1 / pig - 1
    sa, la = 1 / (1 + A / m), 1 / (1 + m / A)
    P = 1 + (p / 3.2) ** 2
    c3 = la / ((1 + 25 * pig) * (1 + 1 / A))
    env.close('c', list(cs), [sa / P, sa - sa / P, c3, la - c3], tol=1e-7)
    B, e = 9000 - 936 * math.sqrt(A), math.sqrt(A) / 2000
    D = 1 + (3.2 / p) ** 2
    env.close('b', list(bs), [P / (B * p), D * (e - 1 / (B * p)), 1 / (10 + 60 * pig - 5 / A), 1], tol=1e-7)


def components(env, lo, hi):
    hv = env.m('evaluate.hvsgsm')
    np = env.np
    b, c, t = env.real('b', .01, 1), env.real('c', 0, 1), env.real('t', lo, hi)
    q = np.sin(t) ** 2 + b ** 2 * np.cos(t) ** 2
    r = hv.f_b(b, c, t)
    env.close('point spread', r, c * b / (2 * env.pi * q * np.sqrt(q)), tol=1e-6)
    r = hv.l_b(b, c, t)
    env.close('line spread', r, c * b / (env.pi * q), tol=1e-6)
    a = hv.f_b(b, c, env.arr([t, t / 2]))
    env.close('array', a[0], hv.f_b(b, c, t), tol=1e-7)


def f_b(b, c, t):
    return c * b / (2 * math.pi * (numpy.sin(t) ** 2 + b ** 2 * numpy.cos(t) ** 2) ** 1.5)


def psf(env, w, angle, fwidth, age, pig, pupd):
    """the frame spreads what the components say, the rest is spread over the view"""
    g, _ = setup(env, w, angle, kw=dict(age=age, pigmentation=pig, fwidth=fwidth))
    mp = env.m('mapper')
    x = field(env, w)
    keep = x.copy()
    r = g.apply_psf(x, pupd)
    env.close('argument', env.np.ravel(x), env.np.ravel(keep), tol=1e-9)
    A = 1 + (age / 70) ** 4
    m = 1 / pig - 1
    sa, la = 1 / (1 + A / m), 1 / (1 + m / A)
    P, D = 1 + (pupd / 3.2) ** 2, 1 + (3.2 / pupd) ** 2
    c3 = la / ((1 + 25 * pig) * (1 + 1 / A))
    cs = [sa / P, sa / D, c3, la - c3]
    B, e = 9000 - 936 * math.sqrt(A), math.sqrt(A) / 2000
    bs = [P / (B * pupd), D * (e - 1 / (B * pupd)), 1 / (10 + 60 * pig - 5 / A), 1]
    # what falls on a line through the frame
    n = int(fwidth / .002 / 2) * 2 + 1
    t = numpy.linspace(-fwidth / 2, fwidth / 2, n) * math.pi / 180
    inside = sum(float(c * b * (1 / (math.pi * (numpy.sin(t) ** 2 + b ** 2 * numpy.cos(t) ** 2))).sum()) for b, c in zip(bs, cs)) * float(t[1] - t[0])
    k = math.ceil(fwidth * w / angle - 1e-9)
    env.check('frame', k % 2 == 1)
    vm = mp.ViewMapper(viewangle=fwidth)
    uv = vm.pixels(k)
    rays = numpy.asarray(vm.pixelrays(k), float).reshape(k, k, 3)
    om = numpy.asarray(vm.pixel2omega(uv, k), float).reshape(k, k)
    ang = numpy.arccos(numpy.clip(rays @ numpy.asarray([0., 1., 0.]), -1, 1))
    K = sum(f_b(b, c, ang) for b, c in zip(bs, cs)) * om
    K[ang > math.radians(fwidth / 2) * (1 + 1e-9)] = 0
    h = k // 2
    K[h, h] = 0
    K[h, h] = inside - K.sum()
    mask = numpy.asarray(g.mask).reshape(w, w)
    omega = numpy.asarray(g.omega, float).reshape(w, w)
    base = sum(x[i, j] * float(omega[i, j]) for i in range(w) for j in range(w) if mask[i, j]) * ((1 - inside) / float(omega[mask].sum()))
    for i in range(w):
        for j in range(w):
            s = base
            for a in range(-h, h + 1):
                for b in range(-h, h + 1):
                    s = s + float(K[a + h, b + h]) * x[mirror(i - a, w), mirror(j - b, w)]
            env.close('spread', r[i, j], s, tol=1e-6)
    c = env.real('c', .1, 9)
    u = g.apply_psf(env.arr([[c] * w] * w), pupd)
    env.close('a uniform field stays', env.np.ravel(u), [c] * (w * w), tol=1e-6)


def movement(env, w, angle, eg, f):
    g, _ = setup(env, w, angle, kw=dict(f=f))
    ppm = w / (60 * angle)
    x = field(env, w)
    keep = x.copy()
    a = g.apply_eye_movement_1(x)
    s1, s2 = 1 / (math.sqrt(2) * .167) * ppm, 1 / (math.sqrt(2) * .05) * ppm
    want = .62 * gauss(env, x, s1) + .38 * gauss(env, x, s2, 30 * ppm / s2)
    env.close('adaptation', env.np.ravel(a), env.np.ravel(want), tol=1e-6)
    a = g.apply_eye_movement_2(x, eg)
    t = .1 / (eg * f ** 2) ** .12
    want = gauss(env, gauss(env, x, 2 * math.sqrt(30 * t) * ppm), 2 * math.sqrt(250 * t) * ppm)
    env.close('direct', env.np.ravel(a), env.np.ravel(want), tol=1e-6)
    env.close('argument', env.np.ravel(x), env.np.ravel(keep), tol=1e-9)


def widths(env):
    """the widths of direct movement for every adaptation"""
    g, _ = setup(env, 4, 2)
    hv = env.m('evaluate.hvsgsm')
    seen = []

    def blur(x, sigma, *a, **k):
        seen.append((x, sigma, a, k))
        return x + len(seen)
    env.setattr(hv, 'gaussian_filter', blur)
    eg = env.real('eg', .01, 5000)
    x = field(env, 4, n=1)
    r = g.apply_eye_movement_2(x, eg)
    env.check('two filters', len(seen) == 2)
    env.close('one after the other', env.np.ravel(r - x), [3] * 16)
    t = .1 / env.np.power(eg * 16.67 ** 2, .12)
    env.close('product of widths', seen[0][1] * seen[1][1], 4 * math.sqrt(7500) * t * (4 / 120) ** 2, tol=1e-7)
    s = [q[1] * q[1] for q in seen]
    env.close('widths', s[0] + s[1], 4 * 280 * t * (4 / 120) ** 2, tol=1e-7)


def adaptation(env, zero, lo=.01, hi=5000):
    g = env.m('evaluate.hvsgsm').GSS()
    np = env.np
    e, eg = env.real('e', lo, hi), env.real('eg', .01, 5000)
    x = env.arr([[e, 0. if zero else 2.], [1., 10.]])
    r = g.local_eye_adaptation(x, eg)
    env.check('shape', np.shape(r) == (2, 2))
    l = .2 * np.log10(eg)
    for k, v in enumerate((np.log10(e), 0 if zero else math.log10(2), 0, 1)):
        env.close('adaptation', np.ravel(r)[k], np.power(10, .8 * v + l), tol=1e-6)


def cone(env):
    g = env.m('evaluate.hvsgsm').GSS
    np = env.np
    e, a = env.real('e', .01, 5000), env.real('a', .01, 5000)
    r = g.cone_response(env.arr([e, 3., e]), env.arr([a, a, 7.]))
    for k, (x, y) in enumerate(((e, a), (env.num(3.), a), (e, env.num(7.)))):
        s = np.power(5.701055 ** (1 / 2.55) + np.power(y, 1 / 2.55), 2.55)
        q = np.power(x, .74)
        env.close('response', r[k], q / (q + np.power(s, .74)), tol=1e-6)
        env.le('at most one', r[k], 1)
        env.le('not negative', 0, r[k])


def rf(env, w, angle):
    g, _ = setup(env, w, angle)
    x = field(env, w, lo=0, hi=1)
    keep = x.copy()
    r = g.field_response(x)
    env.close('argument', env.np.ravel(x), env.np.ravel(keep), tol=1e-9)
    steps = [math.exp(math.log(.009) + (math.log(.12) - math.log(.009)) * k / 30) for k in range(31)]
    sc = numpy.asarray(g.sigma_c, float)
    done = {}
    for i in range(w):
        for j in range(w):
            k = 0
            while k < 30 and sc[i, j] >= (steps[k] + steps[k + 1]) / 2:
                k += 1
            if k not in done:
                s = steps[k] * w / angle
                done[k] = gauss(env, x, s) - .67 * gauss(env, x, 3.5 * s)
            env.close('response', r[i, j], done[k][i, j], tol=1e-6)


def normalized(env, w, angle):
    g, _ = setup(env, w, angle)
    np = env.np
    x = field(env, w, lo=-1, hi=1)
    r = g.normalized_field_response(x)
    env.check('shape', np.shape(r) == (2, w, w))
    vm = g.vm
    inside = numpy.asarray(vm.in_view(vm.pixelrays(w), False)).reshape(w, w)
    for i in range(w):
        for j in range(w):
            on, off = (1 / (1 + np.exp(-22 * (x[i, j] - .25))), 1 / (1 + np.exp(22 * (x[i, j] + .25)))) if inside[i, j] else (0, 0)
            env.close('on', r[0, i, j], on, tol=1e-6)
            env.close('off', r[1, i, j], off, tol=1e-6)
            if inside[i, j]:                                                    # (also where it is very small)
                env.close('off', r[1, i, j] * (1 + np.exp(22 * (x[i, j] + .25))), 1, tol=1e-6)
                env.close('on', r[0, i, j] * (1 + np.exp(-22 * (x[i, j] - .25))), 1, tol=1e-6)


POLY = (33.12797281707965, 2.2872877726594725, -104.61419835147568, -275.45010218009116, 1587.8255352939432, -2570.6813747583033,
        1837.1741161137818, -499.8491902780004)


def total(env, w, angle, raw):
    g, _ = setup(env, w, angle, n=0, kw=dict(raw=raw))
    np = env.np
    rg = [[[.1 + .05 * ((i + 2 * j + k) % 4) for j in range(w)] for i in range(w)] for k in range(2)]
    a, b = env.real('a', .01, 1), env.real('b', .01, 1)
    rg[0][w // 2][1] = a
    rg[1][1][w // 2] = b
    r = g.gss(env.arr(rg))
    om = numpy.asarray(g.omega, float).reshape(w, w)
    s = sum(rg[k][i][j] ** 4 * float(om[i, j]) for k in range(2) for i in range(w) for j in range(w))
    want = np.power(s, .25)
    if not raw:
        x = (float(g.ecc) - .009) / (.12 - .009)
        want = want * sum(c * x ** k for k, c in enumerate(POLY))
    env.close('score', r, want, tol=1e-6)


def loaded(env, w, angle, scale):
    """luminance, geometry, eccentricity and adaptation of a picture"""
    g, lum = setup(env, w, angle, n=2, scale=scale)
    np = env.np
    vm = g.vm
    env.close('luminance', np.ravel(g.lum), np.ravel(lum), tol=1e-6)
    env.check('resolution', g.res == w)
    rays = numpy.asarray(vm.pixelrays(w), float).reshape(-1, 3)
    env.close('directions', np.ravel(g.vecs), list(rays.ravel()), tol=1e-9)
    mask = numpy.asarray(vm.in_view(vm.pixelrays(w), False)).reshape(-1)
    env.check('mask', list(numpy.asarray(g.mask).reshape(-1)) == list(mask))
    om = numpy.asarray(vm.pixel2omega(vm.pixels(w), w), float).reshape(-1) * mask
    env.close('solid angles', np.ravel(g.omega), list(om), tol=1e-9)
    ct = numpy.maximum(rays @ numpy.asarray(vm.dxyz, float).ravel(), 0)
    env.close('cosines', np.ravel(g.ctheta), list(ct), tol=1e-9)
    s = []
    for v in rays:
        y = numpy.asarray(vm.xyz2vxy(v.reshape(1, 3)), float).ravel() * 2 - 1
        h = y[1] / .61111 if y[1] >= 0 else y[1] / .94444
        s.append(.009 + (.12 - .009) * min(1, math.hypot(y[0] / 1.05556, h)))
    env.close('width of the field', np.ravel(g.sigma_c), s, tol=1e-7)
    L = [np.ravel(lum)[i] for i in range(w * w)]
    p4 = [v ** 4 for v in L]
    env.close('eccentricity', g.ecc, sum(p4[i] * float(om[i] * s[i]) for i in range(w * w)) / sum(p4[i] * float(om[i]) for i in range(w * w)), tol=1e-7)
    ev = sum(L[i] * float(om[i] * ct[i]) for i in range(w * w) if mask[i])
    given = env.real('ev', 1, 9000)
    for e, r in ((ev, g.adapt()), (given, g.adapt(given))):
        area, d = g.pupil(e)
        env.close('diameter', r[2], d, tol=1e-6)
        env.close('area', r[1], area, tol=1e-6)
        env.close('global irradiance', r[0], e / math.pi * area / g.f ** 2, tol=1e-5)


def chain(env, w, angle, p, a, d, raw=False, save=False):
    """compute is the sequence of the stages asked for"""
    g, lum = setup(env, w, angle, kw=dict(psf=p, adaptmove=a, directmove=d, raw=raw, fwidth=.6))
    ev = 900.
    np = env.np
    eg, pa, pd = g.adapt(ev)
    e = g.retinal_irradiance(g.lum, pa)
    s1 = g.apply_psf(e, pd) if p else e
    s2 = g.apply_eye_movement_1(s1) if a else s1
    s3 = g.apply_eye_movement_2(s1, eg) if d else s1
    s4 = g.local_eye_adaptation(s2, eg)
    s5 = g.cone_response(s3, s4)
    s6 = g.field_response(s5)
    s7 = g.normalized_field_response(s6)
    want = {'01_retinal_irrad': e, '05_local_adaptation': s4, '06_response_ratio': s5, '07_response_lin': s6,
            '08_response_log': np.stack((s7[0], s7[1], np.zeros((w, w))))}
    if p:
        want['02_psf'] = s1
    if a:
        want['03_adapt_eye_movement'] = s2
    if d:
        want['04_direct_eye_movement'] = s3
    r, arrays = g.glare_response(g.lum, eg, pa, pd, return_arrays=True)
    env.check('arrays', sorted(arrays) == sorted(want))
    for k in want:
        env.close(k, np.ravel(arrays[k]), np.ravel(want[k]), tol=1e-7)
    env.close('response', np.ravel(r), np.ravel(s7), tol=1e-7)
    env.close('response alone', np.ravel(g.glare_response(g.lum, eg, pa, pd)), np.ravel(s7), tol=1e-7)
    env.close('score', g.compute(ev_eye=ev), g.gss(s7), tol=1e-7)
    # with another picture of glare sources
    x = g.lum * .5
    r = g.glare_response(x, eg, pa, pd, return_arrays=True)[1]
    env.close('sources', np.ravel(r['01_retinal_irrad']), np.ravel(e) * .5, tol=1e-7)


def empty(env):
    g = env.m('evaluate.hvsgsm').GSS()
    x = env.real('x', 0, 1)
    for n, f in (('adapt', lambda: g.adapt()), ('compute', lambda: g.compute()), ('response', lambda: g.glare_response(env.arr([[x]]), 1., 1., 1.))):
        env.raises(n, ValueError, f)


def tasks(tier):
    f = dict(mode='float')
    ts = [Task(f'pupil-{a}', pupil, age=a, **f) for a in (10, 25, 40, 70)] + [Task(f'irradiance-{x}', irradiance, f=x, **f) for x in (16.67, 17, 20.)]
    ts += [Task(f'coef-{a}-{p}', coefficients, age=a, pig=p, **f) for a in (20, 40, 70) for p in (.056, .106, .16)]
    ts += [Task('components', components, lo=.1, hi=1.5), Task('components-far', components, lo=1.6, hi=3.1)]
    for i, (w, a, fw) in enumerate(((6, 12, 2), (6, 12, 6), (5, 2, 1.2), (4, 180, 10), (7, 7, 5), (5, 40, 24))):
        ts.append(Task(f'psf-{w}-{a}-{fw}', psf, w=w, angle=a, fwidth=fw, age=(40, 20, 70)[i % 3], pig=(.106, .16)[i % 2], pupd=(3., 6.5)[i // 2 % 2], **f))
    for i, (w, a) in enumerate(((5, 1), (6, 2), (8, 1), (4, 180))):
        for eg, fo in ((.5, 16.67), (40., 17.)):
            ts.append(Task(f'movement-{w}-{a}-{eg}', movement, w=w, angle=a, eg=eg, f=fo, **f))
    ts += [Task('widths', widths, **f), Task('adaptation', adaptation, zero=False, **f), Task('adaptation-0', adaptation, zero=True, **f),
           Task('adaptation-dim', adaptation, zero=False, lo=1e-9, hi=.01, **f), Task('adaptation-dark', adaptation, zero=True, lo=1e-20, hi=1e-9, **f), Task('cone', cone, **f)]
    ts += [Task(f'field-{w}-{a}', rf, w=w, angle=a, **f) for w, a in ((6, 1), (8, .5), (5, 3), (6, 180))]
    ts += [Task(f'normalized-{w}-{a}', normalized, w=w, angle=a, **f) for w, a in ((4, 180), (5, 60), (6, 180))]
    ts += [Task(f'total-{w}-{a}-{r}', total, w=w, angle=a, raw=r, **f) for w, a in ((4, 180), (5, 90)) for r in (True, False)]
    ts += [Task(f'loaded-{w}-{a}-{s}', loaded, w=w, angle=a, scale=s, **f) for w, a, s in ((4, 180, 179), (5, 180, 1), (4, 60, 179), (6, 180, 100))]
    for p in (True, False):
        for a in (True, False):
            for d in (True, False):
                ts.append(Task(f'chain-{int(p)}{int(a)}{int(d)}', chain, w=5, angle=1.4, p=p, a=a, d=d, **f))
    ts += [Task('chain-raw', chain, w=4, angle=180, p=False, a=True, d=True, raw=True, **f), Task('empty', empty, **f)]
    return ts
