"""C21: rays outside of the view, at its edge and bright strays"""
import math
from symx.api import Task
from checks.util import dot, cross
from checks.c12 import DIRS, axes
from checks.c16 import scale as half

FUNCTIONS = ['raytools.evaluate.BaseMetricSet.__init__', 'raytools.evaluate.BaseMetricSet.omega', 'raytools.evaluate.BaseMetricSet.radians',
             'raytools.evaluate.MetricSet.__init__', 'raytools.mapper.AngularMixin.in_view', 'raytools.mapper.AngularMixin.degrees',
             'raytools.translate.rmtx_yp', 'raytools.translate.rotate_elem', 'raytools.mapper.ViewMapper.area']
BOUNDS = ('102 and 130 rays at fixed directions, up to 4 of them with any solid angle in [0, 0.4] and luminance in [0, 100]; 1 to 3 bright '
          'rays near the edge of the view at fixed directions with any luminance in [1, 5000] and solid angle in [1e-5, 0.01]; one '
          'ray at any tilt; views of 60, 90, 180 and 360 degrees, 4 view directions')
OUTSIDE = ('floating-point rounding; rays within 1e-4 of the edge of the view or of the edge zone; sums of solid angles that exceed '
           'the view by more than its edge rays (the search radius grows)')


def at(dn, tilt, az, f=1.):
    r, u, d = axes(DIRS[dn])
    c, s = math.cos(tilt), math.sin(tilt)
    return [f * (c * d[k] + s * (math.cos(az) * r[k] + math.sin(az) * u[k])) for k in range(3)]


def cloud(dn, va, n, out=0):
    """n rays covering the view evenly, out of them outside: vectors, tilts"""
    lim = min(math.pi, half(va) if va < 360 else math.pi)
    v, t = [], []
    for i in range(n):
        if i < n - out:
            q = (i + .5) / (n - out)
            a = math.acos(1 - q * (1 - math.cos(lim * .9999)))
        else:
            a = min(lim + .1 + .05 * (i - n + out), 3.1)
        v.append(at(dn, a, 2.399963 * i))
        t.append(a)
    return v, t


def mask(env, dn, va, cls, asview):
    """rays outside are dropped, whatever is asked for"""
    ev, m = env.m('evaluate'), env.m('mapper')
    vm = m.ViewMapper(DIRS[dn], va)
    t = env.real('tilt', 0.01, 3.1)
    h = half(va)
    env.assume((t < h - 1e-3) | (t > h + 1e-3))
    r, u, d = [[env.num(round(c, 12)) for c in v] for v in axes(DIRS[dn])]
    a, b = env.num(.6), env.num(.8)
    c, s = env.np.cos(t), env.np.sin(t)
    vec = [[c * d[k] + s * (a * r[k] + b * u[k]) for k in range(3)], d, [-x for x in d]]
    o = [env.real(f'o{i}', .01, 1) for i in range(3)]
    l = [env.real(f'l{i}', 0, 10) for i in range(3)]
    ms = getattr(ev, cls)(env.arr(vec), env.arr(o), env.arr(l), vm, omega_as_view_area=asview)
    keep = [0, 1] if bool(t < h) else [1]
    if va == 360:
        keep = [0, 1, 2]
    else:
        env.check('view mask', list(env.np.asarray(ms.view_mask)) == [i in keep for i in range(3)])
    env.shape('rays', ms.vec, (len(keep), 3))
    env.close('directions', ms.vec, [vec[i] for i in keep], tol=1e-9)
    env.close('solid angles', ms.omega, [o[i] for i in keep], tol=1e-9)
    env.close('luminances', ms.lum, [l[i] for i in keep], tol=1e-9)
    env.close('view area', ms.view_area, sum(o[i] for i in keep), tol=1e-9)


def correct(env, dn, va, n, cls='BaseMetricSet', out=0, asview=False, free=(0, -1), total=1., default=False):
    """solid angles of the edge rays are scaled to fill the view"""
    ev, m = env.m('evaluate'), env.m('mapper')
    vm = m.ViewMapper(DIRS[dn], va)
    area = float(vm.area)
    vec, tilt = cloud(dn, va, n, out)
    N = n - out
    o = [total * area / N] * n
    free = [f % N if f < 0 else f for f in free]
    for i in free:
        o[i] = env.real(f'o{i}', .2 * area / N, 3 * area / N)
    l = [1.] * n
    l[0], l[N - 1] = env.real('l0', 0, 100), env.real('l1', 0, 5)
    kw = {} if default else dict(omega_as_view_area=asview)
    edge = min(va, 180) * math.pi / 360
    I = range(N) if va != 360 else range(n)
    for i in free:
        g = edge - tilt[i]
        env.assume((o[i] < g * g - 1e-4) | (o[i] > g * g + 1e-4))
    arr = env.arr(o)
    ms = getattr(ev, cls)(env.arr(vec), arr, env.arr(l), vm, **kw)
    env.shape('rays', ms.omega, (len(I),))
    env.close('luminances', ms.lum, [l[i] for i in I], tol=1e-9)
    env.close('the argument is unchanged', arr, o, tol=1e-12)
    tot = sum(o[i] for i in I)
    if (cls == 'BaseMetricSet' and default) or (not default and asview) or len(I) <= 100:
        env.close('solid angles', ms.omega, [o[i] for i in I], tol=1e-9)
        env.close('view area', ms.view_area, tot, tol=1e-9)
        return
    on = [i for i in I if bool(o[i] > (edge - tilt[i]) ** 2) or tilt[i] > edge]
    ed = sum((o[i] for i in on), 0.)
    env.assume(ed - (tot - area) > 1e-3)
    k = 1 - (tot - area) / ed
    env.close('solid angles', ms.omega, [o[i] * k if i in on else o[i] for i in I], tol=1e-7)
    env.close('sum', env.np.sum(ms.omega), area, tol=1e-6)
    env.close('view area', ms.view_area, area, tol=1e-9)
    env.close('avglum', ms.avglum, 179 * env.np.sum(env.arr([l[i] * (o[i] * k if i in on else o[i]) for i in I])) / area, tol=1e-3)


def stray(env, dn, va, spots, cls='BaseMetricSet', n=16, length=1., lumfix=None):
    """bright rays just outside are replaced by their part inside"""
    np, pi, num = env.np, env.pi, env.num
    ev, m = env.m('evaluate'), env.m('mapper')
    vm = m.ViewMapper(DIRS[dn], va)
    r, u, f = [[num(round(c, 12)) for c in v] for v in axes(DIRS[dn])]
    a = pi * va / 360
    vec, o, l = [list(f) for _ in range(n)], [num(.01)] * n, [num(1)] * n
    data = {}
    # (position, cos and sin of the tilt, degrees beyond the edge, direction)
    for k, (pos, (c, s, q), deg, (qa, qb)) in enumerate(spots):
        c, s, qa, qb = num(c) / num(q), num(s) / num(q), num(qa), num(qb)
        side = [qa * r[i] + qb * u[i] for i in range(3)]
        vec.insert(pos, [length * (c * f[i] + s * side[i]) for i in range(3)])
        o.insert(pos, env.real(f'o{k}', 1e-5, .01))
        l.insert(pos, env.real(f'l{k}', 1, 5000) if lumfix is None else num(lumfix))
        data[pos] = (c, s, deg, side)
    N = len(vec)
    avg = sum(l) / N
    inside, kept = [], []
    for i in range(N):
        if i not in data:
            inside.append(i)
            continue
        c, s, deg, side = data[i]
        env.assume((l[i] > avg * 10 + 1e-3) | (l[i] < avg * 10 - 1e-3))
        gap = math.pi * math.radians(deg) ** 2
        env.assume((o[i] > gap + 1e-7) | (o[i] < gap - 1e-7))
        if deg < 1 and bool(l[i] > avg * 10) and bool(o[i] > gap):
            inside.append(i)
            kept.append(i)
    ms = getattr(ev, cls)(env.arr(vec), env.arr(o), env.arr(l), vm, omega_as_view_area=True)
    env.shape('rays', ms.vec, (len(inside), 3))
    env.check('view mask', list(np.asarray(ms.view_mask)) == [i in inside for i in range(N)])
    env.close('luminances', ms.lum, [l[i] for i in inside], tol=1e-9)
    for j, i in enumerate(inside):
        if i not in kept:
            env.close('direction', ms.vec[j], [x / (length if i in data else 1.) for x in vec[i]], tol=1e-7)
            env.close('solid angle', ms.omega[j], o[i], tol=1e-9)
            continue
        c, s, deg, side = data[i]
        d, b2 = np.arccos(c), o[i] / pi
        b = np.sqrt(b2)
        x = (a * a - b2 + d * d) / (2 * d)
        y = np.sqrt(a * a - x * x)
        env.close('solid angle', ms.omega[j], a * a * np.arcsin(y / a) + b2 * np.arcsin(y / b) - y * d, tol=1e-6)
        # moved to the angle x from the centre, in its own plane
        cr, sr = np.cos(d - x), np.sin(d - x)
        env.close('moved direction', ms.vec[j], [(c * cr + s * sr) * f[k] + (s * cr - c * sr) * side[k] for k in range(3)], tol=1e-6)


def beyond(k):
    """cos and sin (numerators, denominator) of a right angle plus a small rational rotation, degrees beyond"""
    return (-2 * k, k * k - 1, k * k + 1), 2 * math.degrees(math.atan(1 / k))


def tasks(tier):
    f = dict(mode='float')
    ts = []
    for dn in ('y', 'a'):
        for va in (90, 180, 360):
            for cls in ('BaseMetricSet', 'MetricSet'):
                ts.append(Task(f'mask-{dn}-{va}-{cls}', mask, dn=dn, va=va, cls=cls, asview=va == 90))
    for va in (60, 90, 180, 360):
        for dn in ('y', 'b', 'z'):
            ts.append(Task(f'correct-{dn}-{va}', correct, dn=dn, va=va, n=102, **f))
        ts += [Task(f'correct-out-{va}', correct, dn='a', va=va, n=130, out=10, free=(0, 50, -1, -2), **f),
               Task(f'correct-less-{va}', correct, dn='y', va=va, n=110, total=.98, free=(-1,), cls='MetricSet', **f),
               Task(f'correct-more-{va}', correct, dn='y', va=va, n=110, total=1.02, free=(3, -3), cls='MetricSet', default=True, **f),
               Task(f'default-{va}', correct, dn='y', va=va, n=110, default=True, **f),
               Task(f'asview-{va}', correct, dn='y', va=va, n=105, asview=True, cls='MetricSet', **f),
               Task(f'few-{va}', correct, dn='y', va=va, n=100, **f), Task(f'few-out-{va}', correct, dn='y', va=va, n=108, out=8, **f),
               Task(f'enough-{va}', correct, dn='y', va=va, n=101, cls='MetricSet', **f)]
    def sp(pos, k, q):
        return (pos, *beyond(k), q)
    for dn in ('y', 'a', 'b', 'z'):
        ts += [Task(f'stray-{dn}', stray, dn=dn, va=180, spots=(sp(5, 250, (.6, .8)),)),
               Task(f'stray-far-{dn}', stray, dn=dn, va=180, spots=(sp(9, 80, (.6, -.8)),)),
               Task(f'stray-two-{dn}', stray, dn=dn, va=180, spots=(sp(0, 400, (-.8, .6)), sp(10, 200, (.28, -.96))), n=22, lumfix=300)]
    ts += [Task('stray-length', stray, dn='y', va=180, spots=(sp(5, 250, (.6, .8)),), length=2.5),
           Task('stray-metricset', stray, dn='a', va=180, spots=(sp(3, 200, (.28, .96)),), cls='MetricSet'),
           Task('stray-lum-2', stray, dn='y', va=180, spots=(sp(1, 200, (.28, .96)), sp(3, 300, (-.6, .8))), n=22),
           Task('stray-three', stray, dn='y', va=180, spots=(sp(1, 250, (0., 1.)), sp(2, 80, (.6, .8)), sp(30, 160, (1., 0.))), n=34, lumfix=300)]
    return ts
