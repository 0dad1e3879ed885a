"""C02: theta/phi and altitude/azimuth conversions"""
from symx.api import Task
from checks.util import fib_dirs, rows

FUNCTIONS = ['raytools.translate.tpnorm', 'raytools.translate.tp2xyz', 'raytools.translate.xyz2tp',
             'raytools.translate.aa2xyz', 'raytools.translate.xyz2aa']
BOUNDS = ('every theta in [0, pi], phi in [-2 pi, 4 pi), every altitude in [-90, 90], azimuth in '
          '[-180, 180] and every unit vector, as exact reals; the symbolic row alone and among 3 / 130 '
          'concrete rows; list and array inputs')
OUTSIDE = ('floating-point rounding; the azimuth of directions within 4e-5 rad of the poles, where the '
           'code snaps it to a constant (the vector itself is still checked to 1e-4)')


def form_of(env, m, form):
    return m if form == 'list' else env.arr(m[0] if form == 'flat' else m)


def tp_def(env, n=0, pos=0, form='arr'):
    """tp2xyz is (sin t cos p, sin t sin p, cos t) with z up"""
    tr, np, pi = env.m('translate'), env.np, env.pi
    t, p = env.real('theta', 0, 4), env.real('phi', -7, 13)
    env.assume(t <= pi)
    env.assume((p >= -2 * pi) & (p < 4 * pi))
    m = rows(env, [t, p], [[.3 + .02 * i, .05 * i] for i in range(n)], pos)
    xyz = tr.tp2xyz(form_of(env, m, form))
    env.shape('xyz', xyz, (n + 1, 3))
    env.observe('xyz', xyz[pos])
    env.close('x', xyz[pos, 0], np.sin(t) * np.cos(p))
    env.close('y', xyz[pos, 1], np.sin(t) * np.sin(p))
    env.close('z', xyz[pos, 2], np.cos(t))
    env.close('unit', np.sum(xyz * xyz, -1), [1] * (n + 1))
    if n:
        k = 0 if pos else 1
        a = m[k]
        env.close('other rows', xyz[k], [np.sin(a[0]) * np.cos(a[1]), np.sin(a[0]) * np.sin(a[1]), np.cos(a[0])])


def tp_rt(env, n=0, pos=0):
    """theta, phi -> xyz -> theta, phi away from the poles"""
    tr, np, pi = env.m('translate'), env.np, env.pi
    t, p = env.real('theta', 0, 4), env.real('phi', 0, 7)
    env.assume((t >= pi / 1000) & (t <= pi - pi / 1000))
    env.assume((p >= 0) & (p < 2 * pi))
    m = rows(env, [t, p], [[.3 + .02 * i, .05 * i] for i in range(n)], pos)
    tp = tr.xyz2tp(tr.tp2xyz(env.arr(m)))
    env.shape('tp', tp, (n + 1, 2))
    env.observe('tp', [tp[pos, 0], np.cos(tp[pos, 1]), np.sin(tp[pos, 1])])
    env.close('theta', tp[pos, 0], t)
    d = tp[pos, 1] - p
    env.check('phi', abs(d) < 1e-6 if not env.symbolic else (d == 0) | (d == 2 * pi) | (d == -2 * pi))
    env.close('rows', tp[:, 0], [r[0] for r in m])


def xyz_rt(env, conv, n=0, pos=0, form='arr', pole=False):
    """xyz -> angles -> xyz, with the ranges of the angles"""
    tr, np, pi = env.m('translate'), env.np, env.pi
    z, x, y = env.unit('z', 'x', 'y')
    tol = 1e-9
    if pole:
        # the azimuth is not kept within 3e-5 rad of the nadir (relative tolerance of isclose)
        env.assume(z > .9999 if pole == 'zenith' else z < -.9999)
        tol = 1e-7 if pole == 'zenith' else 1e-4
    else:
        env.assume((z < .9999) & (z > -.9999))
    m = rows(env, [x, y, z], fib_dirs(n) if n else [], pos)
    a = getattr(tr, 'xyz2' + conv)(form_of(env, m, form))
    env.shape('angles', a, (n + 1, 2))
    if conv == 'tp':
        lo, hi = (0, 0), (pi, 2 * pi)
    else:
        lo, hi = (-90, -180), (90, 180)
    for k in range(2):
        env.le(f'lower{k}', lo[k], a[:, k])
        env.le(f'upper{k}', a[:, k], hi[k])
    s = 1 if conv == 'tp' else pi / 180
    if not pole:
        env.observe('angles', [a[pos, 0], np.cos(a[pos, 1] * s), np.sin(a[pos, 1] * s)])
    back = getattr(tr, conv + '2xyz')(a)
    env.close('vector', back, m, tol=tol, ctol={'nadir': 2e-4, 'zenith': 2e-7}.get(pole))


def poles(env, conv):
    """the poles stay apart: zenith and nadir exactly"""
    tr, np = env.m('translate'), env.np
    for z in (1, -1):
        m = [[0., 0., float(z)]]
        a = getattr(tr, 'xyz2' + conv)(env.arr(m))
        if conv == 'aa':
            env.close('altitude', a[0, 0], 90 * z)
        else:
            env.close('theta', a[0, 0], 0 if z > 0 else env.pi)
        env.close('vector', getattr(tr, conv + '2xyz')(a), m)


def aa_def(env, n=0, pos=0, form='arr'):
    """altitude up from the horizon, azimuth clockwise from south (-y), west (-x) at +90"""
    tr, np, pi = env.m('translate'), env.np, env.pi
    al, az = env.real('alt', -90, 90), env.real('az', -180, 180)
    m = rows(env, [al, az], [[-80. + 1.1 * i, -170. + 2.3 * i] for i in range(n)], pos)
    xyz = tr.aa2xyz(form_of(env, m, form))
    env.shape('xyz', xyz, (n + 1, 3))
    env.observe('xyz', xyz[pos])
    a, b = al * (pi / 180), az * (pi / 180)
    env.close('xyz', xyz[pos], [-np.cos(a) * np.sin(b), -np.cos(a) * np.cos(b), np.sin(a)])
    env.close('unit', np.sum(xyz * xyz, -1), [1] * (n + 1))


def tpnorm(env):
    """angles are brought to [0, pi], [0, 2 pi) without leaving the direction"""
    tr, np, pi = env.m('translate'), env.np, env.pi
    t, p = env.real('theta', 0, 4), env.real('phi', -7, 13)
    env.assume(t <= pi)
    env.assume((p >= -2 * pi) & (p < 4 * pi))
    a = tr.tpnorm(env.arr([[t, p]]))
    env.le('theta >= 0', 0, a[0, 0])
    env.le('theta <= pi', a[0, 0], pi)
    env.le('phi >= 0', 0, a[0, 1])
    env.le('phi <= 2pi', a[0, 1], 2 * pi)
    env.close('theta', a[0, 0], t)
    env.close('cos phi', np.cos(a[0, 1]), np.cos(p))
    env.close('sin phi', np.sin(a[0, 1]), np.sin(p))


def tasks(tier):
    ts = [Task('tpnorm', tpnorm)]
    for f in ('arr', 'list', 'flat'):
        ts.append(Task('tp-' + f, tp_def, form=f))
        ts.append(Task('aa-' + f, aa_def, form=f))
        for c in ('tp', 'aa'):
            ts.append(Task(f'xyz-{c}-{f}', xyz_rt, conv=c, form=f))
    for n, p in ((3, 1), (130, 101)):
        ts.append(Task(f'tp-rows{n}', tp_def, mode='float', n=n, pos=p))
        ts.append(Task(f'aa-rows{n}', aa_def, mode='float', n=n, pos=p))
        ts.append(Task(f'tprt-rows{n}', tp_rt, mode='float', n=n, pos=p))
        for c in ('tp', 'aa'):
            ts.append(Task(f'xyz-{c}-rows{n}', xyz_rt, mode='float', conv=c, n=n, pos=p))
    ts.append(Task('tprt', tp_rt))
    for c in ('tp', 'aa'):
        ts.append(Task(f'pole-{c}', poles, conv=c))
        for p in ('zenith', 'nadir'):
            ts.append(Task(f'near-{p}-{c}', xyz_rt, conv=c, pole=p))
    return ts
