"""C03: vector normalisation and angles between vectors"""
from symx.api import Task
from checks.util import fib_dirs, rows, dot

FUNCTIONS = ['raytools.translate.norm', 'raytools.translate.norm1', 'raytools.translate.ctheta',
             'raytools.translate.radians', 'raytools.translate.degrees', 'raytools.translate.chord2theta',
             'raytools.translate.theta2chord', 'raytools.mapper.AngularMixin.ctheta',
             'raytools.mapper.AngularMixin.radians', 'raytools.mapper.AngularMixin.degrees']
BOUNDS = ('every non-zero vector with components in [-1e3, 1e3] (times 1e-20, 1e-9, 1e-4, 1e6), every pair of unit vectors, every angle in '
          '[0, pi]; one symbolic vector alone, among 3 / 130 concrete rows and in (2, 2, 3) images')
OUTSIDE = 'floating-point rounding; overflow and underflow'


def norm(env, n=0, pos=0, scale=1):
    tr, np = env.m('translate'), env.np
    v = env.vec('v', 3, -1000, 1000)
    env.assume(dot(v, v) > 1e-6)
    v = [c * env.num(scale) for c in v]
    m = rows(env, v, [[3. * c for c in d] for d in fib_dirs(n)] if n else [], pos)
    a = env.arr(m)
    r = tr.norm(a)
    env.shape('norm', r, (n + 1, 3))
    env.observe('norm', r[pos])
    env.close('unit length', np.sum(r * r, -1), [1] * (n + 1))
    s = dot(r[pos], v)
    env.le('same sense', 0, s)
    env.close('collinear', [s * c for c in r[pos]], v, tol=1e-9 * min(scale, 1))
    if n:
        for k, d in enumerate(fib_dirs(n)):
            env.close('other rows', r[k + (k >= pos)], d)
    again = tr.norm(r)
    env.close('idempotent', again, r)


def norm1(env, form='arr', zero=False, scale=1):
    tr, np = env.m('translate'), env.np
    if zero:
        env.close('the zero vector is kept', tr.norm1([0., 0., 0.]), [0, 0, 0])
        return
    v = env.vec('v', 3, -1000, 1000)
    env.assume(dot(v, v) > 1e-6)
    v = [c * env.num(scale) for c in v]
    r = tr.norm1(env.arr(v) if form == 'arr' else tuple(v))
    env.observe('norm1', r)
    env.close('unit length', np.sum(r * r), 1)
    s = dot(r, v)
    env.le('same sense', 0, s)
    env.close('collinear', [s * c for c in r], v, tol=1e-9 * min(scale, 1))


def angle(env, n=0, pos=0, form='2d', via='translate'):
    """dot product, arccos of it and degrees, always a number"""
    np = env.np
    b = env.unit('bx', 'by', 'bz')
    if via == 'translate':
        a = env.unit('ax', 'ay', 'az') if not n else [.48, -.64, .6]
        env.bound_dot(a, b)
        tr = env.m('translate')
        f = {k: (lambda x, k=k: getattr(tr, k)(env.arr(a), x)) for k in ('ctheta', 'radians', 'degrees')}
    else:
        vm = env.m('mapper').ViewMapper(via, 180)
        a = vm.dxyz
        env.bound_dot(a, b)
        f = {k: getattr(vm, k) for k in ('ctheta', 'radians', 'degrees')}
    conc = fib_dirs(n) if n else []
    m = rows(env, b, conc, pos)
    if form == 'img':
        arg = env.arr(m).reshape(2, 2, 3)
    elif form == 'flat':
        arg = env.arr(m[0])
    else:
        arg = env.arr(m)
    c, r, d = f['ctheta'](arg), f['radians'](arg), f['degrees'](arg)
    for x in (c, r, d):
        env.shape('angle', x, (n + 1,))
    env.observe('ctheta', c[pos])
    env.close('cosine', c[pos], dot(a, b))
    env.close('angle', np.cos(r[pos]), dot(a, b))
    env.le('angle >= 0', 0, r)
    env.le('angle <= pi', r, env.pi)
    env.close('degrees', d * (env.pi / 180), r)
    env.le('cosine <= 1', c, 1, slack=0)
    env.le('cosine >= -1', -1, c, slack=0)
    if n:
        env.close('other rows', [c[k + (k >= pos)] for k in range(n)], [dot(a, x) for x in conc])


def near_unit(env, via='translate'):
    """vectors a rounding error longer than one never give nan"""
    np = env.np
    x, y, z = env.unit('x', 'y', 'z')
    k, s = env.real('k', 1, 1.0000001), env.choice('sign', [1, -1])
    b = [k * c * s for c in (x, y, z)]
    if via == 'translate':
        a = [x, y, z]
        r = env.m('translate').radians(env.arr(a), env.arr([b]))
        c = env.m('translate').ctheta(env.arr(a), env.arr([b]))
    else:
        vm = env.m('mapper').ViewMapper((0., 0., 1.), 180)
        b = [0., 0., s * k]
        r = vm.radians(env.arr([b]))
        c = vm.ctheta(env.arr([b]))
    env.le('cosine <= 1', c, 1, slack=0)
    env.le('cosine >= -1', -1, c, slack=0)
    env.close('angle', r, [0 if s > 0 else env.pi])


def chord(env):
    tr, np = env.m('translate'), env.np
    t = env.real('theta', 0, 4)
    env.assume(t <= env.pi)
    c = tr.theta2chord(t)
    env.observe('chord', c)
    env.close('chord of the angle', c * c, 2 - 2 * np.cos(t))
    env.le('chord >= 0', 0, c)
    env.close('theta -> chord -> theta', tr.chord2theta(c), t)
    k = env.real('c', 0, 2)
    th = tr.chord2theta(k)
    env.le('theta >= 0', 0, th)
    env.le('theta <= pi', th, env.pi)
    env.close('chord -> theta -> chord', tr.theta2chord(th), k)
    a = env.arr([t, .25, 1.5])
    env.close('arrays', tr.chord2theta(tr.theta2chord(a)), [t, .25, 1.5])


def chord_vec(env):
    """chord2theta of the distance of two unit vectors is the angle between them"""
    tr, np = env.m('translate'), env.np
    x, y, z = env.unit('x', 'y', 'z')
    a = env.arr([0., 0., 1.])
    b = env.arr([x, y, z])
    d = np.sqrt(np.sum((a - b) * (a - b)))
    th = tr.chord2theta(d)
    env.close('angle', np.cos(th), z)


def tasks(tier):
    ts = [Task('norm', norm), Task('norm-rows3', norm, mode='float', n=3, pos=1),
          Task('norm-rows130', norm, mode='float', n=130, pos=101),
          Task('norm1', norm1), Task('norm1-tuple', norm1, form='tuple'), Task('norm1-zero', norm1, zero=True),
          Task('chord', chord), Task('chord-vec', chord_vec)]
    for k in (1e-4, 1e-9, 1e-20, 1e6):
        ts += [Task(f'norm-by{k:g}', norm, scale=k), Task(f'norm1-by{k:g}', norm1, scale=k)]
    for via, nm in (('translate', ''), ((.0, 1., 0.), '-vm'), ((.6, 0., -.8), '-vm2')):
        ts.append(Task('angle' + nm, angle, via=via, mode='exact' if via == 'translate' else 'float'))
        ts.append(Task('angle-flat' + nm, angle, via=via, form='flat', mode='float'))
        ts.append(Task('angle-img' + nm, angle, via=via, form='img', mode='float', n=3, pos=2))
        ts.append(Task('angle-rows' + nm, angle, via=via, mode='float', n=130, pos=101))
    ts.append(Task('near-unit', near_unit))
    ts.append(Task('near-unit-vm', near_unit, via='vm'))
    return ts
