"""C04: rotation matrices"""
from symx.api import Task
from checks.util import fib_dirs, rows, dot, cross

FUNCTIONS = ['raytools.translate.rmtx_elem', 'raytools.translate.rotate_elem', 'raytools.translate.rmtx_yp',
             'raytools.translate.xyz2tp']
BOUNDS = ('every angle in [-720, 720] degrees ([-4 pi, 4 pi] radians), the three axes, every view direction '
          'and every vector with components in [-10, 10]; one to three view directions per call')
OUTSIDE = ('floating-point rounding; view directions between 1e-5 and 4e-5 rad of nadir or zenith, where the '
           'azimuth used is a constant (checked to 1e-4)')


def elem(env, axis, deg):
    """right-handed rotation about one axis"""
    tr, np, pi = env.m('translate'), env.np, env.pi
    t = env.real('t', -720, 720) if deg else env.real('t', -13, 13)
    if not deg:
        env.assume((t <= 4 * pi) & (t >= -4 * pi))
    r = tr.rmtx_elem(t, axis=axis, degrees=deg)
    env.shape('matrix', r, (3, 3))
    a = t * (pi / 180) if deg else t
    c, s = np.cos(a), np.sin(a)
    env.observe('m', r)
    i, j, k = axis, (axis + 1) % 3, (axis + 2) % 3
    exp = [[0] * 3 for _ in range(3)]
    exp[i][i] = 1
    exp[j][j] = c
    exp[j][k] = -s
    exp[k][j] = s
    exp[k][k] = c
    env.close('matrix', r, exp)
    v = env.vec('v', 3, -10, 10)
    w = tr.rotate_elem(env.arr([v, [1., 2., 3.]]), t, axis=axis, degrees=deg)
    env.shape('rotated', w, (2, 3))
    for row, src in ((0, v), (1, [1., 2., 3.])):
        env.close('rotated', w[row], [sum(exp[p][q] * src[q] for q in range(3)) for p in range(3)])
    back = tr.rotate_elem(w, -t, axis=axis, degrees=deg)
    env.close('back', back[0], v)


def elem_default(env):
    """defaults: degrees about z"""
    tr, np, pi = env.m('translate'), env.np, env.pi
    t = env.real('t', -720, 720)
    v = env.vec('v', 3, -10, 10)
    c, s = np.cos(t * (pi / 180)), np.sin(t * (pi / 180))
    w = tr.rotate_elem(env.arr([v]), t)
    env.close('z', w[0], [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]])


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def ident(env, label, m):
    env.close(label, m, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])


def yp(env, n=0, pos=0, keep=True, scale=False, half=None):
    """two rotations taking a view direction to +z with world z projecting up (+y)"""
    tr, np = env.m('translate'), env.np
    z, x, y = env.unit('z', 'x', 'y')
    env.assume((z < .9999) & (z > -.9999))
    conc = [[.36, .48, .8], [0., 1., 0.], [-.6, 0., -.8]][:n]
    v = [x, y, z]
    if scale:
        v = [c * env.real('k', .1, 10) for c in v]
    m = rows(env, v, conc, pos)
    ym, pm = tr.rmtx_yp(env.arr(m), keepdims=keep)
    if keep or n:
        env.shape('ymtx', ym, (n + 1, 3, 3))
        env.shape('pmtx', pm, (n + 1, 3, 3))
    else:
        env.shape('ymtx', ym, (3, 3))
        env.shape('pmtx', pm, (3, 3))
        ym, pm = ym.reshape(1, 3, 3), pm.reshape(1, 3, 3)
    for k in range(n + 1):
        Y, P = [[ym[k, i, j] for j in range(3)] for i in range(3)], \
            [[pm[k, i, j] for j in range(3)] for i in range(3)]
        d = [x, y, z] if k == pos else m[k]
        T = mm(P, Y)
        ident(env, 'yaw is a rotation', mm(Y, [list(c) for c in zip(*Y)]))
        ident(env, 'pitch is a rotation', mm(P, [list(c) for c in zip(*P)]))
        env.close('proper', [dot(Y[0], cross(Y[1], Y[2])), dot(P[0], cross(P[1], P[2]))], [1, 1])
        env.close('view direction goes to z', [dot(T[i], d) for i in range(3)], [0, 0, 1])
        # world z: T[:, 2]; x component 0, y component >= 0
        env.close('up has no x', T[0][2], 0)
        env.le('up points up', 0, T[1][2])
        if k == pos:
            env.observe('view matrix', T)


def yp_pole(env, s):
    """z gives the identity, -z the documented 180 degree pair; and close to them still a rotation"""
    tr, np = env.m('translate'), env.np
    ym, pm = tr.rmtx_yp(env.arr([0., 0., float(s)]))
    if s > 0:
        ident(env, 'identity', ym)
        ident(env, 'identity', pm)
    else:
        env.close('yaw', ym, [[-1, 0, 0], [0, -1, 0], [0, 0, 1]])
        env.close('pitch', pm, [[1, 0, 0], [0, -1, 0], [0, 0, -1]])


def yp_near(env):
    """near the poles the direction still goes to z (within the code's tolerance)"""
    tr, np = env.m('translate'), env.np
    z, x, y = env.unit('z', 'x', 'y')
    env.assume((z >= .9999) | (z <= -.9999))
    ym, pm = tr.rmtx_yp(env.arr([x, y, z]))
    Y, P = [[ym[i, j] for j in range(3)] for i in range(3)], [[pm[i, j] for j in range(3)] for i in range(3)]
    T = mm(P, Y)
    ident(env, 'rotation', mm(T, [list(c) for c in zip(*T)]))
    env.close('view direction goes to z', [dot(T[i], [x, y, z]) for i in range(3)], [0, 0, 1], tol=1e-4, ctol=2e-4)


def tasks(tier):
    ts = [Task(f'elem-{a}-{"deg" if d else "rad"}', elem, axis=a, deg=d) for a in range(3) for d in (True, False)]
    ts += [Task('elem-default', elem_default),
           Task('yp', yp, keep=False), Task('yp-keep', yp), Task('yp-scaled', yp, keep=False, scale=True),
           Task('yp-rows', yp, n=3, pos=1), Task('yp-rows-sq', yp, n=2, pos=2, keep=False),
           Task('yp-z', yp_pole, s=1), Task('yp-nz', yp_pole, s=-1), Task('yp-near', yp_near, budget=150)]
    return ts
