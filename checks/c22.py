"""C22: position index"""
from symx.api import Task
from checks.util import dot
from checks.c12 import DIRS, axes

FUNCTIONS = ['raytools.evaluate.PositionIndex.' + k for k in
             ('__init__', 'positions', '_positions', 'positions_vec', '_to_plane', '_angle_vv', '_get_pidx_guth', '_get_pidx_kim')]
BOUNDS = ('every angle from the view direction (0.5 to 89.5 degrees in front, 90.01 to 179 behind) for 8 roll angles and every '
          'roll angle for 5 angles; every direction below the line of sight; 4 view directions, alone and among other rows, vectors of '
          'any length')
OUTSIDE = 'floating-point rounding; directions within half a degree of the view direction (other than itself) or of the plane through the eye'
TAU = {'up': (0, 1), 'a': (.28, .96), 'b': (.6, .8), 'c': (.8, .6), 'd': (-.6, .8), 'e': (-.96, .28), 'right': (1, 0), 'left': (-1, 0),
       'flat': (.99712, .07584)}
PY = {'16': (.96, .28), '37': (.8, .6), '53': (.6, .8), '74': (.28, .96), '85': (.0831826401446654, None)}


def guth(np, s, t):
    return np.exp((35.2 - 0.31889 * t - 1.22 * np.exp(-2 * t / 9)) / 1000 * s + (21 + 0.26667 * t - 0.002963 * t * t) / 100000 * s * s)


def kim(np, s, t):
    return np.exp((s - (-0.000009 * t ** 3 + 0.0014 * t ** 2 + 0.0866 * t + 21.633))
                  / (-0.000009 * t ** 3 + 0.0013 * t ** 2 + 0.0853 * t + 8.772))


def frame(env, dn):
    return [[env.num(round(c, 12)) for c in v] for v in axes(DIRS[dn])]


def pos(env, dn, vec, model, va=180, viavec=False):
    ev, m = env.m('evaluate'), env.m('mapper')
    if viavec:
        p = ev.PositionIndex(model).positions_vec(DIRS[dn], env.arr(vec))
    else:
        p = ev.PositionIndex(model).positions(m.ViewMapper(DIRS[dn], va), env.arr(vec))
    env.shape('one per row', p, (len(vec),))
    return p


def expect(env, model, a, b, c, sigma, tau):
    """a, b, c: right, up and forward components; angles in degrees"""
    np = env.np
    if not model:
        return kim(np, sigma, tau)
    if bool(c < 0):
        return 16.
    if bool(b < 0):
        sigma, tau = np.arctan(np.sqrt(a * a + (1.15 * b) * (1.15 * b)) / c) * 180 / env.pi, 90.
    e = guth(np, sigma, tau)
    return e if bool(e < 16) else 16.


def sigma(env, dn, tau, model, behind=False, rows=0, length=False, va=180, viavec=False, below=False):
    """any angle from the view direction"""
    np, pi = env.np, env.pi
    r, u, f = frame(env, dn)
    qa, qb = [env.num(x) for x in TAU[tau]]
    if below:
        qb = -qb
    s = env.real('s', *((90.01 * 3.14159 / 180, 179 * 3.14159 / 180) if behind else (.01, 1.56)))
    c, n = np.cos(s), np.sin(s)
    a, b = n * qa, n * qb
    v = [a * r[k] + b * u[k] + c * f[k] for k in range(3)]
    if length:
        L = env.real('length', .1, 10)
        v = [L * x for x in v]
    others = [[.6 * f[k] + .8 * u[k] for k in range(3)], [.28 * f[k] - .96 * u[k] for k in range(3)], list(r)][:rows]
    vec = others[:1] + [v] + others[1:]
    i = len(others[:1])
    p = pos(env, dn, vec, model, va, viavec)
    t = np.arccos(qb) * 180 / pi
    e = expect(env, model, a, b, c, s * 180 / pi, t)
    env.close('index', p[i], e, tol=1e-6)
    if model:
        env.le('at most 16', p[i], 16.)
    if rows:
        q = pos(env, dn, others, model, va, viavec)
        env.close('other rows', [p[k] for k in range(len(vec)) if k != i], q, tol=1e-9)


def roll(env, dn, sg, model, below=False):
    """any angle to the vertical"""
    np, pi = env.np, env.pi
    r, u, f = frame(env, dn)
    c, n = [env.num(x) for x in PY[sg]]
    t = env.real('t', .01, 1.56)
    a, b = n * np.sin(t), n * np.cos(t)
    if below:
        b = -b
    side = env.choice('side', [1, -1])
    v = [side * a * r[k] + b * u[k] + c * f[k] for k in range(3)]
    p = pos(env, dn, [v], model)
    tt = pi - t if below else t
    e = expect(env, model, a, b, c, np.arccos(c) * 180 / pi, tt * 180 / pi)
    env.close('index', p[0], e, tol=1e-6)


def any_below(env, dn):
    np = env.np
    r, u, f = frame(env, dn)
    b, a, c = env.unit('b', 'a', 'c')
    env.assume((b < -.01) & (c > .01))
    v = [a * r[k] + b * u[k] + c * f[k] for k in range(3)]
    p = pos(env, dn, [v], True)
    env.close('index', p[0], expect(env, True, a, b, c, None, None), tol=1e-6)


def mirror(env, dn, model, n=1):
    """left and right are alike"""
    r, u, f = frame(env, dn)
    a, b, c = env.unit('a', 'b', 'c')
    env.assume((a > .01) & ((b > .01) | (b < -.01)) & ((c > .01) | (c < -.01)))
    v = [[s * a * r[k] + b * u[k] + c * f[k] for k in range(3)] for s in (1, -1)]
    p = pos(env, dn, v, model)
    env.close('mirrored', p[0], p[1], tol=1e-6)


def axis(env, dn, model):
    r, u, f = frame(env, dn)
    L = env.real('length', .1, 10)
    p = pos(env, dn, [[L * x for x in f], [.6 * f[k] + .8 * u[k] for k in range(3)], f], model)
    env.close('one on the axis', [p[0], p[2]], [1, 1], tol=1e-6)


def low(env, tau):
    """at least one and rising with the angle (Guth)"""
    np, pi = env.np, env.pi
    r, u, f = frame(env, 'y')
    qa, qb = [env.num(x) for x in TAU[tau]]
    s = env.real('s', .01, 1.5)
    d = env.real('d', .001, .05)
    out = []
    for x in (s, s + d):
        c, n = np.cos(x), np.sin(x)
        out.append([n * (qa * r[k] + qb * u[k]) + c * f[k] for k in range(3)])
    p = pos(env, 'y', out, True)
    env.le('at least one', 1., p[0])
    env.le('rises', p[0], p[1])


def tasks(tier):
    ts = []
    for model in (True, False):
        m = 'guth' if model else 'kim'
        for dn in ('y', 'a', 'z', 'b'):
            for tau in TAU:
                if dn in 'ya' or tau in 'bd':
                    ts.append(Task(f'sigma-{m}-{dn}-{tau}', sigma, dn=dn, tau=tau, model=model))
            ts += [Task(f'behind-{m}-{dn}', sigma, dn=dn, tau='b', model=model, behind=True),
                   Task(f'below-{m}-{dn}', sigma, dn=dn, tau='c', model=model, below=True),
                   Task(f'axis-{m}-{dn}', axis, dn=dn, model=model)][:3 if model else 2]
        for t in ('a', 'd', 'e', 'flat', 'right'):
            ts.append(Task(f'behind-{m}-{t}-y', sigma, dn='y', tau=t, model=model, behind=True))
        ts += [Task(f'behind-below-{m}', sigma, dn='y', tau='d', model=model, behind=True, below=True),
               Task(f'behind-below-{m}-flat', sigma, dn='b', tau='flat', model=model, behind=True, below=True),
               Task(f'below-{m}-up', sigma, dn='y', tau='up', model=model, below=True),
               Task(f'below-{m}-a', sigma, dn='a', tau='a', model=model, below=True),
               Task(f'below-{m}-flat', sigma, dn='a', tau='flat', model=model, below=True),
               Task(f'rows-{m}', sigma, dn='y', tau='b', model=model, rows=3), Task(f'rows-below-{m}', sigma, dn='a', tau='c', model=model, rows=2, below=True),
               Task(f'length-{m}', sigma, dn='y', tau='b', model=model, length=True), Task(f'wide-{m}', sigma, dn='y', tau='b', model=model, va=360),
               Task(f'narrow-{m}', sigma, dn='y', tau='b', model=model, va=90), Task(f'vec-{m}', sigma, dn='y', tau='b', model=model, viavec=True),
               Task(f'vec-rows-{m}', sigma, dn='a', tau='b', model=model, viavec=True, rows=2, below=True)]
        for sg in ('16', '37', '53', '74'):
            for dn in ('y', 'b'):
                ts += [Task(f'roll-{m}-{dn}-{sg}', roll, dn=dn, sg=sg, model=model),
                       Task(f'roll-below-{m}-{dn}-{sg}', roll, dn=dn, sg=sg, model=model, below=True)]
        for dn in ('y', 'z'):
            ts.append(Task(f'mirror-{m}-{dn}', mirror, dn=dn, model=model))
    ts += [Task(f'any-below-{dn}', any_below, dn=dn) for dn in ('y', 'a')]
    ts += [Task(f'low-{t}', low, tau=t) for t in TAU]
    return ts
