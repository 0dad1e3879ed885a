"""C35: the sky expressions for Radiance and the functions of sky patches agree"""
from symx.api import Task
from symx.cal import Cal, library

FUNCTIONS = ['raytools.translate.scbinscal', 'raytools.translate.scxyzcal', 'raytools.translate.xyz2skybin', 'raytools.translate.skybin2xyz',
             'raytools.translate.xyz2uv', 'raytools.translate.uv2xyz']
BOUNDS = ('every direction above the horizon (as a point of the square more than 1e-6 from its axes and diagonals), every direction below it, every bin with '
          'every offset in [0.001, 0.999] for sides 1, 2, 3 and 5 (18 for stated offsets); every point of a grid cell')
OUTSIDE = ('floating-point rounding; directions on the horizon (ground for Radiance, sky for Python); the evaluator of Radiance expressions is '
           'modelled (parsed from their text and rayinit.cal) and compared with rcalc for every witness')


def square(env):
    u, v = env.real('u', 0, 1), env.real('v', 0, 1)
    env.assume((u < 1) & (v < 1))
    a, b = 2 * u - 1, 2 * v - 1
    for x in (a, b, a - b, a + b):
        env.assume((x > 1e-6) | (x < -1e-6))
    return u, v


def above(env, side):
    """bin of a direction above the horizon"""
    tr = env.m('translate')
    u, v = square(env)
    d = tr.uv2xyz(env.arr([[u, v]]), xsign=1)
    env.assume(d[0, 2] > 1e-6)
    for x in (u, v):
        for k in range(1, side):
            env.assume((x > (k + 1e-6) / side) | (x < (k - 1e-6) / side))
    c = Cal(env, library(), tr.scbinscal, side=side, Dx=d[0, 0], Dy=d[0, 1], Dz=d[0, 2])
    U, V, b = c.get('U', 'V', 'bin')
    p = tr.xyz2uv(d, flipu=False)
    env.close('point of the square', [V, U], [p[0, 0], p[0, 1]], tol=1e-7)
    env.close('bin', b, tr.xyz2skybin(d, side)[0], tol=1e-9)
    env.check('number of a patch', (b >= 0) & (b < side * side))


def below(env, side):
    tr = env.m('translate')
    x, y = env.real('x', -1, 1), env.real('y', -1, 1)
    s = 1 - x * x - y * y
    env.assume(s > 1e-6)
    z = -env.np.sqrt(s)
    b, n = Cal(env, library(), tr.scbinscal, side=side, Dx=x, Dy=y, Dz=z).get('bin', 'nrbins')
    env.close('number of patches', n, side * side)
    env.close('the ground', b, side * side)
    env.le('no patch of the sky', side * side, tr.xyz2skybin(env.arr([[x, y, z]]), side)[0])


def grid(env, side):
    """grid lines of twice .015 between the patches"""
    tr = env.m('translate')
    u, v, x = env.real('u', .01, .99), env.real('v', .01, .99), env.real('x', .1, 9)
    t, g = env.num(.015), []
    for w in (u, v):
        f = w * side - env.np.floor(w * side)
        for lim in (t, 1 - t):
            env.assume((f > lim + 1e-6) | (f < lim - 1e-6))
        g.append((f > t) & (f < 1 - t))
    r, = Cal(env, library(), tr.scbinscal, side=side, U=u, V=v, Q=x).get('grid(Q)')
    env.close('drawn within the cells', r, x if bool(g[0] & g[1]) else 0)


def directions(env, side, bins, offset=True):
    """direction of a bin and offsets, and back to the bin"""
    tr = env.m('translate')
    o = dict(x1=env.real('x1', .001, .999), x2=env.real('x2', .001, .999)) if offset else {}
    for k in bins:
        d = Cal(env, library(), tr.scxyzcal, side=side, bin=env.num(k), **o).get('Dx', 'Dy', 'Dz')
        if offset:
            for x, q in ((o['x1'], k // side % side), (o['x2'], k % side)):
                env.assume((2 * (q + x) / side - 1 > 1e-6) | (2 * (q + x) / side - 1 < -1e-6))
            a, b = 2 * (k // side % side + o['x1']) / side - 1, 2 * (k % side + o['x2']) / side - 1
            for x in (a - b, a + b):
                env.assume((x > 1e-6) | (x < -1e-6))
            want = tr.uv2xyz(env.arr([[(k // side + o['x1']) / side, (k % side + o['x2']) / side]]), xsign=1)[0]
        else:
            want = tr.skybin2xyz(env.arr([k]), side)[0]
        env.close('direction', d, list(want), tol=1e-7)
        env.close('unit', sum(x * x for x in d), 1, tol=1e-7)
        if k < side * side:
            env.assume(d[2] > 1e-6)
            b, = Cal(env, library(), tr.scbinscal, side=side, Dx=d[0], Dy=d[1], Dz=d[2]).get('bin')
            env.close('back to the bin', b, k)


def tasks(tier):
    ts = []
    big = tier == 'thorough'
    for s in (1, 2, 3, 5) + ((8,) if big else ()):
        ts += [Task(f'above-{s}', above, side=s), Task(f'below-{s}', below, side=s), Task(f'grid-{s}', grid, side=s)]
        n = s * s
        ts += [Task(f'direction-{s}-{k}', directions, side=s, bins=[k]) for k in range(0, 2 * n, 1 if s < 4 else 3)]
        ts.append(Task(f'centres-{s}', directions, side=s, bins=list(range(n)), offset=False, mode='float'))
    ts.append(Task('centres-18', directions, side=18, bins=list(range(0, 324, 7)), offset=False, mode='float'))
    return ts
