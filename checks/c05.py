"""C05: square bins, serial bin numbers and sky patches"""
from symx.api import Task
from checks.util import fib_dirs, rows

FUNCTIONS = ['raytools.translate.uv2ij', 'raytools.translate.uv2bin', 'raytools.translate.bin2uv',
             'raytools.translate.xyz2skybin', 'raytools.translate.skybin2xyz']
BOUNDS = ('every (u, v) in [0,2)x[0,1) (and u in [0,1) for aspect 1) for sides 1, 2, 3, 5, 8; every bin of those '
          'sides with every offset in (0, 1); every direction of the upper hemisphere given as a point of the '
          'square for sides 1, 2, 3; tolerances in (0, 0.5] for points at least the tolerance away from the edge')
OUTSIDE = 'floating-point rounding at the cell limits; points on the far edge of the square'


def inside(env, label, i, x):
    env.le(label, i, x)
    env.le(label, x, i + 1)


def cell(env, side, aspect=2, n=0, pos=0, form='arr'):
    tr = env.m('translate')
    u, v = env.real('u', 0, aspect), env.real('v', 0, 1)
    env.assume((u < aspect) & (v < 1))
    conc = [[((i * 7 + 3) % 37) / 19.5 if aspect == 2 else ((i * 7 + 3) % 37) / 38, ((i * 11 + 5) % 41) / 43]
            for i in range(n)]
    m = rows(env, [u, v], conc, pos)
    uv = m if form == 'list' else env.arr(m[0] if form == 'flat' else m)
    if form == 'list':
        uv = env.arr(m)
    ij = tr.uv2ij(uv, side) if aspect == 2 else tr.uv2ij(uv, side, aspect=aspect)
    env.shape('ij', ij, (n + 1, 2))
    for k in range(n + 1):
        a, b = m[k]
        i, j = ij[k, 0], ij[k, 1]
        inside(env, 'cell contains u', i, side * a)
        inside(env, 'cell contains v', j, side * b)
        env.check('cell limits', (i >= 0) & (i < aspect * side) & (j >= 0) & (j < side))
    if aspect == 2:
        bn = tr.uv2bin(uv, side)
        env.shape('bin', bn, (n + 1,))
        env.same('bin number', bn, ij[:, 0] * side + ij[:, 1])
        back = tr.bin2uv(bn, side)
        env.shape('bin2uv', back, (n + 1, 2))
        for k in range(n + 1):
            for c in (0, 1):
                env.le('centre within half a cell', back[k, c] - m[k][c], .5 / side)
                env.le('centre within half a cell', m[k][c] - back[k, c], .5 / side)
        lo = tr.bin2uv(bn, side, offset=0)
        env.close('corner of the cell', lo, ij / side)


def bins(env, side):
    """every bin number is recovered from any inner point of its cell"""
    tr, np = env.m('translate'), env.np
    o = env.real('offset', .001, .999)
    b = np.arange(2 * side * side)
    uv = tr.bin2uv(b, side, offset=o)
    env.close('points', uv, [[(k // side + o) / side, (k % side + o) / side] for k in range(2 * side * side)])
    env.same('bin -> uv -> bin', tr.uv2bin(uv, side), b)
    env.close('default is the centre', tr.bin2uv(b, side), tr.bin2uv(b, side, offset=.5))


def sky(env, side, n=0, pos=0, norm=False):
    """direction -> sky patch, through the equal-area square"""
    tr, np = env.m('translate'), env.np
    u, v = env.real('u', 0, 1), env.real('v', 0, 1)
    env.assume((u < 1) & (v < 1))
    conc = [[((i * 7 + 3) % 37) / 38 + .003, ((i * 11 + 5) % 41) / 43 + .003] for i in range(n)]
    m = rows(env, [u, v], conc, pos)
    xyz = tr.uv2xyz(env.arr(m), xsign=1)
    b = tr.xyz2skybin(xyz * 2 if norm else xyz, side, normalize=norm)
    env.shape('bins', b, (n + 1,))
    for k in range(n + 1):
        i, j = b[k] // side, b[k] % side
        a, c = m[k]
        inside(env, 'patch contains the direction (u)', i, side * a)
        inside(env, 'patch contains the direction (v)', j, side * c)
    env.check('patch numbers', (b >= 0) & (b < side * side))
    c = tr.skybin2xyz(b, side)
    env.shape('centres', c, (n + 1, 3))
    env.close('unit length', np.sum(c * c, -1), [1] * (n + 1))
    env.close('centre of the patch', tr.xyz2uv(c, flipu=False), tr.bin2uv(b, side))


def sky_tol(env, side):
    """with a tolerance: every patch that the square of that half width touches, once, sorted"""
    tr, np = env.m('translate'), env.np
    u, v, t = env.real('u', 0, 1), env.real('v', 0, 1), env.real('tol', .01, .5)
    for c in (u, v):
        env.assume((side * c > t) & (side * c < side - t))
    xyz = tr.uv2xyz(env.arr([[u, v]]), xsign=1)
    b = tr.xyz2skybin(xyz, side, tol=t)
    got = [int(x) for x in b]
    env.check('sorted and unique', got == sorted(set(got)))
    for k in range(side * side):
        i, j = k // side, k % side
        if k in got:
            env.check('listed patch is touched', (side * u + t >= i - 1e-7) & (side * u - t <= i + 1 + 1e-7) &
                      (side * v + t >= j - 1e-7) & (side * v - t <= j + 1 + 1e-7))
        else:
            env.check('touched patch is listed', (side * u + t < i + 1e-7) | (side * u - t > i + 1 - 1e-7) |
                      (side * v + t < j + 1e-7) | (side * v - t > j + 1 - 1e-7))


def sky_all(env, side):
    tr, np = env.m('translate'), env.np
    b = np.arange(side * side)
    xyz = tr.skybin2xyz(b, side)
    env.close('unit length', np.sum(xyz * xyz, -1), [1] * (side * side))
    env.le('upper hemisphere', 0, xyz[:, 2])
    env.same('patch -> direction -> patch', tr.xyz2skybin(xyz, side), b)
    g = tr.skybin2xyz(np.arange(side * side, 2 * side * side), side)
    env.close('ground', g, [[0, 0, -1]] * (side * side))


def tasks(tier):
    ts = []
    big = tier == 'thorough'
    for s in (1, 2, 3, 5, 8) + ((13, 18) if big else ()):
        ts.append(Task(f'cell-{s}', cell, mode='float', side=s))
        ts.append(Task(f'cell-a1-{s}', cell, mode='float', side=s, aspect=1))
        ts.append(Task(f'bins-{s}', bins, mode='float', side=s))
        ts.append(Task(f'sky-all-{s}', sky_all, mode='float', side=s))
    ts += [Task('cell-flat', cell, mode='float', side=3, form='flat'),
           Task('cell-rows3', cell, mode='float', side=3, n=3, pos=1),
           Task('cell-a1-rows3', cell, mode='float', side=3, n=3, pos=1, aspect=1),
           Task('cell-rows130', cell, mode='float', side=4, n=130, pos=101)]
    for s in (1, 2, 3) + ((4, 6) if big else ()):
        ts.append(Task(f'sky-{s}', sky, side=s))
        ts.append(Task(f'sky-norm-{s}', sky, side=s, norm=True))
    ts.append(Task('sky-rows', sky, side=2, n=3, pos=1, mode='float'))
    for s in (2, 3):
        ts.append(Task(f'sky-tol-{s}', sky_tol, side=s, budget=120))
    return ts
