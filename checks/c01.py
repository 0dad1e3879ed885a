"""C01: square <-> sphere (Shirley-Chiu) maps are mutually inverse"""
from symx.api import Task
from checks.util import fib_dirs, rows

FUNCTIONS = ['raytools.translate.uv2xyz', 'raytools.translate.xyz2uv', 'raytools.translate.uv2xy',
             'raytools.translate.norm']
BOUNDS = ('every (u, v) in [0,2]x[0,1] (second square: its interior) and every unit vector, as exact '
          'reals; one symbolic row alone, in pairs and among 3 / 130 concrete rows; all six axis orders; '
          'the matched pairs (xsign=-1, flipu=True) on the sphere and (1, False) on the upper hemisphere')
OUTSIDE = 'floating-point rounding; more than two rows symbolic at once'

AXES = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (1, 0, 2), (2, 1, 0)]


def uv_rt(env, axes, flip, n=0, pos=0, form='arr'):
    tr, np = env.m('translate'), env.np
    u, v = env.real('u', 0, 2 if flip else 1), env.real('v', 0, 1)
    if flip:
        # the rim of the second square is the equator, shared with the first
        env.assume((u <= 1) | ((v > 0) & (v < 1) & (u < 2)))
    conc = [[((i * 7 + 3) % 37) / 19.5 if flip else ((i * 7 + 3) % 37) / 38, ((i * 11 + 5) % 41 + 1) / 43]
            for i in range(n)]
    m = rows(env, [u, v], conc, pos)
    if form == 'list':
        uv = m
    elif form == 'flat':
        uv = env.arr(m[0])
    else:
        uv = env.arr(m)
    xyz = tr.uv2xyz(uv, axes=axes, xsign=-1 if flip else 1)
    env.shape('xyz', xyz, (n + 1, 3))
    env.observe('xyz', xyz[pos])
    env.close('unit length', np.sum(xyz * xyz, -1), [1] * (n + 1))
    z = xyz[pos, axes[2]]
    if u <= 1:
        env.le('first square is the upper hemisphere', 0, z)
    else:
        env.le('second square is the lower hemisphere', z, 0)
    back = tr.xyz2uv(xyz, axes=axes, flipu=flip)
    env.close('uv -> xyz -> uv', back, m)
    env.close('uv -> xyz -> uv (normalize)', tr.xyz2uv(xyz * 3, normalize=True, axes=axes, flipu=flip)[pos],
              m[pos])


def xyz_rt(env, axes, flip, n=0, pos=0, form='arr'):
    tr, np = env.m('translate'), env.np
    names = ['x', 'y', 'z']
    v = [None] * 3
    for k, c in zip((axes[2], axes[0], axes[1]), env.unit(*[names[axes[k]] for k in (2, 0, 1)])):
        v[k] = c
    if not flip:
        env.assume(v[axes[2]] >= 0)
    conc = [d if flip or d[axes[2]] >= 0 else [-c for c in d] for d in fib_dirs(n)] if n else []
    m = rows(env, v, conc, pos)
    xyz = m if form == 'list' else env.arr(m[0] if form == 'flat' else m)
    uv = tr.xyz2uv(xyz, axes=axes, flipu=flip)
    env.shape('uv', uv, (n + 1, 2))
    env.observe('uv', uv[pos])
    env.le('u >= 0', 0, uv[:, 0])
    env.le('u <= 2', uv[:, 0], 2 if flip else 1)
    env.le('v >= 0', 0, uv[:, 1])
    env.le('v <= 1', uv[:, 1], 1)
    back = tr.uv2xyz(uv, axes=axes, xsign=-1 if flip else 1)
    env.close('xyz -> uv -> xyz', back, m, tol=1e-7)


def disk(env, n=0, pos=0):
    """uv2xy is the planar version of uv2xyz: same angle, radius r instead of r*sqrt(2-r^2)"""
    tr, np = env.m('translate'), env.np
    u, v = env.real('u', 0, 2), env.real('v', 0, 1)
    conc = [[((i * 7 + 3) % 37) / 19.5, ((i * 11 + 5) % 41 + 1) / 43] for i in range(n)]
    uv = env.arr(rows(env, [u, v], conc, pos))
    xy = tr.uv2xy(uv)
    xyz = tr.uv2xyz(uv)
    env.shape('xy', xy, (n + 1, 2))
    env.observe('xy', xy[pos])
    r2 = np.sum(xy * xy, -1)
    env.le('inside the unit disk', r2, 1)
    s = np.sqrt(2 - r2[pos])
    env.close('x', xy[pos, 0] * s, xyz[pos, 0])
    env.close('y', xy[pos, 1] * s, xyz[pos, 1])
    env.close('z', 1 - r2[pos], abs(xyz[pos, 2]))
    # area-preserving concentric map: the radius is the Chebyshev radius of the square
    uu = u - 1 if u > 1 else u
    a, b = abs(2 * uu - 1), abs(2 * v - 1)
    env.close('radius', r2[pos], a * a if a > b else b * b)


def tasks(tier):
    ts = []
    ax = AXES if tier == 'thorough' else AXES[:1] + AXES[3:4] + AXES[1:2]
    for i, a in enumerate(AXES):
        nm = ''.join(map(str, a))
        ts.append(Task('uv-' + nm, uv_rt, axes=a, flip=True, budget=100))
        if a in ax:
            ts.append(Task('uv-up-' + nm, uv_rt, axes=a, flip=False, budget=100))
        ts.append(Task('xyz-' + nm, xyz_rt, axes=a, flip=True, budget=100))
        if a in ax:
            ts.append(Task('xyz-up-' + nm, xyz_rt, axes=a, flip=False, budget=100))
    ts.append(Task('uv-list', uv_rt, axes=AXES[0], flip=True, form='list', budget=100))
    ts.append(Task('uv-flat', uv_rt, axes=AXES[0], flip=True, form='flat', budget=100))
    ts.append(Task('xyz-flat', xyz_rt, axes=AXES[0], flip=True, form='flat', budget=100))
    for n, p in ((3, 1), (130, 101)):
        ts.append(Task(f'uv-rows{n}', uv_rt, mode='float', axes=AXES[0], flip=True, n=n, pos=p, budget=150))
        ts.append(Task(f'xyz-rows{n}', xyz_rt, mode='float', axes=AXES[0], flip=True, n=n, pos=p, budget=150))
    ts.append(Task('disk', disk, budget=100))
    ts.append(Task('disk-rows', disk, mode='float', n=3, pos=2, budget=100))
    return ts
