"""C12: view mapper: view space and its square"""
from symx.api import Task
from checks.util import fib_dirs, rows, dot, cross

FUNCTIONS = ['raytools.mapper.ViewMapper.__init__', 'raytools.mapper.ViewMapper.dxyz', 'raytools.mapper.Mapper.view2world',
             'raytools.mapper.Mapper.world2view', 'raytools.mapper.AngularMixin.xyz2uv',
             'raytools.mapper.AngularMixin.uv2xyz', 'raytools.mapper.ViewMapper.aspect']
BOUNDS = ('every view direction away from the poles (|z| < 0.9999) and the two poles; every vector with components in '
          '[-10, 10]; every point of the view square for view angles 60, 90, 120, 180 and 360 in 6 view directions, '
          'alone and among 3 / 60 rows')
OUTSIDE = 'floating-point rounding; view angles between 180 and 360; points within 1e-5 of the rim of a square that covers a hemisphere'

DIRS = {'y': (0., 1., 0.), 'z': (0., 0., 1.), '-z': (0., 0., -1.), 'x': (1., 0., 0.), 'a': (.6, 0., -.8),
        'b': (-.48, -.64, .6)}


def axes(d):
    """right, up, forward of a view direction with world z up"""
    d = list(d)
    n = dot(d, d) ** .5
    d = [round(c / n, 12) for c in d]
    if d[2] > .99999:
        return [-1., 0., 0.], [0., 1., 0.], d
    if d[2] < -.99999:
        return [1., 0., 0.], [0., 1., 0.], d
    h = (d[0] * d[0] + d[1] * d[1]) ** .5
    r = [round(d[1] / h, 12), round(-d[0] / h, 12), 0.]
    return r, [round(c, 12) for c in cross(r, d)], d


def rot(env, va, scale=False, seq=False, plane=None):
    """any view direction"""
    np = env.np
    if plane == 'h':
        (x, y), z = env.unit('x', 'y'), 0
    elif plane == 'v':
        (z, y), x = env.unit('z', 'y'), 0
    else:
        z, x, y = env.unit('z', 'x', 'y')
    env.assume((z < .9999) & (z > -.9999))
    d = [x, y, z]
    if scale:
        d = [c * 3 for c in d]
    vm = env.m('mapper').ViewMapper((1., 2., 3.) if seq else env.arr(d), va)
    if seq:
        vm.dxyz = env.arr(d)
    env.close('direction', vm.dxyz, [x, y, z])
    v = env.vec('v', 3, -10, 10)
    w = vm.world2view(env.arr([v, [1., 2., 3.]]))
    env.shape('rows', w, (2, 3))
    env.observe('world2view', w)
    for k, s in ((0, v), (1, [1., 2., 3.])):
        env.close('depth is along the view direction', w[k, 2], dot(s, [x, y, z]))
        env.close('length is kept', dot(w[k], w[k]), dot(s, s))
    back = vm.view2world(w)
    env.close('world -> view -> world', back, [v, [1., 2., 3.]])
    env.close('view -> world -> view', vm.world2view(vm.view2world(env.arr([v])))[0], v)
    up = vm.world2view(env.arr([0., 0., 1.]))[0]
    env.close('world z has no sideways part', up[0], 0)
    env.le('world z points up', 0, up[1])
    fwd = vm.world2view(env.arr([[x, y, z]]))[0]
    env.close('view direction is z', fwd, [0, 0, 1])
    if va == 360:
        env.close('opposite view', vm.ivm.dxyz, [-x, -y, -z])
        env.close('opposite view angle', vm.ivm.viewangle, 180)
    else:
        env.check('no opposite view', vm.ivm is None)


def uv(env, dn, va, n=0, pos=0, form='arr', seq=False):
    np = env.np
    vm = env.m('mapper').ViewMapper(DIRS[dn] if not seq else (.1, .2, .3), va)
    if seq:
        vm.dxyz = DIRS[dn]
    r, u_, d = axes(DIRS[dn])
    full = va == 360
    env.close('view angle', vm.viewangle, 180 if full else va)
    env.same('aspect', vm.aspect, 2 if full else 1)
    u, v = env.real('u', 0, 2 if full else 1), env.real('v', 0, 1)
    if va >= 180:
        # the rim of the squares is excluded
        e = 1e-5
        env.assume((v > e) & (v < 1 - e) & (u > e) & (((u < 1 - e) | (u > 1 + e)) & (u < 2 - e)))
    m = rows(env, [u, v], [[((i * 7 + 3) % 37 + 1) / 38.5, ((i * 11 + 5) % 41 + 1) / 43] for i in range(n)], pos)
    xyz = vm.uv2xyz(m if form == 'list' else env.arr(m[0] if form == 'flat' else m))
    env.shape('xyz', xyz, (n + 1, 3))
    env.observe('xyz', xyz[pos])
    env.close('unit length', np.sum(xyz * xyz, -1), [1] * (n + 1))
    p = [xyz[pos, k] for k in range(3)]
    env.close('uv -> xyz -> uv', vm.xyz2uv(xyz), m, tol=1e-7)
    if full:
        if u <= 1:
            env.le('first square is in front', 0, dot(p, d), slack=1e-7)
        else:
            env.le('second square is behind', dot(p, d), 0, slack=1e-7)
    else:
        a, b = 2 * u - 1, 2 * v - 1
        s = va / 180
        env.close('centre is the view direction', vm.uv2xyz(env.arr([[.5, .5]]))[0], d, tol=1e-7)
        # equal area: the largest of |a|, |b| is the square root of 1 - cos
        c = 1 - dot(p, d)
        if a * a > b * b:
            env.close('equal area', c, a * a * (s * s), tol=1e-7)
        else:
            env.close('equal area', c, b * b * (s * s), tol=1e-7)
    if va == 180:
        env.le('u runs to the right', 0, a * dot(p, r), slack=1e-7)
        env.le('v runs up', 0, b * dot(p, u_), slack=1e-7)
    o = vm.uv2xyz(env.arr(m), stackorigin=True)
    env.shape('with origin', o, (n + 1, 6))
    env.close('origin first', o[:, :3], [[0, 0, 0]] * (n + 1))
    env.close('then the vector', o[:, 3:], xyz)


def xyz(env, dn, va, n=0, pos=0):
    """any direction: into the square and back"""
    np = env.np
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    r, u_, d = axes(DIRS[dn])
    c, a, b = env.unit('c', 'a', 'b')
    if va != 360:
        env.assume(c >= 0)
    p = [a * r[k] + b * u_[k] + c * d[k] for k in range(3)]
    m = rows(env, p, [x if dot(x, d) >= 0 or va == 360 else [-t for t in x] for x in (fib_dirs(n) if n else [])], pos)
    w = vm.xyz2uv(env.arr(m))
    env.shape('uv', w, (n + 1, 2))
    if va >= 180:
        env.le('u >= 0', 0, w[:, 0], slack=1e-7)
        env.le('u <= aspect', w[:, 0], vm.aspect, slack=1e-7)
        env.le('v >= 0', 0, w[:, 1], slack=1e-7)
        env.le('v <= 1', w[:, 1], 1, slack=1e-7)
    env.close('xyz -> uv -> xyz', vm.uv2xyz(w), m, tol=1e-6)


def tasks(tier):
    ts = [Task('rot-180', rot, va=180), Task('rot-360-h', rot, va=360, plane='h'), Task('rot-360-v', rot, va=360, plane='v'), Task('rot-90-scaled', rot, va=90, scale=True),
          Task('rot-360-set', rot, va=360, seq=True, plane='h'), Task('rot-180-set', rot, va=180, seq=True)]
    for dn in DIRS:
        for va in (60, 90, 120, 180, 360):
            ts.append(Task(f'uv{dn}-{va}', uv, dn=dn, va=va))
    ts += [Task('uv-list', uv, dn='z', va=180, form='list'), Task('uv-flat', uv, dn='z', va=180, form='flat'),
           Task('uv-rows3', uv, dn='b', va=180, n=3, pos=1),
           Task('uv-rows60', uv, dn='y', va=360, n=60, pos=41),
           Task('uv-set', uv, dn='b', va=90, seq=True)]
    for dn in ('z', 'y', '-z'):
        for va in (180, 360):
            ts.append(Task(f'xyz{dn}-{va}', xyz, dn=dn, va=va, check_timeout=25., budget=120))
    ts.append(Task('xyz-rows', xyz, dn='z', va=180, n=3, pos=2))
    return ts
