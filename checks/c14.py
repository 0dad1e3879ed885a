"""C14: equisolid images of a view"""
from symx.api import Task
from checks.util import rows, dot
from checks.c12 import DIRS, axes
from checks.c13 import factor

FUNCTIONS = ['raytools.mapper.SolidViewMapper.__init__', 'raytools.mapper.SolidViewMapper.xyz2vxy',
             'raytools.mapper.SolidViewMapper.vxy2xyz', 'raytools.mapper.ViewMapper.solid_xyz2vxy',
             'raytools.mapper.ViewMapper.solid_vxy2xyz', 'raytools.mapper.ViewMapper.solid_pixelrays',
             'raytools.mapper.ViewMapper.solid_pixel2ray', 'raytools.mapper.ViewMapper.solid_ray2pixel',
             'raytools.mapper.AngularMixin.xyz2vxy', 'raytools.translate.xyz2xy']
BOUNDS = ('every image point inside the view (more than 1e-3 from its centre and rim) and every direction inside it for '
          'view angles 60, 90, 180 and 4 view directions, alone and among other rows; resolutions 3 to 5')
OUTSIDE = ('floating-point rounding; the guard 1e-9 against division by zero at the centre is taken as zero; points outside '
           'the circle of the view')
RT2 = 2 ** .5


def obj(env, dn, va, kind):
    m = env.m('mapper')
    if kind == 'class':
        vm = m.SolidViewMapper(DIRS[dn], va)
        return vm, vm.xyz2vxy, vm.vxy2xyz
    vm = m.ViewMapper(DIRS[dn], va)
    return vm, vm.solid_xyz2vxy, vm.solid_vxy2xyz


def image(env, dn, va, kind, n=0, pos=0):
    np, pi = env.np, env.pi
    vm, fw, bw = obj(env, dn, va, kind)
    r, u, d = axes(DIRS[dn])
    q, t = env.real('q', .001, .4999), env.real('t', 0, 6.2831)
    a, b = q * np.cos(t), q * np.sin(t)
    x, y = a + .5, b + .5
    m = rows(env, [x, y], [[.3, .4], [.625, .5], [.5, .75]][:n], pos)
    xyz = bw(env.arr(m))
    env.shape('rays', xyz, (n + 1, 3))
    env.observe('ray', xyz[pos])
    p = [xyz[pos, k] for k in range(3)]
    env.close('unit length', dot(p, p), 1, tol=1e-7)
    env.close('same azimuth', a * dot(p, u), b * dot(p, r), tol=1e-7)
    env.le('x to the right', 0, a * dot(p, r), slack=1e-7)
    env.le('y up', 0, b * dot(p, u), slack=1e-7)
    back = fw(xyz)
    env.shape('image points', back, (n + 1, 2))
    env.close('image -> ray -> image', back, m, tol=1e-6)
    o = bw(env.arr(m), stackorigin=True)
    env.close('with origin', o, [[0, 0, 0] + [xyz[i, k] for k in range(3)] for i in range(n + 1)])


def ray(env, dn, va, kind, n=0, pos=0):
    np, pi = env.np, env.pi
    vm, fw, bw = obj(env, dn, va, kind)
    r, u, d = axes(DIRS[dn])
    c, a, b = env.unit('c', 'a', 'b')
    lim = np.cos(env.num(va) * factor(env, va) * pi / 360)
    env.assume((c < 1 - 1e-6) & (c > lim + 1e-4))
    p = [a * r[k] + b * u[k] + c * d[k] for k in range(3)]
    m = rows(env, p, [[d[k] * .96 + r[k] * .28 for k in range(3)], [d[k] * .96 - u[k] * .28 for k in range(3)]][:n], pos)
    w = fw(env.arr(m))
    env.observe('image point', w[pos])
    X, Y = w[pos, 0] - .5, w[pos, 1] - .5
    env.le('x to the right', 0, X * a, slack=1e-7)
    env.le('y up', 0, Y * b, slack=1e-7)
    env.close('same azimuth', X * b, Y * a, tol=1e-7)
    env.close('ray -> image -> ray', bw(w), m, tol=1e-6)


def ends(env, dn, kind):
    """centre and rim of a hemisphere"""
    np, pi = env.np, env.pi
    vm, fw, bw = obj(env, dn, 180, kind)
    r, u, d = axes(DIRS[dn])
    t = env.real('t', 0, 6.2)
    s, c = np.sin(t), np.cos(t)
    env.close('centre', bw(env.arr([[.5, .5]])), [list(d)], tol=1e-6)
    env.close('centre', fw(env.arr([list(d)])), [[.5, .5]], tol=1e-6)
    env.close('rim', bw(env.arr([[.5 + c / 2, .5 + s / 2]])), [[c * r[k] + s * u[k] for k in range(3)]], tol=1e-6)
    env.close('rim', fw(env.arr([[c * r[k] + s * u[k] for k in range(3)]])), [[.5 + c / 2, .5 + s / 2]], tol=1e-6)


def area(env):
    """equal areas of the image are equal solid angles (known finding)"""
    np, pi = env.np, env.pi
    vm, fw, bw = obj(env, 'y', 180, 'class')
    q = env.real('q', .01, .49)
    xyz = bw(env.arr([[.5 + q, .5]]))
    env.close('equal area', 1 - xyz[0, 1], 4 * q * q, tol=1e-6)


def wide(env, va):
    env.raises('a view of more than a hemisphere', ValueError, lambda: env.m('mapper').SolidViewMapper(viewangle=va))


def pixels(env, dn, va, res):
    np = env.np
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    q, t = env.real('q', .05, .49), env.real('t', 0, 6.2831)
    x, y = (q * np.cos(t) + .5) * res, (q * np.sin(t) + .5) * res
    v = vm.solid_pixel2ray(env.arr([[x, y], [1.5, .75]]), res)
    env.close('scaled image point', v, vm.solid_vxy2xyz(env.arr([[x / res, y / res], [1.5 / res, .75 / res]])))
    env.close('pixel -> ray -> pixel', vm.solid_ray2pixel(v, res, integer=False), [[x, y], [1.5, .75]], tol=1e-6)
    for k in range(0, 6):
        for t in (x, y):
            env.assume((t > k + 1e-5) | (t < k - 1e-5))
    p = vm.solid_ray2pixel(v, res)
    for k, t in ((0, x), (1, y)):
        env.le('pixel contains the point', p[0, k], t, slack=1e-6)
        env.le('pixel contains the point', t, p[0, k] + 1, slack=1e-6)


def rays(env, dn, va, res):
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    sm = env.m('mapper').SolidViewMapper(DIRS[dn], va)
    s = env.real('unused', 0, 1)
    v = vm.solid_pixelrays(res)
    env.shape('rays', v, (res, res, 3))
    env.close('pixel centres', v, vm.solid_vxy2xyz(vm.pixels(res) / res), tol=1e-7)
    env.close('both classes', v, sm.pixelrays(res), tol=1e-7)
    p = sm.ray2pixel(v.reshape(-1, 3), res)
    q = vm.solid_ray2pixel(v.reshape(-1, 3), res)
    for k in range(res * res):
        i, j = k // res, k % res
        if ((i + .5) / res - .5) ** 2 + ((j + .5) / res - .5) ** 2 < .2499:
            env.same('every pixel finds itself', p[k], [i, j])
            env.same('every pixel finds itself', q[k], [i, j])


def tasks(tier):
    ts = []
    for kind in ('class', 'solid'):
        for dn in ('y', 'z', 'a', 'b'):
            for va in (60, 90, 180):
                if va == 180 or dn == 'b' or tier == 'thorough':
                    ts += [Task(f'image-{kind}-{dn}-{va}', image, dn=dn, va=va, kind=kind, tiny=1e-9),
                           Task(f'ray-{kind}-{dn}-{va}', ray, dn=dn, va=va, kind=kind, tiny=1e-9)]
        ts += [Task(f'image-{kind}-rows', image, dn='y', va=180, kind=kind, n=3, pos=2, tiny=1e-9),
               Task(f'ray-{kind}-rows', ray, dn='y', va=180, kind=kind, n=2, pos=1, tiny=1e-9)]
        ts += [Task(f'ends-{kind}-{dn}', ends, dn=dn, kind=kind, tiny=1e-9) for dn in ('y', 'b')]
    ts += [Task('area', area, tiny=1e-9)]
    ts += [Task('wide', wide, va=181), Task('wide-360', wide, va=360),
           Task('pixels-180', pixels, dn='y', va=180, res=4, tiny=1e-9), Task('pixels-90', pixels, dn='b', va=90, res=3, tiny=1e-9),
           Task('rays-180', rays, dn='b', va=180, res=5, mode='float'), Task('rays-60', rays, dn='y', va=60, res=4, mode='float')]
    return ts
