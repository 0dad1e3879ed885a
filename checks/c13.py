"""C13: angular fisheye images of a view"""
from symx.api import Task
from checks.util import rows, dot
from checks.c12 import DIRS, axes

FUNCTIONS = ['raytools.mapper.AngularMixin.xyz2vxy', 'raytools.mapper.AngularMixin.vxy2xyz',
             'raytools.mapper.AngularMixin.pixelrays', 'raytools.mapper.AngularMixin.in_view',
             'raytools.mapper.Mapper.ray2pixel', 'raytools.mapper.Mapper.pixel2ray', 'raytools.mapper.Mapper.pixels',
             'raytools.mapper.AngularMixin.framesize', 'raytools.mapper.AngularMixin.pixel2omega',
             'raytools.translate.xyz2xy', 'raytools.mapper.ViewMapper.aspect', 'raytools.translate.rmtx_yp']
BOUNDS = ('every image point in [0, 1]^2 and every direction off the poles of the view, for view angles 60, 90, 120, '
          '180 and 360 and 6 view directions, alone and among other rows or in an image; resolutions 3 to 7')
OUTSIDE = 'floating-point rounding; the opposite pole of a view; view angles between 180 and 360'


def factor(env, va):
    """angle covered by an image relative to its nominal view angle"""
    np, pi = env.np, env.pi
    if va == 180 or va == 360:
        return 1
    t = env.num(va) * pi / 360
    cl = 2 * np.sin(pi / 4) / (pi / 2)
    return cl / (2 * np.sin(t / 2) / t)


def law(env, dn, va, n=0, pos=0, form='arr'):
    """angle from the view direction proportional to the distance from the image centre, x right, y up"""
    np, pi = env.np, env.pi
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    r, u, d = axes(DIRS[dn])
    x, y = env.real('x', 0, 1), env.real('y', 0, 1)
    m = rows(env, [x, y], [[((i * 7 + 3) % 37 + 1) / 38.5, ((i * 11 + 5) % 41 + 1) / 43] for i in range(n)], pos)
    if form == 'img':
        arg = env.arr(m).reshape(2, 2, 2)
    else:
        arg = m if form == 'list' else env.arr(m[0] if form == 'flat' else m)
    xyz = vm.vxy2xyz(arg)
    env.shape('rays', xyz, (2, 2, 3) if form == 'img' else (n + 1, 3))
    xyz = xyz.reshape(-1, 3)
    env.observe('ray', xyz[pos])
    v2 = 180 if va == 360 else va
    sc = env.num(v2) * factor(env, va) / 180
    a, b = x - .5, y - .5
    q = np.sqrt(a * a + b * b)
    p = [xyz[pos, k] for k in range(3)]
    t = pi * (q * sc)
    env.close('angle from the view direction', dot(p, d), np.cos(t), tol=1e-7)
    env.close('x to the right', dot(p, r) * q, np.sin(t) * a, tol=1e-7)
    env.close('y up', dot(p, u) * q, np.sin(t) * b, tol=1e-7)
    env.close('unit length', np.sum(xyz * xyz, -1), [1] * (n + 1), tol=1e-7)
    if va != 360:
        # inside the circle, away from the centre
        env.assume((q <= .75) & (q > 1e-4))
        back = vm.xyz2vxy(xyz)
        env.shape('image points', back, (n + 1, 2))
        env.close('image -> ray -> image', back, m, tol=1e-6)
    o = vm.vxy2xyz(env.arr(m), stackorigin=True)
    env.shape('with origin', o, (n + 1, 6))
    env.close('origin', o[:, :3], [[0, 0, 0]] * (n + 1))
    env.close('with origin', o[:, 3:], xyz)


def ray(env, dn, va, n=0, pos=0):
    """any direction into the image and back"""
    np, pi = env.np, env.pi
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    r, u, d = axes(DIRS[dn])
    c, a, b = env.unit('c', 'a', 'b')
    env.assume((c < 1 - 1e-6) & (c > -.99))
    if va == 360:
        env.assume((c > 1e-6) | (c < -1e-6))
    p = [a * r[k] + b * u[k] + c * d[k] for k in range(3)]
    m = rows(env, p, [[.6, 0., .8], [0., .8, -.6], [-.48, .6, .64]][:n], pos)
    w = vm.xyz2vxy(env.arr(m))
    env.shape('image points', w, (n + 1, 2))
    env.observe('image point', w[pos])
    X, Y = w[pos, 0], w[pos, 1]
    v2 = 180 if va == 360 else va
    sc = env.num(v2) * factor(env, va) / 180
    back = False
    if va == 360 and c < 0:
        # second image: the opposite view, to the right of the first
        X, back = X - 1, True
    f = [-e for e in d] if back else d
    g = [-e for e in r] if back else r
    h = u
    if back and dn in ('z', '-z'):
        # up of the two polar views
        g, h, f = axes(f)
    X, Y = X - .5, Y - .5
    s = np.arccos(-c if back else c)
    env.close('distance from the centre is the angle', (X * X + Y * Y) * ((sc * pi) * (sc * pi)), s * s, tol=1e-7)
    env.le('x to the right', 0, X * dot(p, g), slack=1e-7)
    env.le('y up', 0, Y * dot(p, h), slack=1e-7)
    env.close('same azimuth', X * dot(p, h), Y * dot(p, g), tol=1e-7)
    if va == 360:
        t = vm.ivm.vxy2xyz(w - [1, 0]) if back else vm.vxy2xyz(w)
    else:
        t = vm.vxy2xyz(w)
    env.close('ray -> image -> ray', t[pos], p, tol=1e-6)


def inview(env, dn, va, form='2d', tol=None):
    """in view: closer to the view direction than half the angle the image covers"""
    np, pi = env.np, env.pi
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    r, u, d = axes(DIRS[dn])
    c, a, b = env.unit('c', 'a', 'b')
    p = [a * r[k] + b * u[k] + c * d[k] for k in range(3)]
    v2 = 180 if va == 360 else va
    lim = env.num(v2) * factor(env, va) * pi / 360
    lt = lim + (tol or 0)
    cl = np.cos(lt)
    env.assume((c > cl + 1e-6) | (c < cl - 1e-6))
    m = [list(d), p, [-e for e in d], list(r)]
    vec = env.arr(m)
    if form == 'img':
        vec = vec.reshape(2, 2, 3)
    kw = {} if tol is None else dict(tol=tol)
    k = vm.in_view(vec, indices=False, **kw)
    env.shape('mask', k, (4,))
    if c > cl:
        env.check('inside', k[1])
    else:
        env.check('outside', k[1] == False)      # noqa
    env.check('view direction', k[0])
    env.check('opposite', k[2] == False)         # noqa
    i = vm.in_view(vec, **kw)
    at = [q for q in range(4) if bool(k[q])]
    if form == 'img':
        env.check('indices', len(i) == 2)
        env.same('indices are the mask', i[0] * 2 + i[1], at)
    else:
        env.check('indices', len(i) == 1)
        env.same('indices are the mask', i[0], at)


def pixel(env, dn, va, res, rform='int'):
    """pixel coordinates: floor of the image point times the resolution"""
    np = env.np
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    x, y = env.real('x', 0, 7), env.real('y', 0, 7)
    rx = res if isinstance(res, int) else res[0]
    ry = res if isinstance(res, int) else res[1]
    env.assume((x < rx) & (y < ry))
    for k in range(0, 8):
        for t in (x, y):
            env.assume((t > k + 1e-6) | (t < k - 1e-6))
    ray = vm.pixel2ray(env.arr([[x, y], [.5, 1.5]]), res)
    env.close('scaled image point', ray, vm.vxy2xyz(env.arr([[x / rx, y / ry], [.5 / rx, 1.5 / ry]])))
    back = vm.ray2pixel(ray, res, integer=False)
    env.close('pixel -> ray -> pixel', back, [[x, y], [.5, 1.5]], tol=1e-6)
    p = vm.ray2pixel(ray, res)
    for k, t in ((0, x), (1, y)):
        env.le('pixel contains the point', p[0, k], t, slack=1e-7)
        env.le('pixel contains the point', t, p[0, k] + 1, slack=1e-7)
    env.same('integer', p[1], [0, 1])


def rays(env, dn, va, res):
    """the rays of all pixels; every pixel finds itself"""
    np = env.np
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    j = env.real('unused', 0, 1)
    env.same('frame', vm.framesize(res), (res, res))
    p = vm.pixels(res)
    env.shape('pixels', p, (res, res, 2))
    env.close('pixel centres', p, [[[i + .5, k + .5] for k in range(res)] for i in range(res)])
    r = vm.pixelrays(res)
    env.shape('rays', r, (res * (2 if va == 360 else 1), res, 3))
    a = vm.vxy2xyz(p / res)
    env.close('front', r[:res], a, tol=1e-7)
    if va == 360:
        b = vm.ivm.vxy2xyz(p / res)
        env.close('back', r[res:], b, tol=1e-7)
        env.close('the two halves face away', vm.ivm.dxyz, -vm.dxyz)
    q = vm.ray2pixel(r[:res].reshape(-1, 3), res)
    c = p.reshape(-1, 2) / res - .5
    for k in range(res * res):
        if va != 360 or float(c[k, 0]) ** 2 + float(c[k, 1]) ** 2 < .2499:
            env.same('every pixel finds itself', q[k], [k // res, k % res])


def omega(env, dn, va, res, row=0, axis=0):
    """solid angle of a pixel: parallelogram of the rays half a pixel around it"""
    np = env.np
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    x = env.real('x', .5, 6.5)
    env.assume((x < res) & ((x - res / 2 > .51) | ((x - res / 2 < .49) & (x - res / 2 > .01))))
    y = env.num(res) / 2 + row
    if axis:
        x, y = y, x
    o = vm.pixel2omega(env.arr([[x, y], [1.5, 2.5]]), res)
    env.shape('one per pixel', o, (2,))
    e = vm.vxy2xyz(env.arr([[x - .5, y], [x + .5, y], [x, y - .5], [x, y + .5]]) / res)
    a, b = e[1] - e[0], e[3] - e[2]
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    env.close('area', o[0] * o[0], c[0] * c[0] + c[1] * c[1] + c[2] * c[2], tol=1e-9)
    env.le('positive', 0, o)


def omegas(env, dn, va, res):
    """solid angles of all pixels of an image"""
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    p = vm.pixels(res).reshape(-1, 2)
    s = env.real('unused', 0, 1)
    o = vm.pixel2omega(p, res)
    env.shape('one per pixel', o, (res * res,))
    e = [vm.vxy2xyz((p + env.arr([k])) / res) for k in ([.5, 0], [-.5, 0], [0, .5], [0, -.5])]
    a, b = e[0] - e[1], e[2] - e[3]
    c = [a[:, 1] * b[:, 2] - a[:, 2] * b[:, 1], a[:, 2] * b[:, 0] - a[:, 0] * b[:, 2], a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]]
    env.close('area', o * o, c[0] * c[0] + c[1] * c[1] + c[2] * c[2], tol=1e-9)
    env.le('positive', [0] * (res * res), o)


def tasks(tier):
    ts = []
    for dn in DIRS:
        for va in (60, 90, 120, 180, 360):
            if va in (180, 360) or dn in ('y', 'b') or tier == 'thorough':
                ts.append(Task(f'law{dn}-{va}', law, dn=dn, va=va))
                ts.append(Task(f'ray{dn}-{va}', ray, dn=dn, va=va))
                ts.append(Task(f'inview{dn}-{va}', inview, dn=dn, va=va))
    ts += [Task('law-list', law, dn='y', va=180, form='list'), Task('law-flat', law, dn='z', va=180, form='flat'),
           Task('law-rows', law, dn='y', va=180, n=20, pos=15), Task('law-img', law, dn='y', va=180, n=3, pos=2, form='img'),
           Task('ray-rows', ray, dn='y', va=180, n=3, pos=1), Task('ray-rows-360', ray, dn='y', va=360, n=3, pos=1)]
    for va in (90, 180, 360):
        ts += [Task(f'inview-img-{va}', inview, dn='y', va=va, form='img'),
               Task(f'inview-tol-{va}', inview, dn='y', va=va, tol=.125),
               Task(f'rays-{va}', rays, dn='y', va=va, res=5, mode='float'), Task(f'raysb-{va}', rays, dn='b', va=va, res=4, mode='float')]
    ts += [Task('pixel-180', pixel, dn='y', va=180, res=3), Task('pixel-90', pixel, dn='y', va=90, res=3),
           Task('pixel-tuple', pixel, dn='y', va=180, res=(4, 3))]
    ts += [Task('omega-line', omega, dn='b', va=90, res=7, axis=1)]
    for va, dn, res in ((180, 'y', 4), (60, 'z', 5), (360, 'b', 3)):
        ts.append(Task(f'omega-{va}{dn}', omegas, dn=dn, va=va, res=res, mode='float'))
    return ts
