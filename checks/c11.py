"""C11: the planar mapper"""
from symx.api import Task

FUNCTIONS = ['raytools.mapper.Mapper.xyz2uv', 'raytools.mapper.Mapper.uv2xyz', 'raytools.mapper.Mapper.view2world',
             'raytools.mapper.Mapper.world2view', 'raytools.mapper.Mapper.idx2uv', 'raytools.mapper.Mapper.uv2idx',
             'raytools.mapper.Mapper.vxy2xyz', 'raytools.mapper.Mapper.xyz2vxy', 'raytools.mapper.Mapper.framesize',
             'raytools.mapper.Mapper.pixels', 'raytools.mapper.Mapper.pixelrays', 'raytools.mapper.Mapper.ray2pixel',
             'raytools.mapper.Mapper.pixel2ray', 'raytools.mapper.Mapper.pixel2omega', 'raytools.mapper.Mapper.in_view',
             'raytools.mapper.Mapper.init_img', 'raytools.mapper.Mapper.add_vecs_to_img', 'raytools.mapper.Mapper.aspect']
BOUNDS = ('every bounding box with corner in [-5, 5] and extent in [0.5, 4] (scale factor = extent), every point with '
          'coordinates in [-20, 20], alone and among 3 other rows; resolutions 3 to 6, aspects 0.5, 1, 2; every '
          'jitter draw')
OUTSIDE = 'floating-point rounding at pixel limits; larger images'


def make(env, uvz=0., dxyz=None):
    sx, sy = env.real('sx', .5, 4), env.real('sy', .5, 4)
    bx, by = env.real('bx', -5, 5), env.real('by', -5, 5)
    kw = {} if dxyz is None else dict(dxyz=dxyz)
    vm = env.m('mapper').Mapper(sf=env.arr([sx, sy]), bbox=env.arr([[bx, by], [bx + sx, by + sy]]), uvz=uvz,
                                origin=(7., 8., 9.), **kw)
    return vm, sx, sy, bx, by


CONC = [[.25, .5], [.9, .1], [.3, .75]]


def uv(env, n=0, pos=0, dxyz=None):
    np = env.np
    z = env.real('z', -3, 3)
    vm, sx, sy, bx, by = make(env, z, dxyz)
    env.close('aspect', vm.aspect * sy, sx)
    env.close('area', vm.area, sx * sy)
    m = [list(r) for r in CONC[:n]]
    m.insert(pos, [env.real('u', -3, 3), env.real('v', -3, 3)])
    xyz = vm.uv2xyz(env.arr(m))
    env.shape('xyz', xyz, (n + 1, 3))
    env.close('uv -> xyz', xyz, [[bx + r[0] * sx, by + r[1] * sy, z] for r in m])
    env.close('uv -> xyz -> uv', vm.xyz2uv(xyz), m)
    o = vm.uv2xyz(env.arr(m), stackorigin=True)
    env.shape('with origin', o, (n + 1, 6))
    env.close('origin', o[:, :3], [[7, 8, 9]] * (n + 1))
    env.close('with origin', o[:, 3:], xyz)
    p = [env.real('x', -20, 20), env.real('y', -20, 20), z]
    w = vm.xyz2uv(env.arr([p, [1., 2., 3.]]))
    env.shape('uv', w, (2, 2))
    env.close('xyz -> uv', [w[0, 0] * sx, w[0, 1] * sy], [p[0] - bx, p[1] - by])
    env.close('xyz -> uv -> xyz', vm.uv2xyz(w)[0], p)
    env.close('image shape', vm.xyz2uv(env.arr([[p, [1., 2., 3.]]])), w)
    env.close('world2view', vm.world2view(env.arr([p])), [p])
    env.close('view2world', vm.view2world(env.arr([p])), [p])


def pixel(env, res, aspect=None, xonly=False):
    """pixel -> ray -> pixel; rays of the pixels; scaling by the frame"""
    np = env.np
    vm, sx, sy, bx, by = make(env)
    if aspect is not None:
        vm.aspect = aspect
        xr, yr = (res, int(round(res / aspect))) if aspect >= 1 else (int(round(res * aspect)), res)
        env.same('frame', vm.framesize(res), (xr, yr))
        rr = res
    else:
        rr, (xr, yr) = res, res
    px, py = env.real('px', 0, 8), env.real('py', 0, 8)
    env.assume((px <= xr) & (py <= yr))
    p = [[px, py], [.5, 1.5], [1.25, 2.]]
    ray = vm.pixel2ray(env.arr(p), rr)
    env.shape('rays', ray, (3, 3))
    back = vm.ray2pixel(ray, rr, integer=False)
    env.shape('pixels', back, (3, 2))
    if xonly:
        return env.close('x recovered', back[:, 0], [r[0] for r in p])
    for k in range(3):
        env.close('y recovered', back[k, 1], p[k][1])
        a, b = back[k, 0] - p[k][0], back[k, 0] + p[k][0] - xr
        env.close('x recovered or mirrored', a * b, 0)
        env.close('ray in the plane', ray[k, 2], 0)
        env.close('y is proportional', (ray[k, 1] - by) * yr, sy * p[k][1])


def rays(env, res, aspect):
    """all pixels of a frame"""
    np = env.np
    vm, sx, sy, bx, by = make(env)
    vm.aspect = 1
    env.same('frame', vm.framesize(res), (res, res))
    vm.aspect = aspect
    xr, yr = (res, int(round(res / aspect))) if aspect >= 1 else (int(round(res * aspect)), res)
    env.same('frame after a change of the aspect', vm.framesize(res), (xr, yr))
    p = vm.pixels(res)
    env.shape('pixels', p, (xr, yr, 2))
    env.close('pixel centres', p, [[[i + .5, j + .5] for j in range(yr)] for i in range(xr)])
    r = vm.pixelrays(res)
    env.close('rays of the pixel centres', r.reshape(-1, 3), vm.pixel2ray(p, res).reshape(-1, 3))
    om = vm.pixel2omega(p.reshape(-1, 2), res)
    env.shape('areas', om, (xr * yr,))
    env.close('areas add up', sum(om), vm.area)
    env.close('areas are equal', om, [om[0]] * (xr * yr))


def jitter(env, res, j):
    np = env.np
    vm = env.m('mapper').Mapper()
    env.patch_rng('mapper.mapper')
    p = vm.pixels(res, jitter=j)
    env.shape('pixels', p, (res, res, 2))
    for i in range(res):
        for k in range(res):
            for a, c in ((p[i, k, 0], i + .5), (p[i, k, 1], k + .5)):
                env.le('within the jitter', a - c, j / 2)
                env.le('within the jitter', c - a, j / 2)


def idx(env, shape, jit, rate=1.0, view=False):
    np = env.np
    cls = env.m('mapper').ViewMapper if view else env.m('mapper').Mapper
    vm = cls(jitterrate=rate)
    env.patch_rng('mapper.mapper')
    n = shape[0] * shape[1]
    uv = vm.idx2uv(np.arange(n), shape, jitter=jit)
    env.shape('uv', uv, (n, 2))
    sc = (shape[1], shape[1]) if view else shape
    h = rate / 2 if jit else 0
    for k in range(n):
        for c, i in ((0, k // shape[1]), (1, k % shape[1])):
            env.le('inside the cell', uv[k, c] * sc[c], i + .5 + h)
            env.le('inside the cell', i + .5 - h, uv[k, c] * sc[c])
    env.same('idx -> uv -> idx', vm.uv2idx(uv, shape), np.arange(n))


def frame(env, res, own=False):
    """the longer side has the resolution, the other is the nearest whole number"""
    lo, hi = env.choice('side', [(.2, 1.), (1., 6.)])
    a = env.real('wide' if hi > 1 else 'high', lo, hi)
    if own:
        vm = env.m('mapper').Mapper(bbox=env.arr([[0., 0.], [a, 1.]]), sf=env.arr([a, 1.]))
    else:
        vm = env.m('mapper').Mapper(aspect=a)
    xr, yr = vm.framesize(res)
    if lo < 1:
        env.assume(a < 1)
        env.check('y is the resolution', yr == res)
        env.le('x is the nearest', xr - res * a, .5, slack=1e-9)
        env.le('x is the nearest', res * a - xr, .5, slack=1e-9)
    else:
        env.check('x is the resolution', xr == res)
        env.le('y is the nearest', yr * a - res, .5 * a, slack=1e-9)
        env.le('y is the nearest', res - yr * a, .5 * a, slack=1e-9)


def cell(env, shape, view=False):
    """every point of a cell (with its lower edges) has the index of the cell"""
    np = env.np
    cls = env.m('mapper').ViewMapper if view else env.m('mapper').Mapper
    i, j = env.choice('i', list(range(shape[0]))), env.choice('j', list(range(shape[1])))
    u, v = env.real('u', 0, 1), env.real('v', 0, 1)
    env.assume((u < 1) & (v < 1))
    sc = (shape[1], shape[1]) if view else shape
    uv = env.arr([[(i + u) / sc[0], (j + v) / sc[1]]])
    env.same('index of the cell', cls.uv2idx(uv, shape), [i * shape[1] + j])


def view(env, form):
    vm, sx, sy, bx, by = make(env)
    p = [env.real('x', -20, 20), env.real('y', -20, 20), env.real('z', -2, 2)]
    u, v = p[0] - bx, p[1] - by
    for a, s in ((u, sx), (v, sy)):
        for e in (a, a - s):
            env.assume((e > 1e-6) | (e < -1e-6))
    vec = env.arr([[bx + sx / 2, by + sy / 2, 1.], p, [bx - sx, by, 0.]])
    m = vm.in_view(vec, indices=False)
    env.shape('mask', m, (3,))
    inside = (u >= 0) & (u <= sx) & (v >= 0) & (v <= sy)
    if bool(m[1]):
        env.check('in view', inside)
    else:
        env.check('out of view', (u < 0) | (u > sx) | (v < 0) | (v > sy))
    env.same('others', [m[0], m[2]], [True, False])
    i = vm.in_view(vec)
    env.same('indices are the mask', i[0], [k for k in range(3) if bool(m[k])])


def add(env, nd, grow):
    """vectors mark their pixel"""
    np = env.np
    vm = env.m('mapper').Mapper(sf=(2., 2.), bbox=((0., 0.), (2., 2.)))
    res = 4
    shp = (res, res) if nd == 2 else (3, res, res)
    x, y = env.real('x', -1, 3), env.real('y', -1, 3)
    img = vm.add_vecs_to_img(np.zeros(shp), env.arr([[x, y, 0.], [5., 5., 0.], [1.25, .25, 0.]]),
                             channels=(2., 3., 4.), grow=grow)
    env.shape('image', img, shp)
    px, py = [int(v) for v in np.floor(env.arr([x * 2, y * 2]))]
    marks = {(2, 0)} | ({(px, py)} if 0 <= px < res and 0 <= py < res else set())

    def lit(i, j):
        if not grow:
            return 1. * ((i, j) in marks)
        r = grow
        t = 0
        for a in range(i - r, i + r + 1):
            for b in range(j - r, j + r + 1):
                # the filter reflects at the edges
                c = a if 0 <= a < res else (-a - 1 if a < 0 else 2 * res - 1 - a)
                d = b if 0 <= b < res else (-b - 1 if b < 0 else 2 * res - 1 - b)
                t += (c, d) in marks
        return 1. * t
    exp = [[lit(i, j) for j in range(res)] for i in range(res)]
    if nd == 2:
        env.close('marked pixels', img, [[2 * v for v in r] for r in exp])
    else:
        env.close('marked pixels', img, [[[k * v for v in r] for r in exp] for k in (2, 3, 4)])


def init(env, res):
    np = env.np
    vm = env.m('mapper').Mapper(sf=(2., 1.), bbox=((1., 1.), (3., 2.)))
    img, vecs, mask, mask2, header = vm.init_img(res)
    env.shape('image', img, (res, res // 2))
    env.close('zero', img, np.zeros((res, res // 2)))
    v = vecs.reshape(-1, 3)
    env.same('all pixels are in view', mask[0], np.arange(res * res // 2))
    env.check('header', header == 'VIEW= -vtl -vv 1 -vh 1')
    env.le('inside the box', [1, 1], v[:, :2])
    env.le('inside the box', v[:, :2], [3, 2])


def tasks(tier):
    ts = [Task('uv', uv), Task('uv-dir', uv, dxyz=(1., 0., 0.)), Task('uv-rows', uv, mode='float', n=3, pos=2),
          Task('pixel', pixel, res=(4, 4)), Task('pixel-x', pixel, res=(4, 4), xonly=True), Task('pixel-frame', pixel, res=(6, 4)), Task('pixel-aspect', pixel, res=6, aspect=2),
          Task('pixel-aspect-half', pixel, res=6, aspect=.5),
          Task('rays-1', rays, mode='float', res=4, aspect=1), Task('rays-2', rays, mode='float', res=6, aspect=2),
          Task('rays-half', rays, mode='float', res=6, aspect=.5),
          Task('jitter', jitter, mode='float', res=3, j=.5), Task('jitter-full', jitter, mode='float', res=2, j=1.),
          Task('view', view, mode='float', form='2d'), Task('init', init, mode='float', res=6)]
    for nd in (2, 3):
        for g in (0, 1):
            if nd == 2 or not g:
                ts.append(Task(f'add-{nd}-{g}', add, mode='float', nd=nd, grow=g))
    for sh in ((3, 4), (4, 2)):
        for j, r in ((False, 1.), (True, .5), (True, .98)):
            ts.append(Task(f'idx-{sh[0]}x{sh[1]}-{j}-{r}', idx, mode='float', shape=sh, jit=j, rate=r))
    for j, r in ((False, .5), (True, .5), (True, .98)):
        ts.append(Task(f'idx-view-{j}-{r}', idx, mode='float', shape=(6, 3), jit=j, rate=r, view=True))
    for r in (7, 23):
        ts += [Task(f'frame-{r}', frame, res=r), Task(f'frame-own-{r}', frame, res=r, own=True)]
    for sh in ((2, 3), (4, 2)):
        ts.append(Task(f'cell-{sh[0]}x{sh[1]}', cell, shape=sh))
    ts.append(Task('cell-view', cell, shape=(4, 2), view=True))
    ts.append(Task('cell-view-square', cell, shape=(3, 3), view=True))
    for j in (False, True):
        ts.append(Task(f'idx-view-tall-{j}', idx, mode='float', shape=(6, 2), jit=j, rate=.5, view=True))
        ts.append(Task(f'idx-view-square-{j}', idx, mode='float', shape=(3, 3), jit=j, rate=.5, view=True))
    return ts
