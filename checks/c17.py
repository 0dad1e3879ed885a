"""C17: rotating and centering fisheye images"""
import math
from symx.api import Task
from checks.util import dot
from checks.c12 import DIRS, axes
from checks.c16 import pixel_rays, position, image, sample, compare

FUNCTIONS = ['raytools.imagetools.array_rotate', 'raytools.translate.rotate_elem', 'raytools.translate.rmtx_elem',
             'raytools.translate.rmtx_yp', 'raytools.mapper.AngularMixin.init_img', 'raytools.mapper.AngularMixin.xyz2vxy',
             'raytools.mapper.Mapper.pixel2ray', 'raytools.mapper.Mapper.view2world', 'raytools.mapper.Mapper.world2view']
BOUNDS = ('every angle in [-360, 360] degrees for images of 2x2 and in [-180, 180] of 3x3 fixed pixels; every pixel value in [-100, 100] for '
          'images up to 6x6 with fixed angles and centres; one or three channels, linear and nearest, with and without fill '
          'value')
OUTSIDE = ('floating-point rounding; larger images; angles for which a pixel centre falls within 1e-5 of a line of pixel '
           'centres (fill value) or of a pixel border (nearest)')


def turned(p, ang):
    """about the view direction +y, z towards x"""
    t = ang * math.pi / 180
    x, y, z = p
    return [x * math.cos(t) + z * math.sin(t), y, -x * math.sin(t) + z * math.cos(t)]


def frame(p, c, inv=False):
    """components along right, forward, up of the default view placed along those of the direction c"""
    r, u, d = axes(c)
    if inv:
        return [dot(p, r), dot(p, d), dot(p, u)]
    return [p[0] * r[k] + p[1] * d[k] + p[2] * u[k] for k in range(3)]


def ray_at(x, y, res):
    a, b = x / res * 2 - 1, y / res * 2 - 1
    q = math.hypot(a, b)
    t = q * math.pi / 2
    s = math.sin(t) / q if q > 0 else 0
    return [a * s, math.cos(t), b * s]


def value(im, p, res, nearest, fill):
    x, y, t = position('y', 180, p)
    lim = 1 - 1 / res
    if fill is not None:
        if min(abs(abs(x) - lim), abs(abs(y) - lim)) < 1e-6:
            return None
        if max(abs(x), abs(y)) > lim:
            return fill
    return sample(im, x, y, res, nearest)


def fixed(env, res, ang=0., center=None, nd=2, nearest=False, fill=None, first=True, cform='tuple'):
    """every image, given angle and centre"""
    it = env.m('imagetools')
    shp = (res, res) if nd == 2 else (3, res, res)
    im = image(env, shp)
    kw = {}
    if center is not None:
        kw['center'] = center if cform == 'tuple' else list(center)
    if not first:
        kw['rotate_first'] = False
    if nearest:
        kw['nearest'] = True
    if fill is not None:
        kw['fill_value'] = fill
    out = it.array_rotate(env.arr(im), ang, **kw)
    rays = pixel_rays('y', 180, res)
    ims = [im] if nd == 2 else im

    def look(p):
        if center is None:
            return p
        if len(center) == 2:
            return frame(p, ray_at(*center, res))
        return frame(frame(p, ray_at(*center[2:], res), inv=True), ray_at(*center[:2], res))
    if first or ang == 0:
        def exp(c, i, j):
            return value(ims[c], look(turned(rays[i * res + j], ang)), res, nearest, fill)
    else:
        mid = [[[value(m, look(rays[i * res + j]), res, nearest, fill) for j in range(res)] for i in range(res)] for m in ims]

        def exp(c, i, j):
            if any(e is None for r in mid[c] for e in r):
                return None
            return value(mid[c], turned(rays[i * res + j], ang), res, nearest, fill)
    compare(env, 'pixels', out, exp, shp)


def any_angle(env, res, nearest=False, fill=None, nd=2, lo=-360, hi=360):
    """every angle: pixels are looked up on circles about the centre"""
    np, pi = env.np, env.pi
    it = env.m('imagetools')
    t = env.real('angle', lo, hi)
    shp = (res, res) if nd == 2 else (3, res, res)
    ims = [[[float((3 * i + 5 * j + 2 * i * j + 7 * c) % 11) for j in range(res)] for i in range(res)] for c in range(1 if nd == 2 else 3)]
    s, c = np.sin(t * pi / 180), np.cos(t * pi / 180)
    pos = {}
    for i in range(res):
        for j in range(res):
            a, b = env.num(i) + .5 - res / 2, env.num(j) + .5 - res / 2
            x, y = a * c + b * s + (res - 1) / 2, b * c - a * s + (res - 1) / 2
            pos[i, j] = x, y
            for v in (x, y):
                if nearest:
                    for k in range(-1, res):
                        env.assume((v > k + .5 + 1e-5) | (v < k + .5 - 1e-5))
                if fill is not None:
                    for k in (0, res - 1):
                        env.assume((v > k + 1e-5) | (v < k - 1e-5))
    kw = {}
    if nearest:
        kw['nearest'] = True
    if fill is not None:
        kw['fill_value'] = fill
    out = it.array_rotate(env.arr(ims[0] if nd == 2 else ims), t, **kw)
    env.shape('image', out, shp)
    flat = out.reshape(-1, res, res)
    env.observe('corner', flat[0, 0, 0])
    for (i, j), (x, y) in pos.items():
        cell, off = [], False
        for v in (x, y):
            k = 0
            while k < res - 2 and bool(v >= k + 1):
                k += 1
            cell.append((k, v - k))
            if fill is not None and (bool(v < 0) or bool(v > res - 1)):
                off = True
        (a, f), (b, g) = cell
        for ch, im in enumerate(ims):
            if off:
                e = fill
            elif nearest:
                e = im[a + int(bool(f > .5))][b + int(bool(g > .5))]
            else:
                e = (im[a][b] * ((1 - f) * (1 - g)) + im[a + 1][b] * (f * (1 - g)) + im[a][b + 1] * ((1 - f) * g)
                     + im[a + 1][b + 1] * (f * g))
            env.close('pixel', flat[ch, i, j], e, tol=1e-6)


def quarter(env, res, nd, k, nearest, first):
    """quarter turns permute the pixels"""
    it = env.m('imagetools')
    shp = (res, res) if nd == 2 else (3, res, res)
    im = image(env, shp)
    out = it.array_rotate(env.arr(im), 90. * k, nearest=nearest, rotate_first=first)
    ims = [im] if nd == 2 else im

    def exp(c, i, j):
        for _ in range(k % 4):
            # right of the centre is looked up below it
            i, j = j, res - 1 - i
        return ims[c][i][j]
    compare(env, 'pixels', out, exp, shp)


def tasks(tier):
    f = dict(mode='float')
    ts = []
    ts += [Task('angle-2', any_angle, res=2), Task('angle-nearest-2', any_angle, res=2, nearest=True),
           Task('angle-fill-2', any_angle, res=2, fill=-1.)]
    for lo in (-180, -90, 0, 90):
        ts += [Task(f'angle-3-{lo}', any_angle, res=3, lo=lo, hi=lo + 90, budget=120),
               Task(f'angle-nearest-3-{lo}', any_angle, res=3, nearest=True, lo=lo, hi=lo + 90, budget=120),
               Task(f'angle-fill-3-{lo}', any_angle, res=3, fill=-1., lo=lo, hi=lo + 90, budget=120)]
    ts += [Task('angle-3d', any_angle, res=2, nd=3)]
    if tier == 'thorough':
        ts += [Task('angle-4', any_angle, res=4, lo=0, hi=90, budget=900), Task('angle-4-nearest', any_angle, res=4, lo=0, hi=90, nearest=True, budget=900)]
    for n, (res, ang, center, first) in enumerate([
            (4, 30., None, True), (5, -75., None, True), (6, 200., None, False), (4, 0., (2.5, 1.25), True),
            (5, 0., (1.5, 3.5), False), (4, 40., (2.5, 1.25), True), (4, 40., (2.5, 1.25), False),
            (5, 0., (1.5, 3.5, 2.5, 2.75), True), (4, -20., (1.25, 1.5, 2.5, 3.), True), (4, 15., (1.25, 1.5, 2.5, 3.), False),
            (6, 0., (4.5, 3.), True)]):
        for near in (False, True):
            for fill in (None, 7., 0.):
                ts.append(Task(f'fixed-{n}-{near}-{fill}', fixed, res=res, ang=ang, center=center, first=first, nearest=near, fill=fill, **f))
    for n, (ang, center) in enumerate([(50., None), (0., (1.25, 2.)), (25., (1.25, 2.)), (0., (1.25, 2., 1., 1.))]):
        ts.append(Task(f'fixed3d-{n}', fixed, res=3, ang=ang, center=center, nd=3, **f))
        ts.append(Task(f'fixed3d-fill-{n}', fixed, res=3, ang=ang, center=center, nd=3, nearest=True, fill=2., first=False, **f))
    ts += [Task('center-list', fixed, res=4, center=(2.5, 1.25), cform='list', **f)]
    for k in (1, 2, 3, 4, -1):
        ts.append(Task(f'quarter-{k}', quarter, res=4 if k % 2 else 5, nd=2, k=k, nearest=k == 2, first=k != 3, **f))
    ts.append(Task('quarter-3d', quarter, res=3, nd=3, k=1, nearest=False, first=True, **f))
    return ts
