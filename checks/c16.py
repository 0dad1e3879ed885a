"""C16: conversion of images between projections"""
import math
from symx.api import Task
from checks.util import dot
from checks.c12 import DIRS, axes

FUNCTIONS = ['raytools.mapper.ViewMapper.transform_to', 'raytools.imagetools.array_solid2ang',
             'raytools.imagetools.array_uv2ang', 'raytools.imagetools.array_ang2uv',
             'raytools.mapper.AngularMixin.pixelrays', 'raytools.mapper.AngularMixin.in_view',
             'raytools.mapper.AngularMixin.xyz2vxy', 'raytools.mapper.AngularMixin.vxy2xyz',
             'raytools.mapper.SolidViewMapper.xyz2vxy', 'raytools.mapper.SolidViewMapper.vxy2xyz',
             'raytools.mapper.Mapper.ray2pixel', 'raytools.translate.uv2ij', 'raytools.translate.bin2uv']
BOUNDS = ('every pixel value in [-100, 100] of images of 2x2 to 6x6 pixels (4x2, 6x3, 8x4 for two squares), one or three '
          'channels, view angles 90, 120 and 180 and pairs of 4 view directions, linear and nearest')
OUTSIDE = ('floating-point rounding; larger images; pixels whose ray falls within 1e-6 of a pixel border (nearest) or of '
           'the edge of the view')


def scale(va):
    """half of the covered angle"""
    t = va * math.pi / 360
    return t * (2 * math.sin(math.pi / 4) / (math.pi / 2)) / (2 * math.sin(t / 2) / t)


def pixel_rays(dn, va, res):
    r, u, d = axes(DIRS[dn])
    h = scale(va)
    out = []
    for i in range(res):
        for j in range(res):
            a, b = (i + .5) / res * 2 - 1, (j + .5) / res * 2 - 1
            q = math.hypot(a, b)
            t = q * h
            s = math.sin(t) / q if q > 0 else 0
            out.append([a * s * r[k] + b * s * u[k] + math.cos(t) * d[k] for k in range(3)])
    return out


def position(dn, va, p):
    """image point in [-1, 1]^2 and angle relative to the edge"""
    r, u, d = axes(DIRS[dn])
    x, y, z = dot(p, r), dot(p, u), dot(p, d)
    q = math.hypot(x, y)
    t = math.atan2(q, z) / scale(va)
    return (x / q * t, y / q * t, t) if q > 1e-12 else (0., 0., t)


def sample(im, x, y, res, nearest):
    """bilinear between pixel centres, extended linearly beyond the outer ones; None on a border"""
    c = []
    for v in ((x + 1) / 2 * res - .5, (y + 1) / 2 * res - .5):
        i = min(max(math.floor(v), 0), res - 2)
        c.append((i, v - i))
    (i, f), (j, g) = c
    if nearest:
        if abs(f - .5) < 1e-6 or abs(g - .5) < 1e-6:
            return None
        return im[i + (f > .5)][j + (g > .5)]
    return (im[i][j] * ((1 - f) * (1 - g)) + im[i + 1][j] * (f * (1 - g)) + im[i][j + 1] * ((1 - f) * g)
            + im[i + 1][j + 1] * (f * g))


def image(env, shp):
    if len(shp) == 3:
        return [[[env.real(f'p{c}{i}_{j}', -100, 100) for j in range(shp[2])] for i in range(shp[1])] for c in range(shp[0])]
    return [[env.real(f'p{i}_{j}', -100, 100) for j in range(shp[1])] for i in range(shp[0])]


def compare(env, label, out, exp, shp, tol=1e-6):
    env.shape(label, out, shp)
    flat = out.reshape(-1, shp[-2], shp[-1])
    for c in range(flat.shape[0]):
        got, want = [], []
        for i in range(shp[-2]):
            for j in range(shp[-1]):
                e = exp(c, i, j)
                if e is not None:
                    got.append(flat[c, i, j])
                    want.append(e)
        env.close(label, env.arr(got), want, tol=tol)


def transform(env, src, dst, res, nd=2, nearest=False):
    """a pixel of the frame of dst shows what the image of src shows in its direction"""
    m = env.m('mapper')
    shp = (res, res) if nd == 2 else (3, res, res)
    im = image(env, shp)
    out = m.ViewMapper(DIRS[dst[0]], dst[1]).transform_to(env.arr(im), m.ViewMapper(DIRS[src[0]], src[1]), nearest=nearest)
    rays = pixel_rays(*dst, res)
    ims = [im] if nd == 2 else im

    def exp(c, i, j):
        x, y, t = position(*src, rays[i * res + j])
        if abs(t - 1) < 1e-6:
            return None
        return sample(ims[c], x, y, res, nearest) if t < 1 else 0
    compare(env, 'pixels', out, exp, shp)


def solid(env, res, nd=2, nearest=False, reverse=False, va=180, returnvm=False, default=False):
    """equisolid to equiangular: radius r of the angle t is sin(t / 2) / sin(45 deg)"""
    it = env.m('imagetools')
    shp = (res, res) if nd == 2 else (3, res, res)
    im = image(env, shp)
    kw = {} if default else dict(nearest=nearest, reverse=reverse, viewangle=va)
    out = it.array_solid2ang(env.arr(im), **(dict(kw, returnvm=False) if not returnvm else kw))
    if returnvm:
        out, vm = out
        env.check('mapper of the result', isinstance(vm, env.m('mapper').SolidViewMapper) == bool(reverse))
        env.check('name', vm.name == ('vts' if reverse else 'vta'))
        env.close('view angle', vm.viewangle, va)
    h = va * math.pi / 360
    ims = [im] if nd == 2 else im

    def exp(c, i, j):
        a, b = (i + .5) / res * 2 - 1, (j + .5) / res * 2 - 1
        q = math.hypot(a, b)
        if q < 1e-9:
            return sample(ims[c], 0., 0., res, nearest)
        t = q * h                   # angle in radians
        if reverse:
            if t * math.sqrt(2) / math.pi >= 1:
                return 0
            s = 2 * math.asin(t * math.sqrt(2) / math.pi)
            edge = scale(va) / h * t / scale(va)
        else:
            s = math.pi / math.sqrt(2) * math.sin(t / 2)
            edge = s / h
        if abs(edge - 1) < 1e-6:
            return None
        if edge > 1:
            return 0
        return sample(ims[c], a / q * s / h, b / q * s / h, res, nearest)
    compare(env, 'pixels', out, exp, shp, tol=1e-5)


def uv2ang(env, res, asp=1, nd=2):
    """a pixel of the fisheye image shows the bin of its direction"""
    it, m = env.m('imagetools'), env.m('mapper')
    shp = (res * asp, res) if nd == 2 else (3, res * asp, res)
    im = image(env, shp)
    out = it.array_uv2ang(env.arr(im))
    vm = m.ViewMapper(viewangle=180 * asp)
    rays = pixel_rays('y', 180, res)
    if asp == 2:
        # the back half: seen from the opposite direction
        r, u, d = axes((0., -1., 0.))
        for i in range(res):
            for j in range(res):
                x, y, z = rays[i * res + j]
                rays.append([-x, -y, z])
    uv = vm.xyz2uv(env.arr(rays))
    ims = [im] if nd == 2 else im

    def exp(c, i, j):
        p = rays[i * res + j]
        cs = p[1] if i < res else -p[1]
        if abs(cs) < 1e-6:
            return None
        if cs < 0:
            return 0
        u, v = float(uv[i * res + j, 0]) * res, float(uv[i * res + j, 1]) * res
        if min(abs(u - round(u)), abs(v - round(v))) < 1e-6:
            return None
        return ims[c][int(u)][int(v)]
    compare(env, 'pixels', out, exp, shp)


def ang2uv(env, res, view=None, nd=2):
    """a bin of the square shows the fisheye pixel of its direction"""
    it, m = env.m('imagetools'), env.m('mapper')
    shp = (res, res) if nd == 2 else (3, res, res)
    im = image(env, shp)
    dn, va = view or ('y', 180)
    vm = m.ViewMapper(DIRS[dn], va)
    out = it.array_ang2uv(env.arr(im)) if view is None else it.array_ang2uv(env.arr(im), vm)
    xyz = vm.uv2xyz(env.arr([[(i + .5) / res, (j + .5) / res] for i in range(res) for j in range(res)]))
    ims = [im] if nd == 2 else im

    def exp(c, i, j):
        x, y, t = position(dn, va, [float(xyz[i * res + j, k]) for k in range(3)])
        x, y = (x + 1) / 2 * res, (y + 1) / 2 * res
        if min(abs(x - round(x)), abs(y - round(y))) < 1e-6:
            return None
        return ims[c][int(x)][int(y)]
    compare(env, 'pixels', out, exp, shp)


def tasks(tier):
    ts = []
    k = dict(mode='float')
    views = [(('y', 180), ('y', 180)), (('y', 180), ('y', 120)), (('y', 90), ('y', 180)), (('y', 180), ('b', 180)),
             (('b', 120), ('a', 180)), (('z', 180), ('y', 180)), (('y', 180), ('z', 120)), (('a', 180), ('b', 90))]
    for n, (s, d) in enumerate(views):
        for near in (False, True):
            ts.append(Task(f'transform-{n}-{"nearest" if near else "linear"}', transform, src=s, dst=d, res=5 if n % 2 else 4, nearest=near, **k))
    ts += [Task('transform-3d', transform, src=('y', 180), dst=('b', 180), res=3, nd=3, **k),
           Task('transform-3d-nearest', transform, src=('y', 120), dst=('b', 180), res=3, nd=3, nearest=True, **k)]
    for rev in (False, True):
        for near in (False, True):
            ts += [Task(f'solid-{rev}-{near}-{va}', solid, res=6 if va == 180 else 5, reverse=rev, nearest=near, va=va, **k) for va in (180, 120)]
        ts += [Task(f'solid-3d-{rev}', solid, res=3, nd=3, reverse=rev, returnvm=True, **k),
               Task(f'solid-vm-{rev}', solid, res=4, reverse=rev, returnvm=True, va=90, **k)]
    ts += [Task('solid-default', solid, res=4, default=True, returnvm=True, **k)]
    for res in (2, 3, 4, 5) + ((8, 11) if tier == 'thorough' else ()):
        ts += [Task(f'uv2ang-{res}', uv2ang, res=res, **k), Task(f'uv2ang-360-{res}', uv2ang, res=res, asp=2, **k),
               Task(f'ang2uv-{res}', ang2uv, res=res, **k)]
    ts += [Task('uv2ang-3d', uv2ang, res=3, nd=3, **k), Task('uv2ang-360-3d', uv2ang, res=3, asp=2, nd=3, **k),
           Task('ang2uv-3d', ang2uv, res=4, nd=3, **k)]
    ts += [Task(f'ang2uv-{d}-{va}', ang2uv, res=4, view=(d, va), **k) for d, va in (('b', 180), ('a', 120), ('z', 180), ('y', 90))]
    return ts
