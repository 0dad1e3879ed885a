"""C15: images of a view: initial arrays and marked directions"""
from symx.api import Task
from checks.util import dot
from checks.c12 import DIRS, axes
from checks.c13 import factor

FUNCTIONS = ['raytools.mapper.AngularMixin.init_img', 'raytools.mapper.ViewMapper.init_img',
             'raytools.mapper.AngularMixin.add_vecs_to_img', 'raytools.mapper.AngularMixin.header',
             'raytools.mapper.AngularMixin.in_view', 'raytools.mapper.AngularMixin.pixelrays',
             'raytools.mapper.ViewMapper.solid_pixel2ray', 'raytools.mapper.AngularMixin.xyz2vxy',
             'raytools.mapper.Mapper.ray2pixel', 'raytools.translate.bin2uv', 'raytools.translate.uv2ij']
BOUNDS = ('every view direction in a vertical plane for initial images; every marked direction (by image point or point of '
          'the square, more than 1e-5 from a pixel border), view angles 90, 180 and 360, resolutions 2 to 5, one or three '
          'features, all three projections, grow 0 and 1, with and without mask')
OUTSIDE = 'floating-point rounding at pixel borders; larger images; the equisolid projection beyond a hemisphere'
PROJ = {'vta': 'vta', 'angular': 'vta', 'A': 'vta', 'fish': 'vta', 'vte': 'vte', 'Equi': 'vte', 'e': 'vte',
        'vuv': 'vuv', 'square': 'vuv', 'U': 'vuv'}


def up(env, d, va=180):
    """the up vector of the header is the top of the image"""
    if d == 'any' or d == 'below':
        t = env.real('t', .001, 5)
        a, b = 2 * t / (1 + t * t), (1 - t * t) / (1 + t * t)
        d = [.6 * a, -.8 * a, b if d == 'any' else -b]
    vm = env.m('mapper').ViewMapper(env.arr(d), va)
    w = vm.header((1, 2, 3)).split()
    h = [env.float(q) for q in w[7:10]]
    env.close('direction', h, list(d), tol=1e-6)
    u = [env.float(q) for q in w[15:18]]
    p = [u[k] - dot(u, d) * d[k] for k in range(3)]
    env.le('not along the view', 1e-9, dot(p, p))
    r = vm.vxy2xyz(env.arr([[.5, .75], [.5, .25]]))
    q = [r[0, k] - r[1, k] for k in range(3)]
    c = [q[1] * p[2] - q[2] * p[1], q[2] * p[0] - q[0] * p[2], q[0] * p[1] - q[1] * p[0]]
    env.close('top of the image', c, [0, 0, 0], tol=1e-6)
    env.le('not upside down', 0, dot(p, q))


def init(env, dn, va, res, proj='vta', features=1, indices=True):
    np, pi = env.np, env.pi
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    r, u, d = axes(DIRS[dn])
    px, py = env.real('px', -50, 50), env.real('py', -50, 50)
    kw = {} if proj is None else dict(viewproj=proj)
    img, vecs, mask, mask2, header = vm.init_img(res, pt=(px, py, 1.5), features=features, indices=indices, **kw)
    asp = 2 if va == 360 else 1
    p = PROJ[proj or 'vta']
    shp = (res * asp, res)
    env.shape('image', img, shp if features == 1 else (features,) + shp)
    env.close('zero', img, np.zeros(shp if features == 1 else (features,) + shp))
    env.shape('vectors', vecs, shp + (3,))
    w = header.split()
    env.check('header', w[0] == 'VIEW=' and w[1] == '-' + p and w[2] == '-vv' and w[4] == '-vh' and w[6] == '-vd'
              and w[10] == '-vp' and w[14] == '-vu')
    h = [env.float(q) for q in w[3:4] + w[5:6] + w[7:10] + w[11:14] + w[15:18]]
    env.close('header view size', h[:2], [180 if va == 360 else va] * 2)
    env.close('header view direction', h[2:5], list(DIRS[dn]), tol=1e-6)
    env.close('header view point', h[5:8], [px, py, 1.5], tol=1e-6)
    env.close('header up', h[8:], [0, 1, 0] if dn in ('z', '-z') else [0, 0, 1])
    if p == 'vuv':
        uv = env.arr([[(i + .5) / res, (j + .5) / res] for i in range(asp * res) for j in range(res)])
        env.close('vectors of the square', vecs.reshape(-1, 3), vm.uv2xyz(uv), tol=1e-7)
        return
    c = env.arr([[(i + .5) / res, (j + .5) / res] for i in range(res) for j in range(res)])
    if p == 'vta':
        env.close('vectors of the pixels', vecs[:res].reshape(-1, 3), vm.vxy2xyz(c), tol=1e-7)
    else:
        env.close('vectors of the pixels', vecs[:res].reshape(-1, 3), vm.solid_vxy2xyz(c), tol=1e-7)
    if asp == 2:
        env.close('vectors of the pixels behind', vecs[res:].reshape(-1, 3), vm.ivm.vxy2xyz(c), tol=1e-7)
    cl = float(np.cos(float((180 if va == 360 else va) * factor(env, va) * float(pi) / 360)))
    want = []
    for i in range(asp * res):
        for j in range(res):
            z = float(sum(vecs[i, j, k] * d[k] for k in range(3))) * (1 if i < res else -1)
            assert abs(z - cl) > 1e-6
            if z > cl:
                want.append((i, j))
    if indices:
        env.same('mask', np.stack(mask[:2]).T, want)
        if features == 1:
            env.same('mask2', np.stack(mask2[:2]).T, want)
        else:
            # assignment of (N, features) values, row by row
            f = env.real('f', 1, 2)
            im = np.zeros((features,) + shp) + f * 0
            im[mask2] = env.arr([f * (10 * n + k) for n in range(len(want)) for k in range(features)])
            exp = np.zeros((features,) + shp) + f * 0
            for n, (i, j) in enumerate(want):
                for k in range(features):
                    exp[k, i, j] = f * (10 * n + k)
            env.close('mask of all features', im, exp)
    else:
        exp = np.zeros(shp)
        for i, j in want:
            exp[i, j] = 1
        env.same('mask', np.ravel(mask) * 1, exp.ravel().astype(int))


def anydir(env, va, proj='vta'):
    """the mask does not depend on the view direction"""
    np = env.np
    t = env.real('t', -1.5, 1.5)
    s, c = np.sin(t), np.cos(t)
    vm = env.m('mapper').ViewMapper(env.arr([c * .6, c * .8, s]), va)
    v0 = env.m('mapper').ViewMapper((0., 1., 0.), va)
    img, vecs, mask, mask2, header = vm.init_img(3, viewproj=proj)
    _, w0, m0, _, _ = v0.init_img(3, viewproj=proj)
    env.same('mask', np.stack(mask), np.stack(m0))
    e = vecs.reshape(-1, 3)
    env.close('centre', e[4], [c * .6, c * .8, s], tol=1e-6)
    env.close('corner up', e[5], vm.view2world(v0.world2view(w0.reshape(-1, 3)[5:6]))[0], tol=1e-6)


def pix(env, x, y, res):
    for t in (x, y):
        for k in range(-2, 2 * res + 2):
            env.assume((t * res > k + 1e-5) | (t * res < k - 1e-5))
    np = env.np
    return [int(v) for v in np.floor(env.arr([x * res, y * res]))]


def neigh(marks, shp, grow):
    out = [[0] * shp[1] for _ in range(shp[0])]
    for i in range(shp[0]):
        for j in range(shp[1]):
            for a in range(i - grow, i + grow + 1):
                for b in range(j - grow, j + grow + 1):
                    # the filter reflects at the edges
                    c = a if 0 <= a < shp[0] else (-a - 1 if a < 0 else 2 * shp[0] - 1 - a)
                    d = b if 0 <= b < shp[1] else (-b - 1 if b < 0 else 2 * shp[1] - 1 - b)
                    out[i][j] += (c, d) in marks
    return out


def add(env, dn, va, nd=2, grow=0, channels=(2., 3., 4.), back=False, fisheye=True, mask=False, base=0.):
    """directions mark the pixel that contains them, and no other"""
    np, pi = env.np, env.pi
    vm = env.m('mapper').ViewMapper(DIRS[dn], va)
    res, asp = 3, 2 if va == 360 else 1
    shp = (res * asp, res)
    r, u, d = axes(DIRS[dn])
    if fisheye:
        x, y = env.real('x', -.2, 1.2), env.real('y', -.2, 1.2)
        q = (x - .5) * (x - .5) + (y - .5) * (y - .5)
        env.assume((q > 1e-4) & (q < (.249 if asp == 2 else .8)))
        v = (vm.ivm if back else vm).vxy2xyz(env.arr([[x, y]]))
        i, j = pix(env, x, y, res)
        if back:
            i += res
        ok = 0 <= i < shp[0] and 0 <= j < shp[1]
    else:
        a, b = env.real('x', 0, asp), env.real('y', 0, 1)
        env.assume((a > 1e-3) & (a < asp - 1e-3) & (b > 1e-3) & (b < .999) & ((a < .999) | (a > 1.001)))
        v = vm.uv2xyz(env.arr([[a, b]]))
        i, j = pix(env, a, b, res)
        ok = True
    p = [v[0, k] for k in range(3)]
    o = [d[k] * .96 + r[k] * .28 for k in range(3)]
    w = (vm.xyz2vxy if fisheye else vm.xyz2uv)(env.arr([o]))[0]
    m = [int(np.floor(w[0] * res)), int(np.floor(w[1] * res))]
    marks = {tuple(m)} | ({(i, j)} if ok else set())
    img = np.full(shp if nd == 2 else (3,) + shp, base)
    kw = {}
    if mask:
        allow = [(0, 0), (1, 1), (1, 2), (2, 1)]
        kw['mask'] = (np.array([e[0] for e in allow]), np.array([e[1] for e in allow]))
        marks &= set(allow)
    if not fisheye:
        kw['fisheye'] = False
    out = vm.add_vecs_to_img(img, env.arr([p, o]), channels=channels, grow=grow, **kw)
    env.shape('image', out, img.shape)
    n = neigh(marks, shp, grow)
    ch = channels if isinstance(channels, tuple) else (channels,)
    if nd == 2:
        exp = [[(ch[0] * e if grow else (ch[0] if e else base)) for e in row] for row in n]
    else:
        exp = [[[(base * (2 * grow + 1) ** 2 if c is None else (c * e if grow else (c if e else base))) for e in row]
                for row in n] for c in ch]
    env.close('marked pixels', out, exp, tol=1e-9)


def tasks(tier):
    ts = []
    ts += [Task(f'up-{i}', up, d=d, va=180 if i % 2 else 90) for i, d in enumerate(((0, 0, 1), (0, 0, 1), (0, 0, -1), (0, 0, -1), (0, -1, 0)))]
    ts += [Task('up-any', up, d='any', mode='float'), Task('up-below', up, d='below', mode='float')]
    for dn in ('y', 'z', '-z', 'b'):
        for va in (90, 180, 360):
            ts.append(Task(f'init-{dn}-{va}', init, dn=dn, va=va, res=4, mode='float'))
    for va in (90, 180, 360):
        ts += [Task(f'init-mask-{va}', init, dn='a', va=va, res=5, indices=False, mode='float'),
               Task(f'init-feat-{va}', init, dn='y', va=va, res=3, features=3, mode='float'),
               Task(f'init-feat-mask-{va}', init, dn='y', va=va, res=3, features=3, indices=False, mode='float'),
               Task(f'init-default-{va}', init, dn='y', va=va, res=2, proj=None, mode='float'),
               Task(f'init-vuv-feat-{va}', init, dn='y', va=va, res=3, proj='vuv', features=3, mode='float'),
               Task(f'anydir-{va}', anydir, va=va, mode='float')]
        for proj in PROJ:
            if va != 360 or PROJ[proj] != 'vte':
                ts.append(Task(f'init-{proj}-{va}', init, dn='b', va=va, res=3, proj=proj, mode='float'))
    ts += [Task('anydir-vte', anydir, va=180, proj='vte', mode='float'),
           Task('init-vte-feat', init, dn='y', va=180, res=3, proj='vte', features=3, mode='float'),
           Task('init-vte-mask', init, dn='y', va=180, res=3, proj='vte', indices=False, mode='float')]
    for va in (90, 180):
        ts += [Task(f'add-{va}', add, dn='y', va=va), Task(f'add-b-{va}', add, dn='b', va=va, nd=3),
               Task(f'add-grow-{va}', add, dn='y', va=va, grow=1), Task(f'add-uv-{va}', add, dn='y', va=va, fisheye=False),
               Task(f'add-base-{va}', add, dn='y', va=va, base=7.), Task(f'add-none-{va}', add, dn='y', va=va, nd=3, channels=(None, 3., None), base=7.),
               Task(f'add-mask-{va}', add, dn='y', va=va, mask=True)]
    for back in (False, True):
        ts += [Task(f'add-360-{back}', add, dn='y', va=360, back=back), Task(f'add-360b-{back}', add, dn='b', va=360, nd=3, back=back),
               Task(f'add-360-grow-{back}', add, dn='y', va=360, grow=1, nd=3, back=back)]
    for va in (180, 360):
        ts.append(Task(f'add-black-{va}', add, dn='y', va=va, nd=3, channels=(0., 3., None), base=7.))
    ts.append(Task('add-black-grey', add, dn='y', va=180, channels=(0.,), base=7.))
    ts += [Task('add-360-uv', add, dn='y', va=360, fisheye=False), Task('add-scalar', add, dn='y', va=180, channels=5.),
           Task('add-grow3', add, dn='y', va=180, grow=1, nd=3), Task('add-uv3', add, dn='b', va=180, fisheye=False, nd=3)]
    return ts
