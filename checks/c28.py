"""C28: views of pictures and view files"""
from symx.api import Task
from checks.c12 import DIRS as ALL
from checks.rad import Picture, Radiance

FUNCTIONS = ['raytools.imagetools.hdr2vm', 'raytools.imagetools.vf_to_vm', 'raytools.imagetools.img_size',
             'raytools.mapper.viewmapper.ViewMapper.__init__', 'raytools.mapper.viewmapper.ViewMapper.viewangle',
             'raytools.mapper.viewmapper.ViewMapper.dxyz', 'raytools.mapper.mapper.Mapper.dxyz']
BOUNDS = ('every view angle in (0, 180] (or 360 by a picture twice as wide), every length of the direction for 10 directions, every direction with '
          'components up to 4, every view point; stated orders of the options and headers of up to 6 lines; picture sizes 1 to 12')
OUTSIDE = ('floating-point rounding; numbers in the text are symbolic where the code reads them with float; the program getinfo (modelled); '
           'view types other than -vta, -vs and -vl options, tabs and exponents in numbers')


DIRS = list(ALL.values()) + [(-1., 2., 3.), (3., -1., 0.), (.2, .1, -4.), (1e-3, 2., 0.)]


class Text:
    """numbers in text: in the symbolic run they stand for symbols"""

    def __init__(self, env):
        self.env, self.map, it = env, {}, env.m('imagetools')
        if env.symbolic:
            env.setattr(it, 'float', self.float)

    def float(self, s=0.):
        if isinstance(s, str):
            k = s.strip()
            return self.map[k] if k in self.map else float(k)
        return s if not isinstance(s, (int, bytes)) else float(s)

    def put(self, x):
        if not self.env.symbolic or isinstance(x, (int, float)):
            return repr(float(x))
        k = f'{70000 + len(self.map)}.0625'
        self.map[k] = x
        return k


def direction(env, vm, vd):
    n = vm.dxyz
    env.check('three components', env.np.shape(n) == (3,))
    env.close('unit length', sum(n[i] ** 2 for i in range(3)), 1, tol=1e-7)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        env.close('parallel', n[i] * vd[j], n[j] * vd[i], tol=1e-6)
    env.check('same sense', sum(n[i] * vd[i] for i in range(3)) > 0)


def numbers(env, d, scale, angle):
    if isinstance(d, str):
        vd = [env.real(f'd{i}', .3, 4) * (-1 if c == '-' else 1) if c != '0' else 0. for i, c in enumerate(d)]
    elif d is None:
        vd = None
    else:
        s = env.real('length', .01, 20) if scale else 1.
        vd = [env.num(float(x)) * s for x in d]
    a = env.real('angle', *angle) if isinstance(angle, tuple) else float(angle)
    p = [env.real(f'p{i}', -50, 50) for i in range(3)]
    return vd, a, p


def line(text, vd, a, p, order):
    parts = {'h': f'-vh {text.put(a)}', 'v': f'-vv {text.put(a)}', 'd': '-vd ' + ' '.join(text.put(x) for x in vd) if vd is not None else '',
             'p': '-vp ' + ' '.join(text.put(x) for x in p), 'u': '-vu 0 0 1', 's': '-vs 0', 'l': '-vl 0', 'o': '-vo 0 -va 0'}
    return ' '.join(parts[k] for k in order if parts[k])


def header(env, d, scale, angle, order, w, h, before=(), after=(), tag='VIEW= -vta ', path='a.hdr'):
    it = env.m('imagetools')
    text = Text(env)
    vd, a, p = numbers(env, d, scale, angle)
    lines = list(before) + [tag + line(text, vd, a, p, order)] + list(after)
    Radiance(env, {path: Picture(lines, w, h, None)}).install()
    vm = it.hdr2vm(path)
    vm2, vp = it.hdr2vm(path, vpt=True)
    for v in (vm, vm2):
        full = angle == 180 and w == 2 * h
        env.close('view angle', v.viewangle, 180 if full else a * w / h, tol=1e-7)
        env.check('both hemispheres', v.aspect == (2 if full else 1))
        direction(env, v, vd if vd is not None else (0, 1, 0))
    env.close('view point', list(vp), p if 'p' in order else [0, 0, 0], tol=1e-9)
    env.check('size', tuple(it.img_size(path)) == (w, h))


def none(env, lines, w, h):
    it = env.m('imagetools')
    Radiance(env, {'a.hdr': Picture(lines, w, h, None)}).install()
    env.check('no view', it.hdr2vm('a.hdr') is None)
    r = it.hdr2vm('a.hdr', vpt=True)
    env.check('nor view point', len(r) == 2 and r[0] is None and r[1] is None)
    x = env.real('x', 0, 1)
    env.close('x', x, x)


def errors(env):
    it = env.m('imagetools')
    Radiance(env, {'bad.txt': 'hello'}).install()
    env.raises('missing', FileNotFoundError, lambda: it.hdr2vm('missing.hdr'))
    env.raises('no picture', IOError, lambda: it.hdr2vm('bad.txt'))
    env.raises('missing', FileNotFoundError, lambda: it.hdr2vm('missing.hdr', vpt=True))


class Lines:
    def __init__(self, lines):
        self.lines = [x + '\n' for x in lines]

    def readlines(self):
        return list(self.lines)

    def read(self, n=-1):
        return ''.join(self.lines)

    def __iter__(self):
        return iter(self.lines)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def viewfile(env, d, scale, angle, order, before=(), after=(), tag='rvu -vta '):
    it = env.m('imagetools')
    text = Text(env)
    vd, a, p = numbers(env, d, scale, angle)
    lines = list(before) + [tag + line(text, vd, a, p, order)] + list(after)
    env.setattr(it, 'open', lambda n, *x, **k: Lines(lines))
    vm = it.vf_to_vm('a.vf')
    env.close('view angle', vm.viewangle, a, tol=1e-7)
    direction(env, vm, vd)


def novf(env, lines):
    it = env.m('imagetools')
    env.setattr(it, 'open', lambda n, *x, **k: Lines(lines))
    env.raises('no view', ValueError, lambda: it.vf_to_vm('a.vf'))
    x = env.real('x', 0, 1)
    env.close('x', x, x)


def instance(env, kind):
    """the view of GSS is that of the picture, of the view file or 180 degrees"""
    hv = env.m('evaluate.hvsgsm')
    it = env.m('imagetools')
    text = Text(env)
    a = 180
    vd = [env.real(f'd{i}', .5, 4) for i in range(3)]
    q = env.real('q', 0, 9)
    rows = [[[1., 2., 3.]] * 4 for _ in range(4)]
    rows[1][2] = [q, 1., q]
    Radiance(env, {'a.hdr': Picture(['VIEW= -vta ' + line(text, vd, a, [0, 0, 0], 'dh')], 4, 4, rows), 'b.hdr': Picture(['x'], 4, 4, rows),
                   'c.vf': 'rvu'}).install()
    env.setattr(it, 'open', lambda n, *x, **k: Lines(['rvu -vta ' + line(text, vd, a, [0, 0, 0], 'dh')]))
    if kind in ('a.hdr', 'c.vf', None):
        g = hv.GSS(kind)
    elif kind == 'set':
        g = hv.GSS()
        g.vm = 'a.hdr'
    elif kind == 'set-none':
        g = hv.GSS(it.ViewMapper((1, 0, 0), 180))
        g.vm = 'b.hdr'
    env.close('angle', g.vm.viewangle, 180)
    direction(env, g.vm, vd if kind not in (None, 'set-none') else (0, 1, 0))
    env.check('picture loaded', (g.lum is not None) == (kind == 'a.hdr'))


OLD = ['rpict -vta -vp 9 9 9 -vd 1 1 0 -vh 33 -vv 33', 'VIEW= -vta -vp 7 7 7 -vd 0 0 1 -vh 44 -vv 44']
OTHER = ['pfilt -x 3', 'EXPOSURE=1.0', 'VIEW= -vtv -vd 1 0 0 -vh 50 -vv 50', 'rvu -vtl -vd 1 0 0 -vh 50']


def tasks(tier):
    ts = []
    deep = tier != 'quick'
    O = ('pdhv', 'hvdp', 'dh', 'vph', 'pduhvslo', 'olshvudp', 'hp', 'h')
    for i, o in enumerate(O):
        for j, (w, h) in enumerate(((4, 4), (8, 4), (6, 9), (5, 7), (1, 1), (12, 6))):
            if not deep and (i + j) % 2:
                continue
            d = DIRS[(3 * i + j) % len(DIRS)] if 'd' in o else None
            ts.append(Task(f'view-{o}-{w}x{h}', header, d=d, scale=True, angle=(1, min(180, 180 * h / w)) if w != 2 * h else 180, order=o, w=w, h=h,
                           before=OLD[:(i + j) % 3], after=OTHER[:j % 5] if j % 2 == 0 else ()))
    for i, o in enumerate(('pdhv', 'hd', 'ph')):
        for j, t in enumerate(('rvu -vta ', 'x rvu -vta ', 'VIEW= -vta ')):
            ts.append(Task(f'tag-{o}-{j}', header, d=DIRS[i + j] if 'd' in o else None, scale=False, angle=(1, 180), order=o, w=7, h=7, tag=t,
                           before=('rpict', 'rvu -vta -vh 22 -vd 1 0 0'), after=OTHER[:2]))
    for i, n in enumerate(("it's.hdr", 'my pictures/a b.hdr', 'a"b".hdr', 'a;b&c $d.hdr')):
        ts.append(Task(f'name-{i}', header, d=DIRS[i], scale=False, angle=(1, 180), order='pdhv', w=7, h=7, path=n))
    for i, d in enumerate(DIRS):
        ts += [Task(f'dir-{i}', header, d=d, scale=True, angle=180, order='dh', w=10, h=5),
               Task(f'vf-{i}', viewfile, d=d, scale=True, angle=(1, 180), order='dh')]
    for d in ('+++', '-+-', '+-0', '0-+', '-0+', '--0'):
        ts += [Task(f'any{d}', header, d=d, scale=False, angle=120, order='pdhv', w=4, h=4),
               Task(f'any{d}-360', header, d=d, scale=False, angle=180, order='hd', w=8, h=4),
               Task(f'vf-any{d}', viewfile, d=d, scale=False, angle=120, order='pdhv')]
    for i, o in enumerate(('pdhv', 'hvdp', 'dh', 'pduhvslo', 'olshvudp')):
        for j in range(3):
            ts.append(Task(f'vf-{o}-{j}', viewfile, d=DIRS[i + j], scale=True, angle=(1, 180), order=o, before=(['# x'] + OLD)[:j + 1], after=OTHER[:j],
                           tag=('rvu -vta ', 'VIEW= -vta ', '-vta ')[j]))
    for i, l in enumerate(([], ['rpict'], OTHER, ['VIEW= -vtv -vh 45 -vd 1 0 0'], ['view -vta -vh 180'])):
        ts.append(Task(f'none-{i}', none, lines=l, w=4, h=4 + i))
        if i < 4:
            ts.append(Task(f'novf-{i}', novf, lines=l))
    ts.append(Task('errors', errors))
    for k in ('a.hdr', 'c.vf', None, 'set', 'set-none'):
        ts.append(Task(f'gss-{k}', instance, kind=k, mode='float'))
    return ts
