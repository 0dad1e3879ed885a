"""C25: reading and writing pictures"""
from symx.api import Task
from checks.rad import Picture, Radiance, WEIGHTS

FUNCTIONS = ['raytools.io.' + k for k in ('array2hdr', 'carray2hdr', '_array2hdr', 'hdr2array', 'hdr2carray', '_hdr_in', 'np2bytes',
                                          'bytes2np', 'hdr_header', 'is_hdr', 'np2bytefile', 'bytefile2np')]
BOUNDS = 'every value of every pixel and channel of pictures of 1x1 to 3x4 pixels; headers of up to 5 lines'
OUTSIDE = ('the programs pvalue and getinfo (replaced by a model of their documented behaviour); the precision of the picture '
           'format (8 bit mantissa) and of 4-byte floats; the cleaning of headers')
DATE = 'rpict -vta -vh 180'


def values(env, name, n):
    return [env.real(f'{name}{i}', 0, 1000) for i in range(n)]


def write(env, w, h, color, header=None, via='array2hdr', stdout=False, path='a.hdr'):
    io = env.m('io')
    rad = Radiance(env).install()
    x = values(env, 'p', w * h * (3 if color else 1))
    a = env.arr(x).reshape((3, w, h) if color else (w, h))
    r = getattr(io, via)(a, None if stdout else path, header=header)
    env.close('array unchanged', env.np.ravel(a), x, tol=1e-12)
    if stdout:
        pic = rad.stdout
        env.check('returns None', r is None)
    else:
        pic = rad.files.get(path)
        env.check('returns the file', r == path)
    env.check('is a picture', isinstance(pic, Picture))
    env.check('resolution', (pic.w, pic.h) == (w, h))
    for i in range(w):
        for j in range(h):
            px = pic.rows[h - 1 - j][i]
            for k in range(3):
                env.close('pixel', px[k], a[k, i, j] if color else a[i, j], tol=1e-3)
    if header is not None:
        env.check('header lines', [q for q in pic.lines if q and not q.startswith('pvalue')] == [q for q in header if q])
    if not stdout:
        env.close('read back in colour', io.hdr2carray(path), a if color else env.arr([a, a, a]), tol=1e-3)
        if not color:
            env.close('read back', io.hdr2array(path), a, tol=1e-3)


def picture(env, w, h, lines=()):
    x = values(env, 'p', w * h * 3)
    rows = [[x[(y * w + i) * 3:(y * w + i) * 3 + 3] for i in range(w)] for y in range(h)]
    return Picture(lines, w, h, rows)


def read(env, w, h, header=False, vlambda=None, stdin=False, path='a.hdr'):
    io = env.m('io')
    lines = ['rpict -x 3', 'VIEW= -vta -vd 0 1 0 -vh 180 -vv 180', 'EXPOSURE=2']
    pic = picture(env, w, h, lines)
    Radiance(env, {path: pic}).install()
    kw = dict(stdin=pic) if stdin else {}
    name = '' if stdin else path
    if header:
        kw['header'] = True
    if vlambda is not None:
        wts = [env.num(v) for v in vlambda] if vlambda != 'any' else [env.real(f'w{k}', -1, 2) for k in range(3)]
        g = io.hdr2array(name, vlambda=wts, **kw)
    else:
        wts = WEIGHTS
        g = io.hdr2array(name, **kw)
    c = io.hdr2carray(name, **kw)
    if header:
        g, hg = g
        c, hc = c
        for hd in (hg, hc):
            env.check('header', [q.strip() for q in hd if q.strip() in lines] == lines)
    env.shape('shape', g, (w, h))
    env.shape('shape', c, (3, w, h))
    for i in range(w):
        for j in range(h):
            px = pic.rows[h - 1 - j][i]
            env.close('colour', [c[k, i, j] for k in range(3)], px, tol=1e-3)
            env.close('luminance', g[i, j], sum(a * b for a, b in zip(wts, px)), tol=1e-3)


def errors(env):
    io = env.m('io')
    x = env.real('x', 0, 1)
    Radiance(env, {'a.hdr': Picture([], 1, 1, [[[x, x, x]]]), 'a.txt': b'hello world'}).install()
    for fn in (io.hdr2array, io.hdr2carray):
        env.raises('not a picture', ValueError, lambda: fn('a.txt'))
        env.raises('not found', ValueError, lambda: fn('b.hdr'))
    env.raises('not a picture', IOError, lambda: io.hdr_header('a.txt'))
    env.raises('not found', FileNotFoundError, lambda: io.hdr_header('b.hdr'))
    env.check('is_hdr', bool(io.is_hdr('a.hdr')) and not io.is_hdr('a.txt'))
    env.close('value', io.hdr2array('a.hdr'), [[x]], tol=1e-6)


def bytes_(env, shape, dtype=None):
    io = env.m('io')
    n = 1
    for s in shape:
        n *= s
    x = values(env, 'p', n)
    kw = {} if dtype is None else dict(dtype=dtype)
    a = env.arr(x).reshape(shape)
    b = io.np2bytes(a, **kw)
    env.check('size', len(b) == n * (8 if dtype == '<d' else 4))
    r = io.bytes2np(b, shape, **kw)
    env.shape('shape', r, shape)
    env.close('values', r, a, tol=1e-3)


def file_(env, shape, dtype=None):
    io = env.m('io')
    rad = Radiance(env).install()
    n = 1
    for s in shape:
        n *= s
    x = values(env, 'p', n)
    a = env.arr(x).reshape(shape)
    kw = {} if dtype is None else dict(dtype=dtype)
    io.np2bytefile(a, 'a.bin', **kw)
    env.close('values', io.bytefile2np(rad.open('a.bin', 'rb'), shape, **kw), a, tol=1e-3)
    env.close('array unchanged', env.np.ravel(a), x, tol=1e-12)


def tasks(tier):
    ts = []
    H = ['rpict -x 3 -y 3', 'VIEW= -vta -vd 0 1 0', 'note it is']
    for w, h in ((1, 1), (2, 3), (3, 2), (4, 4), (1, 3)):
        for c in (0, 1):
            ts += [Task(f'write-{w}x{h}-{c}', write, w=w, h=h, color=c), Task(f'header-{w}x{h}-{c}', write, w=w, h=h, color=c, header=H)]
        ts += [Task(f'write-{w}x{h}-c', write, w=w, h=h, color=1, via='carray2hdr'), Task(f'read-{w}x{h}', read, w=w, h=h),
               Task(f'read-header-{w}x{h}', read, w=w, h=h, header=True), Task(f'read-weights-{w}x{h}', read, w=w, h=h, vlambda=(.2, .3, .5)),
               Task(f'read-stdin-{w}x{h}', read, w=w, h=h, stdin=True)]
    ts += [Task('read-any-weights', read, w=2, h=1, vlambda='any'), Task('read-weights-header', read, w=2, h=3, vlambda=(1., 0., 0.), header=True),
           Task('stdout', write, w=2, h=3, color=0, stdout=True), Task('stdout-color', write, w=2, h=3, color=1, stdout=True, header=H),
           Task('errors', errors)]
    N = ("it's.hdr", 'my pictures/a b.hdr', 'a"b".hdr', 'a;b&c $d.hdr', 'x(1).hdr')
    for i, n in enumerate(N):
        ts += [Task(f'write-name-{i}', write, w=2, h=3, color=i % 2, header=H, path=n), Task(f'read-name-{i}', read, w=3, h=2, header=bool(i % 2), path=n,
                                                                                              vlambda=(.2, .3, .5) if i == 2 else None)]
    for i, q in enumerate((["pcomb -e 'ro=ri(1);go = gi(1)' a.hdr", 'x'], ["it's"], ['say "hi"  there'], ["'"], [''], ['a', "b'c", "d'e f"], [])):
        ts += [Task(f'write-quotes-{i}-{c}', write, w=2, h=2, color=c, header=q) for c in (0, 1)]
    for i, s in enumerate(((4,), (2, 3), (2, 2, 2), (1, 3))):
        ts += [Task(f'bytes-{i}', bytes_, shape=s), Task(f'bytes-double-{i}', bytes_, shape=s, dtype='<d'), Task(f'bytes-big-{i}', bytes_, shape=s, dtype='>f'),
               Task(f'file-{i}', file_, shape=s), Task(f'file-double-{i}', file_, shape=s, dtype='<d')]
    return ts
