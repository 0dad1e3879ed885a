"""C26: luminance from colour and from packed pixels"""
from symx.api import Task

FUNCTIONS = ['raytools.io.rgbe2lum', 'raytools.io.rgb2rad', 'raytools.io.rgb2lum']
BOUNDS = ('every mantissa in [1, 255] (or 0, as stated) of up to 3 pixels for every exponent in [0, 255]; every colour and weight of arrays of 1 to 3 '
          'dimensions with 1 to 5 channels; integer arrays of 8, 16, 32 and 64 bits for stated pixels')
OUTSIDE = 'floating-point rounding; integer types for other pixels than the stated ones'
W = (.265, .67, .065)


def packed(env, lo, n, zero=()):
    io = env.m('io')
    e = lo + env.choice('e', list(range(32)))
    px, exp = [], []
    for i in range(n):
        c = [env.num(0) if (i, k) in zero else env.real(f'c{i}{k}', 1, 255) for k in range(3)]
        ei = min(255, e + 3 * i)
        px.append(c + [env.num(ei)])
        t = 0
        for k in range(3):
            x = c[k]
            if (i, k) in zero:
                continue
            t = t + env.num(W[k]) * 179 * (x + env.num(.5))
        exp.append(t * env.num(2) ** (ei - 136))
    r = env.np.asarray(io.rgbe2lum(env.arr(px))).reshape(-1)
    env.shape('one per pixel', r, (n,))
    for i in range(n):
        s = env.num(2) ** (136 - int(min(255, e + 3 * i)))
        env.close('luminance', r[i] * s, exp[i] * s, tol=1e-6)


def integers(env, dtype):
    import numpy
    io = env.m('io')
    P = [[0, 0, 0, 0], [0, 0, 0, 255], [255, 255, 255, 255], [1, 2, 3, 128], [255, 0, 1, 127], [128, 64, 200, 129], [10, 20, 30, 0], [0, 77, 0, 140],
         [200, 100, 50, 9]]
    i = env.choice('i', list(range(len(P))))
    x = env.real('x', 0, 1)
    a = numpy.array([P[i], P[(i + 4) % len(P)]]).astype(dtype)
    r = io.rgbe2lum(a)
    for k, p in enumerate(a.tolist()):
        t = sum(W[j] * 179 * (p[j] + .5) * 2. ** (int(p[3]) - 136) for j in range(3) if p[j])
        sc = 2. ** (136 - int(p[3]))
        env.close('luminance', float(r[k]) * sc + x, t * sc + x, tol=1e-6)
    env.check('argument unchanged', a.astype(int).tolist() == [P[i], P[(i + 4) % len(P)]])


def weights(env, shape, func, given):
    io = env.m('io')
    m = shape[-1]
    n = 1
    for s in shape[:-1]:
        n *= s
    x = [[env.real(f'x{i}_{k}', -1, 1000) for k in range(m)] for i in range(n)]
    a = env.arr(x).reshape(shape)
    if given == 'default':
        w, kw = W, {}
    else:
        w = [env.real(f'w{k}', 0, 1) for k in range(m)] if given == 'any' else [env.num(.1) * (k + 1) for k in range(m)]
        kw = dict(vlambda=tuple(w) if given != 'array' else env.arr(w))
    r = getattr(io, func)(a, **kw)
    env.shape('shape', r, shape[:-1])
    f = 179 if func == 'rgb2lum' else 1
    env.close('weighted sum', env.np.ravel(r), [f * sum(w[k] * p[k] for k in range(m)) for p in x], tol=1e-6)


def tasks(tier):
    ts = []
    for lo in range(0, 256, 32):
        ts += [Task(f'packed-{lo}', packed, lo=lo, n=1), Task(f'packed-rows-{lo}', packed, lo=lo, n=3, zero=((0, 1), (2, 2))),
               Task(f'packed-zero-{lo}', packed, lo=lo, n=3, zero=((0, 0), (1, 0), (1, 1), (1, 2), (2, 1), (2, 0)))]
    for d in ('uint8', 'int16', 'uint16', 'int32', 'int64', 'float64', 'float32'):
        ts.append(Task(f'type-{d}', integers, dtype=d))
    for fn in ('rgb2rad', 'rgb2lum'):
        for i, s in enumerate(((3,), (1, 3), (4, 3), (2, 2, 3))):
            ts += [Task(f'{fn}-{g}-{i}', weights, shape=s, func=fn, given=g) for g in ('default', 'any', 'array')]
        ts += [Task(f'{fn}-channels-{m}', weights, shape=(2, m), func=fn, given='any') for m in (1, 2, 4, 5)]
    return ts
