"""C23: consolidation of bright pixels into one source"""
from symx.api import Task
from checks.util import cross, dot

FUNCTIONS = ['raytools.imagetools.normalize_peak', 'raytools.imagetools.find_peak', 'raytools.imagetools.gather_strays',
             'raytools.io.rgb2rad']
BOUNDS = ('every luminance in [10, 20000] of up to 4 pixels (order, threshold, full or partial source), every solid angle in '
          '[1e-6, 1e-4] of up to 4 pixels with stated luminances, every colour of two pixels; 4 to 8 pixels, every return form and '
          'option except blursun with symbolic luminance')
OUTSIDE = ('floating-point rounding; equal luminances (order of the sort); values within 1e-6 (relative) of a threshold; more bright pixels; '
           'the point spread of blursun itself')
WHERE = {'c': (1, 0, 0, 0), 'r': (400, 1, 1, 0), 'l': (300, 1, -1, 0), 'u': (250, 1, 0, 1), 'f': (40, 1, 1, 0), 'g': (10, 1, 0, 1),
         'h': (39, 1, 1, 0), 'i': (41, 1, 1, 0), 'd': (2, 1, 0, -1), 'b': (220, 1, 0, -1),
         'A': (6, 1, 1, 0), 'B': (6.25, 1, 1, 0), 'C': (5.75, 1, .96, .28), 'D': (5.5, 1, 1, 0), 'E': (6, 1, 0, -1), 'F': (6.25, 1, .28, -.96),
         'G': (5.75, 1, 0, -1), 'H': (5.5, 1, 0, -1)}


def direction(env, w):
    """small rational rotation of +y"""
    k, on, x, z = WHERE[w]
    if k == 1:
        return [env.num(0), env.num(1), env.num(0)]
    c, s = env.num(k * k - 1) / env.num(k * k + 1), env.num(2 * k) / env.num(k * k + 1)
    return [env.num(x) * s, c, env.num(z) * s]


def ordered(idx, l):
    """indices by falling luminance"""
    out = []
    for i in idx:
        k = 0
        while k < len(out) and bool(l[out[k]] > l[i]):
            k += 1
        out.insert(k, i)
    return out


def expect(env, v, o, l, ch, scale, peaka, peakt, peakr, blurtol, peakc, peakrad):
    """pixels used, direction, area, luminance of the source (or None)"""
    import math
    lim = peakt / scale
    for x in l:
        env.assume((x > lim * (1 + 1e-6)) | (x < lim * (1 - 1e-6)))
    n = len(v)
    for i in range(n):
        for j in range(i):
            env.assume((l[i] > l[j] * (1 + 1e-6)) | (l[i] < l[j] * (1 - 1e-6)))
    br = ordered([i for i in range(n) if bool(l[i] > lim)], l)
    if not br:
        return None
    dots = [sum(v[br[0]][k] * v[i][k] for k in range(3)) for i in br]
    far = [i for i, d in zip(br, dots) if not bool(d > math.cos((peaka / math.pi) ** .5 * peakrad))]
    br = [i for i in br if i not in far]
    top = l[br[0]]
    for i in br[1:]:
        env.assume((l[i] > top * (blurtol + 1e-6)) | (l[i] < top * (blurtol - 1e-6)))
        env.assume((l[i] > top * (1 / peakr + 1e-6)) | (l[i] < top * (1 / peakr - 1e-6)))
    near = [i for i in br if bool(l[i] >= top * blurtol)]
    esun = sum(l[i] for i in near) / len(near) * peaka * peakc
    cum = []
    for i in br:
        cum.append(o[i] * l[i] + (cum[-1] if cum else 0))
        env.assume((cum[-1] > esun * (1 + 1e-6)) | (cum[-1] < esun * (1 - 1e-6)))
    full = bool(cum[-1] > esun)
    if full:
        stop = next(k for k, c in enumerate(cum) if bool(c > esun))
    else:
        stop = next((k for k, i in enumerate(br) if bool(l[i] < top / peakr)), 0)
    stop = stop or len(br)
    use = br[:stop]
    e = sum(o[i] * l[i] for i in use)
    if full or peakc > 1:
        area = peaka
        lum = [sum(o[i] * c[i] for i in use) / area for c in ch]
    else:
        lum = [c[br[0]] for c in ch]
        area = e / l[br[0]]
    d = [sum(o[i] * l[i] * v[i][k] for i in use) for k in range(3)]
    return use, d, area, lum, e, far


def peak(env, where, lum, oga=None, color=False, form='all', budget=None, vl=None, **kw):
    np = env.np
    it = env.m('imagetools')
    v = [direction(env, w) for w in where]
    n = len(v)
    o = [env.num(.00003 if oga is None else oga[i]) if oga is None or oga[i] is not None else env.real(f'o{i}', 1e-6, 1e-4) for i in range(n)]
    l = [env.num(x) if x is not None else env.real(f'l{i}', 10, 20000) for i, x in enumerate(lum)]
    w = (.265, .67, .065) if vl is None else vl
    if color:
        rgb = [[x, env.num(.5) * x, env.num(1.5) * x] if lum[i] is not None or color == 1 else
               [x, env.real(f'g{i}', 10, 20000), env.num(.7) * x] for i, x in enumerate(l)]
        ch = [[p[k] for p in rgb] for k in range(3)]
        l = [sum(a * b for a, b in zip(w, p)) for p in rgb]
        arr = env.arr(rgb)
    else:
        ch = [l]
        arr = env.arr(l)
    p = dict(scale=100, peaka=6.7967e-05, peakt=1e5, peakr=4, blurtol=.75, peakc=1., peakrad=4.)
    p.update(kw)
    e = expect(env, v, o, l, ch, **p)
    if vl is not None:
        p['vlambda'] = vl
    args = {'all': {}, 'parts': dict(returnparts=True), 'peak': dict(returnall=False), 'zeros': dict(keepzeros=True),
            'zeroparts': dict(returnparts=True, keepzeros=True), 'second': dict(findsecondary=True)}[form]
    V, O, L = env.arr(v), env.arr(o), arr
    r = it.normalize_peak(V, O, L, **p, **args)
    env.close('directions not modified', V, v, tol=1e-12)
    env.close('solid angles not modified', O, o, tol=1e-12)
    env.close('luminances not modified', L, arr if not color else rgb, tol=1e-12)
    src = None
    if form in ('peak', 'second', 'parts', 'zeroparts'):
        src = r if form == 'peak' else r[0]
        rest = r[1:] if form in ('parts', 'zeroparts') else None
    else:
        rest = r
    if e is None:
        if rest is not None:
            env.close('unchanged', rest[0], v, tol=1e-12)
            env.close('unchanged', rest[1], o, tol=1e-12)
            env.close('unchanged', rest[2], rgb if color else l, tol=1e-12)
        if src is not None:
            env.close('no source', src, [0] * (7 if color else 5))
        if form == 'second':
            env.check('no strays', r[1] is None)
        return
    use, d, area, sl, energy, far = e

    def along(x):
        env.close('unit direction', x[0] * x[0] + x[1] * x[1] + x[2] * x[2], 1, tol=1e-9)
        env.close('direction', cross(x, d), [0, 0, 0], tol=1e-9)
        env.le('sense', 0, dot(x, d))

    if src is not None:
        along(src[0])
        env.close('area of the source', src[1], area, tol=1e-9)
        env.close('luminance of the source', src[2], sl, tol=1e-3)
        E = sum(a * b for a, b in zip(w, [src[2][k] for k in range(3)])) if color else src[2][0]
        env.close('energy', src[1] * E, energy, tol=1e-6)
    if rest is not None:
        zeros = 'zero' in form
        keep = [i for i in range(n) if zeros or i not in use]
        m = len(keep)
        rv, ro, rl = [np.asarray(x) for x in rest]
        tot = m + (src is None)
        env.shape('rows', rv, (tot, 3))
        env.shape('rows', ro, (tot,))
        if not (tot == 1):
            env.shape('rows', rl, (tot, 3) if color else (tot,))
        rl = rl.reshape(tot, -1)
        env.close('other directions', rv[:m], [v[i] for i in keep], tol=1e-12)
        env.close('other solid angles', ro[:m], [0 if i in use else o[i] for i in keep], tol=1e-12)
        env.close('other luminances', rl[:m], [[0 if i in use else c[i] for c in ch] for i in keep], tol=1e-9)
        if src is None:
            along(rv[m])
            env.close('area', ro[m], area, tol=1e-9)
            env.close('luminance', rl[m], sl, tol=1e-3)
            lums = [sum(a * rl[k, q] for q, a in enumerate(w)) if color else rl[k, 0] for k in range(tot)]
            env.close('total energy', sum(ro[k] * lums[k] for k in range(tot)), sum(o[i] * l[i] for i in range(n)), tol=1e-5)
    if form == 'second' and len(far) <= 3:
        env.check('no strays', len(r[1]) == 0)


def tied(env, which, peakr=4, blurtol=.5):
    """luminances exactly on a limit belong to the source (at least the limit)"""
    it = env.m('imagetools')
    v = [direction(env, w) for w in 'crud']
    top = env.real('top', 8000, 20000)
    o = [env.num(1e-6)] * 4
    if which == 'ratio':                                        # not below top / peakr
        l = [top, top * .6, top / peakr, env.num(1100)]
    else:                                                       # at least blurtol of the top
        l = [top, top * blurtol, top * .3, env.num(1100)]
    if which == 'ratio':
        p = dict(peaka=6.7967e-05)
        use = 3
        e = sum(o[i] * l[i] for i in range(3))
        area, lum = e / top, top
    else:                                                       # full source: the first has the energy of the mean of the first two
        p = dict(peaka=1.7e-6)
        use, e, area = 1, o[0] * l[0], env.num(1.7e-6)
        lum = e / area
    r = it.normalize_peak(env.arr(v), env.arr(o), env.arr(l), scale=100, peakt=1e5, peakr=peakr, blurtol=blurtol, peakrad=40., returnparts=True, **p)
    src, rest = r[0], r[1:]
    env.close('area', src[1], area, tol=1e-9)
    env.close('luminance', src[2], [lum], tol=1e-3)
    env.close('others', env.np.ravel(rest[2]), l[use:], tol=1e-9)


def second(env, where, lum, oga=None, color=False, **kw):
    """secondary sources: groups of bright pixels away from the peak"""
    it = env.m('imagetools')
    import math
    v = [direction(env, w) for w in where]
    n = len(v)
    o = [env.num(x) if x else env.real(f'o{i}', 1e-6, 1e-4) for i, x in enumerate(oga or [None] * n)]
    l = [env.num(x) if x is not None else env.real(f'l{i}', 10, 19000) for i, x in enumerate(lum)]
    arr = env.arr([[x, x * env.num(.5), x * env.num(2)] for x in l]) if color else env.arr(l)
    p = dict(scale=100, peaka=6.7967e-05, peakt=1e5, peakrad=4.)
    p.update(kw)
    vl = (.25, .25, .3125)
    src, strays = it.normalize_peak(env.arr(v), env.arr(o), arr, findsecondary=True, vlambda=vl, **p)
    # above four times the threshold, away from the peak
    lim = 4 * p['peakt'] / p['scale']
    rad = math.cos((p['peaka'] / math.pi) ** .5 * p['peakrad'] * 8)
    for i, x in enumerate(l):
        env.assume((x > lim * (1 + 1e-6)) | (x < lim * (1 - 1e-6)))
        for j in range(i):
            env.assume((x > l[j] * (1 + 1e-6)) | (x < l[j] * (1 - 1e-6)))
    br = [i for i in ordered([i for i in range(n) if bool(l[i] > lim)], l)]
    dots = [sum(v[0][k] * v[i][k] for k in range(3)) for i in range(n)]
    br = [i for i in br if bool(dots[i] < rad)]
    groups = []
    while len(br) > 3:
        g = [i for i in br if bool(sum(v[br[0]][k] * v[i][k] for k in range(3)) > rad)]
        br = [i for i in br if i not in g]
        groups.append(g)
    env.check('groups', len(strays) == len(groups))
    for s, g in zip(strays, groups):
        env.close('mean direction', s[0], [sum(v[i][k] for i in g) / len(g) for k in range(3)], tol=1e-9)
        t = sum(o[i] for i in g)
        env.close('area', s[1], t, tol=1e-12)
        e = sum(o[i] * l[i] for i in g)
        env.close('energy', [x * t for x in s[2]], [e, e * env.num(.5), e * env.num(2)] if color else [e], tol=1e-5)


def tasks(tier):
    ts = []
    N = None
    for form in ('all', 'parts', 'peak', 'zeros', 'zeroparts', 'second'):
        ts += [Task(f'one-{form}', peak, where='cf', lum=(N, 50), form=form),
               Task(f'two-{form}', peak, where='crd', lum=(N, N, 20), form=form),
               Task(f'far-{form}', peak, where='cfr', lum=(N, N, 2000), form=form),
               Task(f'area-{form}', peak, where='crlf', lum=(8000, 9000, 3000, 7000), oga=(N, N, N, .0001), form=form),
               Task(f'color-{form}', peak, where='cfr', lum=(N, 100, N), color=1, form=form),
               Task(f'color-area-{form}', peak, where='crlf', lum=(8000, 9000, 3000, 7000), oga=(N, N, N, .0001), color=1, form=form)]
    ts += [Task('three', peak, where='crlf', lum=(N, N, N, 30), budget=200), Task('three-b', peak, where='fcur', lum=(30, N, N, N)),
           Task('color-two', peak, where='cr', lum=(N, 5000), color=2), Task('color-weights', peak, where='crf', lum=(N, 5000, 200), color=1, vl=(.2, .3, .5)),
           Task('areas', peak, where='crlu', lum=(9000, 8000, 7000, 6000), oga=(N, N, N, N)),
           Task('areas-mixed', peak, where='fcrlu', lum=(20000, 8000, 7000, 6500, 6000), oga=(.00001, N, N, N, N)),
           Task('photo', peak, where='cru', lum=(N, N, 900), peakc=2.), Task('photo-area', peak, where='crlu', lum=(9000, 8000, 2000, 6000), oga=(N, N, .00002, N), peakc=1.5),
           Task('photo-low', peak, where='crlu', lum=(9000, 8000, 2000, 6000), oga=(N, N, .00002, N), peakc=.5),
           Task('ratio', peak, where='cru', lum=(N, N, 1100), oga=(1e-5, 1e-5, 1e-5), peakr=2), Task('ratio-10', peak, where='cru', lum=(N, N, 1100), oga=(1e-5, 1e-5, 1e-5), peakr=10),
           Task('blurtol', peak, where='cru', lum=(N, N, 5000), blurtol=.25), Task('blurtol-1', peak, where='cr', lum=(N, 5000), blurtol=1.),
           Task('radius', peak, where='crub', lum=(N, 9000, 5000, 6000), peakrad=1.2), Task('radius-big', peak, where='crbf', lum=(9000, 8000, 7000, 6000), oga=(N, N, N, N), peakrad=12),
           Task('size', peak, where='cru', lum=(N, 9000, 5000), peaka=1e-4), *[Task(f'size-{a}-{w}', peak, where=w, lum=(N, 9000, 5000, 6000), peaka=a, peakrad=pr) for a, w, pr in (
               (1e-6, 'crub', 4.), (1e-6, 'cfru', 40.), (1e-5, 'crfb', 4.), (2e-7, 'crlu', 10.), (1e-3, 'cfru', 4.))],
           Task('limit', peak, where='cr', lum=(N, N), peakt=5e5),
           Task('scale', peak, where='cr', lum=(N, N), scale=179),
           Task('tied-ratio', tied, which='ratio'), Task('tied-ratio-2', tied, which='ratio', peakr=2), Task('tied-blur', tied, which='blur'),
           Task('second', second, where='cABCD', lum=(20000, 9000, 8000, 7000, 6000)),
           Task('second-color', second, where='cABCD', lum=(20000, 9000, 8000, 7000, 6000), color=True),
           Task('second-color-two', second, where='cABCDEFGH', lum=(20000, 9000, 8000, 7000, 6000, 7500, 6500, 5500, 5000), color=True),
           Task('second-few', second, where='cABC', lum=(20000, 9000, 8000, 7000)),
           Task('second-near', second, where='cfABC', lum=(20000, 9000, 8000, 7000, 6000)),
           Task('second-two', second, where='cABCDEFGH', lum=(20000, 9000, 8000, 7000, 6000, 7500, 6500, 5500, 5000)),
           Task('second-split', second, where='cABEF', lum=(20000, 9000, 8000, 7000, 6000)),
           Task('second-five', second, where='cABCDE', lum=(20000, 9000, 8000, 7000, 6000, 12000)),
           Task('second-lum', second, where='cABCD', lum=(20000, N, 8000, 7000, 6000), oga=(.00001, .00002, .00003, .00004, .00005)),
           Task('second-lum2', second, where='cABCDE', lum=(20000, N, 8000, 7000, N, 5000), oga=(.00001, .00002, .00003, .00004, .00005, .00006)),
           Task('second-radius', second, where='cABCD', lum=(20000, 9000, 8000, 7000, 6000), peakrad=1.),
           Task('second-wide', second, where='cABCDEFGH', lum=(20000, 9000, 8000, 7000, 6000, 7500, 6500, 5500, 5000), peakrad=8.),
           Task('second-scale', second, where='cABCD', lum=(20000, N, 8000, 7000, 6000), oga=(.00001, .00002, .00003, .00004, .00005), scale=179, peakt=2e5)]
    return ts
