"""C31: glare sensation of a picture does not depend on what was computed before"""
from symx.api import Task
from checks.rad import Picture, Radiance

FUNCTIONS = ['raytools.evaluate.hvsgsm.GSS.' + k for k in (
    '__init__', 'lum', 'vm', 'adapt', 'compute', 'glare_response', 'sigma_c', 'pupil', 'retinal_irradiance', 'psf_coef', 'prep_kernel',
    'apply_psf', 'apply_eye_movement_1', 'apply_eye_movement_2', 'local_eye_adaptation', 'cone_response', 'field_response',
    'normalized_field_response', 'gss')]
FUNCTIONS += ['raytools.evaluate.hvsgsm.gss_compute', 'raytools.evaluate.hvsgsm.process_gss']
BOUNDS = ('every luminance in stated ranges of one or two pixels of each of up to 3 pictures of 6 to 10 pixels width; all sequences '
          'of two or three of: load a picture (same or other size), set a view, compute (with or without given illuminance, saving, '
          'arrays), in stated orders; every combination of the blur options')
OUTSIDE = ('floating-point rounding; gaussian_filter is replaced by another smoothing that depends on picture, width and cutoff; processes '
           'and pickling of gss_compute (its results are collected in order by pool_call: C27)')


def smooth(env):
    """names for intermediate results; gaussian_filter is some smoothing that depends on picture, width and cutoff"""
    hv = env.m('evaluate.hvsgsm')
    if not env.symbolic:
        return
    conv, pupil = hv.convolve, getattr(hv.GSS, 'pupil', None)
    np = env.np

    def blur(x, sigma, *a, **k):
        assert not a and set(k) <= {'truncate'}
        m = env.cut(np.sum(x) / x.size)
        t = k.get('truncate', 4.0)
        w = env.cut(1 / (1 + sigma + t * .01), 1e-6, 1)
        v = env.cut(sigma / (1 + sigma + t * .01), 1e-6, 1)
        return env.cut(x * w + v * m)

    def window(x, k, *a, **kw):
        return env.cut(conv(env.cut(x), env.cut(k), *a, **kw))
    env.setattr(hv, 'gaussian_filter', blur)
    env.setattr(hv, 'convolve', window)
    coef = getattr(hv.GSS, 'psf_coef', None)
    if coef is not None:
        env.setattr(hv.GSS, 'psf_coef', lambda self, pd: tuple([env.cut(x) for x in q] for q in coef(self, pd)))
    cone = getattr(hv.GSS, 'cone_response', None)
    if cone is not None:
        env.setattr(hv.GSS, 'cone_response', staticmethod(lambda *a: env.cut(cone(*a), 0, 1)))
    if pupil is not None:
        env.setattr(hv.GSS, 'pupil', lambda self, ev: tuple(env.cut(x, 1, 60) for x in pupil(self, ev)))


def pictures(env, spec, sym='abcd'):
    files = {}
    for name, w, view, k in spec:
        px = [[[.5 + .1 * ((i * 7 + j * 3 + k) % 5)] * 3 for i in range(w)] for j in range(w)]
        q = env.real('p' + name, 20, 400) if name in sym else 90 + 70 * k
        px[w // 2][w // 2 - k % 2] = [q, q, q]
        files[name + '.hdr'] = Picture(['VIEW= -vta ' + view] if view else ['rpict'], w, w, px)
    return Radiance(env, files).install()


V1, V2 = '-vd 0 1 0 -vh 180 -vv 180', '-vd 1 0 0 -vh 180 -vv 180'
ATTR = ('res', 'vecs', 'omega', 'mask', 'ctheta', 'sigma_c', 'ecc', 'lum')


def state(env, g):
    np = env.np
    return {k: np.ravel(np.asarray(getattr(g, k))) for k in ATTR}


def score(env, steps, kw=None, sym='abcd', angle=180):
    """the steps on one instance against a fresh instance for every picture"""
    hv, mp = env.m('evaluate.hvsgsm'), env.m('mapper')
    smooth(env)
    v1, v2 = (v.replace('180', str(angle)) for v in (V1, V2))
    rad = pictures(env, (('a', 6, v1, 0), ('b', 6, v1, 1), ('c', 8, v1, 2), ('d', 6, v2, 3)), sym)
    kw = dict(dict(fwidth=40), **(kw or {}))
    # the score is compared before the root and the correction
    views = {'y': (0, 1., 0), 'x': (1., 0, 0)}
    g = None
    view = None
    img = None
    for s in steps:
        op, arg = s[0], s[1] if len(s) > 1 else None
        if op == 'new':
            g = hv.GSS(arg + '.hdr', **kw)
            view, img = None, arg
            init = arg
        elif op == 'newview':
            g = hv.GSS(mp.ViewMapper(views[arg], angle), **kw)
            view, img = arg, None
        elif op == 'view':
            g.vm = mp.ViewMapper(views[arg], angle)
            view = arg
        elif op == 'viewfile':
            g.vm = arg + '.hdr'
            view = {'d': 'x'}.get(arg, 'y')
        elif op == 'write':
            # the file gets the content of another one
            rad.files[arg + '.hdr'] = rad.files[s[2] + '.hdr']
        elif op == 'load':
            g.lum = arg + '.hdr'
            img = arg
        elif op == 'compute':
            f = hv.GSS(mp.ViewMapper(views[view or ('x' if init == 'd' else 'y')], angle), **kw)
            f.lum = img + '.hdr'
            env.close('adaptation', g.adapt(), f.adapt(), tol=1e-9, ctol=2e-10)
            ck = {}
            ev = s[2] if len(s) > 2 else None
            if ev is not None:
                ck['ev_eye'] = ev
            if arg == 'save':
                r = g.compute(save='out.hdr', **ck)
                pic = rad.files['out.hdr']
                _, arrs = f.glare_response(f.lum, *f.adapt(ev), return_arrays=True)
                x = arrs['08_response_log']
                n = f.res
                env.close('saved response', [pic.rows[n - 1 - j][i][k] for k in range(3) for i in range(n) for j in range(n)],
                          env.np.ravel(x), tol=1e-6)
            elif arg == 'arrays':
                r1, a1 = g.glare_response(g.lum, *g.adapt(ev), return_arrays=True)
                r2, a2 = f.glare_response(f.lum, *f.adapt(ev), return_arrays=True)
                env.check('same arrays', sorted(a1) == sorted(a2))
                for k in a1:
                    env.close(k, env.np.ravel(a1[k]), env.np.ravel(a2[k]), tol=1e-9, ctol=2e-10)
                r = g.compute(**ck)
            else:
                r = g.compute(**ck)
            env.close('score', r, f.compute(**ck), tol=1e-9, ctol=2e-10)
            a, b = state(env, g), state(env, f)
            for k in ATTR:
                env.close(k, a[k], b[k], tol=1e-9, ctol=2e-10)


def batch(env, names, illums=None, kw=None, **opt):
    hv, mp = env.m('evaluate.hvsgsm'), env.m('mapper')
    smooth(env)
    rad = pictures(env, (('a', 6, V1, 0), ('b', 6, V1, 1), ('c', 8, V1, 2), ('d', 6, V2, 3)))

    def pool(func, args, *fixed, cap=None, expandarg=True, desc='', workers=True, pbar=True, context='fork', **k):
        return [func(*a, *fixed, **k) if expandarg else func(a, *fixed, **k) for a in args]
    env.setattr(hv, 'pool_call', pool)
    kw = dict(dict(fwidth=40), **(kw or {}))
    made = []
    env.setattr(hv, 'cst', type('C', (), {'try_mkdir': staticmethod(made.append)}))
    r = hv.gss_compute([n + '.hdr' for n in names], illums, **opt, **kw)
    env.check('one score each', len(r) == len(names))
    for i, n in enumerate(names):
        f = hv.GSS(mp.ViewMapper((0, 1., 0), 180), **kw)
        f.lum = n + '.hdr'
        env.close('score', r[i], f.compute(ev_eye=illums[i] if illums else None), tol=1e-9, ctol=2e-10)
    saved = {(opt.get('outdir') + '/' if opt.get('outdir') else '') + n + opt.get('suffix', '_rg.hdr') for n in names} if opt.get('save') else set()
    env.check('files written', set(rad.files) - {'a.hdr', 'b.hdr', 'c.hdr', 'd.hdr'} == saved)
    env.check('directory', made == ([opt['outdir']] if opt.get('outdir') and opt.get('save') else []))


def given(steps):
    return [(q[0], q[1] if len(q) > 1 else None, 3000. * (1 + i) if i % 3 else 20.) if q[0] == 'compute' else q for i, q in enumerate(steps)]


def tasks(tier):
    f = dict(mode='float')
    S = {'two': [('new', 'a'), ('compute',), ('load', 'b'), ('compute',)],
         'back': [('new', 'a'), ('compute',), ('load', 'b'), ('compute',), ('load', 'a'), ('compute',)],
         'twice': [('new', 'a'), ('compute',), ('compute',), ('load', 'a'), ('compute',)],
         'size': [('new', 'a'), ('compute',), ('load', 'c'), ('compute',), ('load', 'b'), ('compute',)],
         'load': [('newview', 'y'), ('load', 'a'), ('load', 'c'), ('compute',)],
         'view': [('new', 'a'), ('compute',), ('view', 'x'), ('load', 'a'), ('compute',)],
         'view-size': [('new', 'c'), ('view', 'x'), ('load', 'b'), ('compute',), ('view', 'y'), ('load', 'b'), ('compute',)],
         'viewfile': [('new', 'a'), ('compute',), ('viewfile', 'd'), ('load', 'b'), ('compute',)],
         'other': [('new', 'd'), ('compute',), ('load', 'a'), ('compute',)],
         'given': [('new', 'a'), ('compute', None, 500.), ('compute',), ('load', 'b'), ('compute',), ('compute', None, 600.)],
         'saved': [('new', 'a'), ('compute', 'save'), ('compute',), ('load', 'b'), ('compute', 'save')],
         'rewritten': [('new', 'a'), ('compute',), ('write', 'a', 'b'), ('load', 'a'), ('compute',)],
         'rewritten-size': [('new', 'a'), ('load', 'b'), ('compute',), ('write', 'b', 'c'), ('load', 'b'), ('compute',), ('write', 'b', 'a'), ('load', 'b'), ('compute',)],
         'arrays': [('new', 'a'), ('compute', 'arrays'), ('compute',), ('load', 'c'), ('compute', 'arrays')]}
    ts = []
    B = [(p, a, d) for p in (True, False) for a in (True, False) for d in (True, False)]
    for n, s in S.items():
        for p, a, d in (B if n in ('two', 'arrays') else ((True, True, True), (False, False, False))):
            if p:
                s = given(s)
            ts.append(Task(f'{n}-{int(p)}{int(a)}{int(d)}', score, steps=s, kw=dict(psf=p, adaptmove=a, directmove=d), **f))
    ts += [Task('raw', score, steps=S['two'], kw=dict(raw=True, psf=False), **f), Task('age', score, steps=S['size'], kw=dict(age=70, pigmentation=.16, f=17, scale=100, psf=False), **f),
           Task('age-given', score, steps=given(S['size']), kw=dict(age=70, pigmentation=.16, f=17, scale=100), **f),
           Task('narrow', score, steps=given(S['size']), kw=dict(fwidth=60), **f)]
    for n in ('two', 'size', 'view', 'viewfile', 'arrays', 'load', 'given'):
        for p, a, d in ((1, 1, 1), (0, 1, 1), (0, 0, 1), (1, 1, 0)):
            ts.append(Task(f'narrow-{n}-{p}{a}{d}', score, angle=3, steps=given(S[n]) if p else S[n], kw=dict(psf=bool(p), adaptmove=bool(a), directmove=bool(d), fwidth=2), **f))
    for i, o in enumerate((dict(), dict(save=True), dict(save=True, outdir='o', suffix='_x.hdr'), dict(outdir='o'), dict(illums=[300., 700., 500.]))):
        ts.append(Task(f'batch-{i}', batch, names='abc'[::1 if i % 2 else -1], **o, kw=dict(psf=i == 4), **f))
    ts.append(Task('batch-options', batch, names='ba', kw=dict(psf=False, adaptmove=False, directmove=False), **f))
    return ts
