"""C34: the metric and smooth commands"""
import numpy
from symx.api import Task
from checks.c24 import away
from checks.c29 import command
from checks.rad import Picture, Radiance, WEIGHTS

FUNCTIONS = ['raytools.cli.metric', 'raytools.cli.smooth', 'raytools.imagetools.imgmetric', 'raytools.evaluate.MetricSet.__call__', 'raytools.translate.non_uniform_gaussian_filter']
BOUNDS = ('every value of one pixel of each of one to three pictures of 5x5 pixels; every value of one datum of tables of 5 rows; stated metrics, '
          'options and columns')
OUTSIDE = ('digits beyond the sixth; the distribution over processes (C27), the metrics of a picture (C24), the glare sensation of a picture (C31) and the '
           'filter (C10) are decided there; density estimates (scipy gaussian_kde)')
DEFAULT = dict(peakn=True, peaka=6.7967e-05, peakt=1e5, peakr=4.0, threshold=2000., scale=179., lumrgb=None, blursun=False, lowlight=False)
FLAG = dict(peakn=('--peakn', '--no-peakn'), blursun=('--blursun', '--no-blursun'), lowlight=('--lowlight', '--no-lowlight'))


def picture(env, i, hi):
    px = [[[1. + .1 * (3 * x + y + i), 2. - .05 * x, .5 + .02 * y] for x in range(5)] for y in range(5)]
    px[2][1] = [env.real(f'a{i}', hi * .9, hi), hi * .8, hi * .7]
    px[0][0] = [50., 60. + i, 70.]
    return Picture(['VIEW= -vta -vd 0 1 0 -vh 180 -vv 180'], 5, 5, px)


def output(env, name, files, args, one=None):
    out = []
    env.setattr(env.m('cli'), 'print', lambda *a, sep=' ', end='\n', file=None, **k: out.append(sep.join(format(x, '') if not isinstance(x, str) else x for x in a) + end) if file is None else None)
    command(env, name, files, args, one)
    return ''.join(out).splitlines()


def table(env, names, n=1, opts=None, args=None, hi=500., files=None):
    files = files or [f'a{i}.hdr' for i in range(n)]
    pics = {f: picture(env, i, hi) for i, f in enumerate(files)}
    Radiance(env, pics).install()
    opts = dict(opts or {})
    kw = dict(DEFAULT, **opts)
    if args is None:
        args = []
        for k, v in opts.items():
            args += [FLAG[k][0 if v else 1]] if k in FLAG else [f'-{k}', ' '.join(str(x) for x in v) if isinstance(v, tuple) else str(v)]
    if names is not None:
        args = ['-metrics', ' '.join(names)] + list(args)
    w = kw['lumrgb'] or WEIGHTS
    if kw['threshold'] > 100:
        for p in pics.values():
            away(env, [sum(a * b for a, b in zip(w, p.rows[2][1])) * kw['scale']], kw['threshold'])
    sens = {}

    def gss(imgs, vm=None, psf=True, adaptmove=True, directmove=True, age=40, save=False, *a, **k):
        kind = 'gss' if (psf, adaptmove, directmove) == (True, True, True) else 'gssnb' if (psf, adaptmove, directmove) == (False, False, False) else 'other'
        sens.setdefault('save', set()).add(bool(save))
        return [sens.setdefault((kind, f), env.real(f'g{kind}{i}', 0, 9)) for i, f in enumerate(imgs)]
    h = env.m('evaluate.hvsgsm')
    env.setattr(h, 'gss_compute', gss)
    rows = output(env, 'metric', files, args)
    names = names or ['illum', 'dgp', 'ugp']
    plain = [m for m in names if not m.startswith('gss')]
    last = [m for m in ('gss', 'gssnb') if m in names]
    labels = rows[0].split('\t')
    col = [m for m in plain for i in range(3 if m == 'irradiance' else 1)]
    env.check('labels', len(labels) == 1 + len(col) + len(last) and all(a == b or b == 'irradiance' and a.startswith(b) for a, b in zip(labels, ['image'] + col + last)))
    env.check('labels differ', len(set(labels)) == len(labels))
    env.check('one row for each picture', len(rows) == 1 + len(files))
    it = env.m('imagetools')
    for f, r in zip(files, rows[1:]):
        c = r.split('\t')
        env.check('picture of the row', c[0] == f)
        env.check('one value for each label', len(c) == len(rows[0].split('\t')))
        want = list(it.imgmetric(f, plain, **kw)) if plain else []
        want += [sens[m, f] for m in last]
        for x, y in zip(c[1:], want):
            size = 1. if x.startswith('@') or x in ('nan', 'inf') else max(1., abs(float(x)))     # numbers are printed with six digits
            env.close('values', env.float(x), y, tol=1e-5 * size, ctol=1e-5, equal_nan=True)


def save(env, flag):
    """pictures of glare sensation are kept on request"""
    got = []
    Radiance(env, {'a.hdr': picture(env, 0, 500.)}).install()
    x = env.real('x', 0, 9)

    def gss(imgs, vm=None, psf=True, adaptmove=True, directmove=True, age=40, save=False, *a, **k):
        got.append(bool(save))
        return [x for f in imgs]
    env.setattr(env.m('evaluate.hvsgsm'), 'gss_compute', gss)
    rows = output(env, 'metric', ['a.hdr'], ['-metrics', 'gssnb gss'] + (['--gssimage'] if flag else []))
    env.check('saved', got == [bool(flag)] * 2)
    env.close('value', env.float(rows[1].split('\t')[1]), x, tol=1e-5, ctol=1e-5)


def smooth(env, args, x=0, y=(1,), xout=None, sigma=None, sf=1., order=(0, 1, 2, 3, 4)):
    c, t = env.m('cli'), env.m('translate')
    data = [[0., 1., 5.], [1., env.real('d', 0, 4), 4.], [2., 3., 3.], [4., 1., 3.], [5., 2., 1.]]
    data = [data[i] for i in order]
    if x == 1:
        data = [[r[1], r[0], r[2]] for r in data]
    arr = env.arr(data)

    class Np:
        def __getattr__(self, n):
            return (lambda f, *a, **k: arr) if n == 'loadtxt' else getattr(env.np, n)
    env.setattr(c, 'np', Np())
    rows = output(env, 'smooth', ['d.txt'], args, one=True)
    pts = list(numpy.linspace(0, 5, 1000)) if xout is None else list(numpy.linspace(0, 5, xout)) if isinstance(xout, int) else list(xout)
    if sigma is None:
        sigma = float(numpy.sqrt(numpy.cov([0., 1., 2., 4., 5.]) * 5 ** -.4))
    want = t.non_uniform_gaussian_filter(env.arr([(0., 1., 2., 4., 5.)[i] for i in order]), env.arr([[r[k] for r in data] for k in y]), env.arr(pts), sigma=sigma * sf, bw=None)
    want = env.np.reshape(want, (len(y), len(pts)))
    env.check('a row for each x', len(rows) == len(pts))
    for j, r in enumerate(rows):
        v = [env.float(q) for q in r.split()]
        env.check('columns', len(v) == 1 + len(y))
        env.close('x', v[0], pts[j], tol=1e-6)
        env.close('y', v[1:], [want[i, j] for i in range(len(y))], tol=1e-6)


def tasks(tier):
    ts = []

    def T(key, names, **k):
        ts.append(Task(f'table-{key}', table, names=names, mode='float', **k))
    T('default', None)
    T('default-3', None, n=3)
    T('names', ['avglum'], files=["b c/it's.hdr", 'x.y.hdr'])
    M = ['illum', 'avglum', 'gcr', 'ugp', 'dgp', 'tasklum', 'backlum', 'dgp_t1', 'log_gc', 'dgp_t2', 'ugr', 'threshold', 'pwsl2', 'view_area',
         'backlum_true', 'srcillum', 'srcarea', 'maxlum']
    T('all', M, n=2)
    T('reversed', M[::-1])
    for m in M:
        T(f'one-{m}', [m], n=2)
    for i, m in enumerate((['gss'], ['gssnb'], ['gss', 'gssnb'], ['gssnb', 'gss'], ['illum', 'gss'], ['gss', 'illum'], ['gssnb', 'dgp', 'gss', 'illum'],
                           ['ugp', 'gssnb', 'avglum'])):
        for n in (1, 3):
            T(f'gss-{i}-{n}', m, n=n)
    P = ['illum', 'maxlum', 'dgp', 'srcillum', 'tasklum']
    for i, o in enumerate((dict(peakn=False), dict(peakn=True), dict(threshold=500.), dict(threshold=5.), dict(scale=100.), dict(lumrgb=(.2, .3, .5)),
                           dict(lowlight=True), dict(lowlight=False), dict(blursun=True), dict(blursun=False), dict(peaka=.001), dict(peakt=2e4), dict(peakr=2.),
                           dict(blursun=True, peakt=2e4, peakr=3., peaka=.01), dict(peakn=False, scale=1., threshold=100.5), dict(scale=17., lumrgb=(.5, .5, .5), lowlight=True))):
        for hi in (500., 2000.):
            T(f'opts-{i}-{int(hi)}', P, opts=o, n=1 + i % 2, hi=hi)
    T('serial', P, args=['--no-parallel'], n=2)
    T('parallel', P, args=['--parallel'], n=2)
    for i, n in enumerate((['illum', 'irradiance'], ['irradiance'], ['irradiance', 'gss', 'dgp', 'illum'])):
        T(f'irradiance-{i}', n, n=1 + i % 2)
    for f in (0, 1):
        ts.append(Task(f'save-{f}', save, flag=f))
    S = [(['-y', '1', '-x_out', '0 1.5 4'], dict(xout=(0., 1.5, 4.))), (['-y', '1', '-x_out', '6'], dict(xout=6)), (['-y', '1 2', '-x_out', '4'], dict(xout=4, y=(1, 2))),
         (['-y', '2 1', '-x_out', '1 2', '-sigma', '.5'], dict(xout=(1., 2.), y=(2, 1), sigma=.5)),
         (['-y', '2', '-x_out', '1 2', '-sigma', '.5', '-sf', '3'], dict(xout=(1., 2.), y=(2,), sigma=.5, sf=3.)),
         (['-y', '1', '-x_out', '5', '-sf', '.5'], dict(xout=5, sf=.5)), (['-x', '1', '-y', '0', '-x_out', '5'], dict(xout=5, x=1, y=(0,))),
         (['-x', '1', '-y', '2 0', '-x_out', '2 3', '-sigma', '2'], dict(xout=(2., 3.), x=1, y=(2, 0), sigma=2.))]
    for i, (a, k) in enumerate(S):
        ts.append(Task(f'smooth-{i}', smooth, args=a, mode='float', **k))
        ts.append(Task(f'smooth-order-{i}', smooth, args=a, mode='float', order=(2, 4, 0, 3, 1), **k))
    return ts
