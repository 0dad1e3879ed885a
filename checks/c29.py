"""C29: converting picture files"""
import inspect
from symx.api import Task
from checks.rad import Picture, Radiance

FUNCTIONS = ['raytools.imagetools.' + k for k in ('hdr_uv2ang', 'hdr_ang2uv', 'hdr_solid2ang', 'hdr_rotate', 'array_uv2ang', 'array_ang2uv',
                                                  'array_solid2ang', 'array_rotate', 'hdr2vm')] + \
    ['raytools.io.hdr2carray', 'raytools.io.carray2hdr', 'raytools.io.CleanHeader', 'raytools.cli.project', 'raytools.cli.align', 'raytools.cli.solid2ang',
     'raytools.cli.cleanheader']
BOUNDS = ('every value of three channels of two pixels of pictures of 4x4 and 5x5 pixels (the others are constant); stated views, options, file names '
          'and headers of up to 5 lines; one or two pictures on the command line')
OUTSIDE = 'floating-point rounding; pvalue and getinfo (modelled); where each pixel belongs in the converted image is decided by C16 and C17'
LINES = ['rpict -x 3 -y 3', "pcomb -e 'ro = ri(1)' x.hdr", 'EXPOSURE=2.0']


def picture(env, n, lines, tag=''):
    rows = [[[.1 * (k + 1) + .05 * ((3 * x + 5 * y) % 7) for k in range(3)] for x in range(n)] for y in range(n)]
    for i, (y, x) in enumerate(((1, 2), (n - 2, 1))):
        rows[y][x] = [env.real(f'p{tag}{i}{k}', .1, 9) for k in range(3)]
    return Picture(lines, n, n, rows)


def as_array(env, pic):
    """(3, width, height), x to the right and y up"""
    return env.arr([[[pic.rows[pic.h - 1 - j][i][k] for j in range(pic.h)] for i in range(pic.w)] for k in range(3)])


def same_picture(env, pic, img):
    env.check('is a picture', isinstance(pic, Picture))
    n = img.shape[-1]
    env.check('three channels', tuple(img.shape) == (3, n, n))
    env.check('resolution', (pic.w, pic.h) == (n, n))
    for j in range(n):
        for i in range(n):
            env.close('pixel', pic.rows[n - 1 - j][i], [img[k, i, j] for k in range(3)], tol=1e-6, equal_nan=True)


def kept(env, pic, lines, view=None):
    """lines of the header, without views, in their order and once"""
    got = [' '.join(x.split()) for x in pic.lines if not x.startswith('pvalue')]
    want = [' '.join(x.split()) for x in lines if not x.startswith('VIEW')]
    env.check('header lines', [x for x in got if not x.startswith('VIEW') and x in want] == want)
    env.check('one view at most', sum(x.startswith('VIEW') for x in got) <= 1)
    if view:
        env.check('the view', [x for x in got if x.startswith('VIEW')] == [' '.join(view.split())])


def call(env, name, f, kw, cli):
    """the function, or the command with its arguments; output name"""
    it = env.m('imagetools')
    if cli is None:
        return getattr(it, name)(f, **kw)
    return command(env, cli[0], [f] if isinstance(f, str) else f, cli[1:])


def command(env, name, files, args, one=None):
    """what the command does with parsed options"""
    c = env.m('cli')
    cmd = getattr(c, name)
    for p in cmd.params:
        if p.name in ('img', 'imgs', 'dataf'):                                          # (otherwise looks for the files)
            env.setattr(p, 'callback', lambda ctx, par, v: list(files) if one is None else files[0])
    ctx = cmd.make_context(name, list(args) + [' '.join(files)])
    env.setattr(c, 'pool_call', lambda f, a, *fixed, cap=None, expandarg=True, desc='', workers=True, pbar=True, **k:
                [f(*x, *fixed, **k) if expandarg else f(x, *fixed, **k) for x in a])
    return inspect.unwrap(cmd.callback)(ctx, **ctx.params)


def expected(env, name, im, kw, view):
    it, mp = env.m('imagetools'), env.m('mapper')
    if name == 'hdr_uv2ang':
        return it.array_uv2ang(im)
    if name == 'hdr_ang2uv':
        vm = mp.ViewMapper((0, 1., 0), 180)
        if view and kw.get('useview', True):
            vm = mp.ViewMapper(view[0], view[1])
        return it.array_ang2uv(im, vm)
    if name == 'hdr_rotate':
        return it.array_rotate(im, kw.get('rotate', 0.), kw.get('center'), rotate_first=kw.get('rotate_first', True), nearest=kw.get('nearest', False))
    va = kw.get('viewangle') or (view[1] if view else 180)
    a, b = mp.SolidViewMapper(viewangle=va), mp.ViewMapper(viewangle=va)
    if kw.get('reverse'):
        a, b = b, a
    return a.transform_to(im, b, nearest=kw.get('nearest', False))


def case(env, func, n, suffix, view=None, kw=None, names=('a.hdr',), out=None, stdout=False, cli=None, proj='vta'):
    kw = dict(kw or {})
    lines = list(LINES)
    if view:
        lines.insert(1, 'VIEW= -{} -vd {} {} {} -vh {} -vv {}'.format(proj, *view[0], view[1], view[1]))
    pics = {f: picture(env, n, lines, str(i) if i else '') for i, f in enumerate(names)}
    rad = Radiance(env, pics).install()
    more = dict(kw)
    if out:
        more['outf'] = out
    if stdout:
        more['stdout'] = True
    r = call(env, func, names[0] if len(names) == 1 and cli is None else list(names), more, cli)
    for f, p in pics.items():
        want = f.rsplit('.', 1)[0] + suffix if out is None else out
        if cli is None:
            env.check('name of the output', r is None if stdout else r == want)
        if not stdout:
            env.check('output', want in rad.files)
            if want not in rad.files:
                return
        q = rad.stdout if stdout else rad.files[want]
        same_picture(env, q, expected(env, func, as_array(env, p), kw, view))
        kept(env, q, lines)
        env.check('input is kept', rad.files[f] is p or want == f)
        if func == 'hdr_solid2ang' and not stdout:
            env.check('type of the view', any(x.startswith('VIEW= -vts ' if kw.get('reverse') else 'VIEW= -vta ') for x in q.lines))
            if kw.get('reverse'):
                q.lines = [x.replace('-vts', '-vta') for x in q.lines]
            vm = env.m('imagetools').hdr2vm(want)
            env.check('has a view', vm is not None)
            env.close('view angle of the output', vm.viewangle, kw.get('viewangle') or (view[1] if view else 180), tol=1e-9)
    env.check('nothing else is written', len(rad.files) == len(pics) + (0 if stdout or out in pics else len(pics)))


def there_and_back(env, va):
    """an angular picture to equisolid and back without being told the view"""
    p = picture(env, 4, [f'VIEW= -vta -vd 0 1 0 -vh {va} -vv {va}'])
    rad = Radiance(env, {'a.hdr': p}).install()
    it, mp = env.m('imagetools'), env.m('mapper')
    out = it.hdr_solid2ang(it.hdr_solid2ang('a.hdr', reverse=True))
    a, b = mp.ViewMapper(viewangle=va), mp.SolidViewMapper(viewangle=va)
    same_picture(env, rad.files[out], b.transform_to(a.transform_to(as_array(env, p), b), a))
    env.close('view angle of the output', it.hdr2vm(out).viewangle, va, tol=1e-9)


def clean(env, n):
    lines = LINES + ['VIEW= -vta -vd 0 1 0 -vh 90 -vv 90', 'pfilt -x 4', 'VIEW= -vta -vd 1 0 0 -vh 80 -vv 80']
    p = picture(env, n, lines)
    rad = Radiance(env, {'a.hdr': p}).install()
    command(env, 'cleanheader', ['a.hdr'], [], one=True)
    same_picture(env, rad.stdout, as_array(env, p))
    kept(env, rad.stdout, lines, lines[-1])


def tasks(tier):
    ts = []

    def T(key, name, suffix, **k):
        k.setdefault('n', 4)
        ts.append(Task(f'{name[4:]}-{key}', case, func=name, suffix=suffix, mode='float', **k))
    V = ((0., 1., 0.), 180.)
    N = ((0., 1., 0.), 90.)
    X = ((1., -1., 0.), 120.)
    for i, (name, suffix, cli) in enumerate((('hdr_uv2ang', '_ang.hdr', ('project', '--uv2ang')), ('hdr_ang2uv', '_uv.hdr', ('project',)),
                                             ('hdr_solid2ang', '_2vta.hdr', ('solid2ang', '--no-stdout')), ('hdr_rotate', '.hdr', None))):
        for k, v in (('none', None), ('180', V), ('90', N), ('x', X)):
            T(k, name, suffix, view=v, out='o.hdr' if name == 'hdr_rotate' else None)
            if cli:
                T(f'cli-{k}', name, suffix, view=v, cli=cli)
        T('out', name, suffix, view=V, out='b.hdr')
        T('replace', name, suffix, view=V, out='a.hdr')
        T('stdout', name, suffix, view=N, stdout=True)
        T('5', name, suffix, view=N, n=5, out='b.hdr')
        T('names', name, suffix, view=V, names=("b c/it's 1.5.hdr",), out='x y.hdr')
        if name != 'hdr_rotate':
            T('dots', name, suffix, view=V, names=('b c/a.b.hdr',))
        if cli:
            T('cli-two', name, suffix, view=N, names=('a.hdr', 'b.hdr'), cli=cli)
            c = [x for x in cli if x != '--no-stdout'] + ([] if name == 'hdr_solid2ang' else ['--stdout'])
            T('cli-stdout', name, suffix, view=N, stdout=True, cli=c)
    for u in (0, 1):
        for v in (None, N):
            T(f'useview-{u}-{v is not None}', 'hdr_ang2uv', '_uv.hdr', view=v, kw=dict(useview=bool(u)))
    T('cli-noview', 'hdr_ang2uv', '_uv.hdr', view=N, kw=dict(useview=False), cli=('project', '--no-useview'))
    T('cli-view', 'hdr_ang2uv', '_uv.hdr', view=N, kw=dict(useview=True), cli=('project', '--ang2uv', '--useview'))
    for rev in (0, 1):
        for near in (0, 1):
            for va in (None, 60., 120., 180.):
                for v in (None, N, V):
                    if va == 180 and v is V or v is V and not va:
                        continue
                    kw = dict(reverse=bool(rev), nearest=bool(near))
                    if va:
                        kw['viewangle'] = va
                    T(f'{rev}-{near}-{va}-{v and v[1]}', 'hdr_solid2ang', '_2vts.hdr' if rev else '_2vta.hdr', view=v, kw=kw)
                    if v is N:
                        a = ['solid2ang', '--no-stdout'] + ['--reverse'] * rev + ['--nearest'] * near + ([f'-viewangle', str(va)] if va else [])
                        T(f'cli-{rev}-{near}-{va}', 'hdr_solid2ang', '_2vts.hdr' if rev else '_2vta.hdr', view=v, kw=kw, cli=a)
    for i, (kw, s, a) in enumerate(((dict(rotate=30.), '_r30.hdr', ('-rotate', '30')), (dict(rotate=5), '_r05.hdr', ('-rotate', '5')),
                                    (dict(center=(1, 2)), '_1-2.hdr', ('-center', '1 2')),
                                    (dict(rotate=90., center=(2, 1)), '_r90_2-1.hdr', ('-rotate', '90', '-center', '2 1')),
                                    (dict(rotate=90., center=(2, 1), rotate_first=False), '_2-1_r90.hdr', ('-rotate', '90', '-center', '2 1', '--center-first')),
                                    (dict(rotate=90., center=(2, 1), rotate_first=False, nearest=True), '_2-1_r90.hdr',
                                     ('-rotate', '90', '-center', '2 1', '--center-first', '--nearest')),
                                    (dict(rotate=60., nearest=True), '_r60.hdr', ('-rotate', '60', '--nearest', '--rotate-first')),
                                    (dict(center=(1, 1, 2, 1)), '_1-1.hdr', ('-center', '1 1 2 1')),
                                    (dict(rotate=45., center=(1, 1, 2, 1)), '_r45_1-1.hdr', ('-rotate', '45', '-center', '1 1 2 1')))):
        T(f'{i}', 'hdr_rotate', s, kw=kw, view=V)
        T(f'{i}-out', 'hdr_rotate', s, kw=kw, view=N, n=5, out='c.hdr')
        T(f'cli-{i}', 'hdr_rotate', s, kw=kw, view=V, cli=('align',) + a)
        if i in (0, 3, 4):
            T(f'cli-two-{i}', 'hdr_rotate', s, kw=kw, view=V, names=('a.hdr', 'b.hdr'), cli=('align',) + a)
            T(f'cli-stdout-{i}', 'hdr_rotate', s, kw=kw, view=V, stdout=True, cli=('align', '--stdout') + a)
    for n in (1, 2, 3, 4):
        ts.append(Task(f'clean-{n}', clean, n=n if n > 2 else n + 4))
    for va in (180., 120., 60.):
        ts.append(Task(f'there-and-back-{int(va)}', there_and_back, va=va, mode='float'))
        for c in (None, ('solid2ang', '--no-stdout')):
            T(f'vts-{c is None}-{int(va)}', 'hdr_solid2ang', '_2vta.hdr', view=(V[0], va), proj='vts', cli=c)
    return ts
