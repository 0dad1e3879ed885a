"""C36: the functions of the packaged Radiance library do what their names say"""
from symx.api import Task
from symx.cal import Cal, library

FUNCTIONS = ['raytools/cal/rayinit.cal:' + k for k in (
    'bound', 'Acos', 'Asin', 'Atan2', 'Exp', 'Sqrt', 'and', 'or', 'not', 'xor', 'abs', 'sgn', 'sq', 'inside', 'frac', 'mod', 'tri', 'linterp', 'noop',
    'clip', 'noneg', 'red', 'green', 'blue', 'grey', 'clip_r', 'clip_g', 'clip_b', 'clipgrey', 'dot', 'cross', 'fade', 'hermite', 'bezier', 'bspline',
    'D', 'N', 'P', 'un2', 'un1', 'unif2norm')]
BOUNDS = 'every argument in [-50, 50] ([-12, 12] for periodic functions, colours and parameters in [-2, 3], probabilities in [0.001, 0.999])'
OUTSIDE = ('floating-point rounding; noise, turbulence and local coordinates of surfaces; the evaluator of Radiance expressions is modelled (parsed '
           'from their text) and compared with rcalc for every witness')


def cal(env, **v):
    return Cal(env, library(), **v)


def clamp(env, a, x, b):
    return a if bool(x < a) else b if bool(x > b) else x


def limits(env):
    a, x = env.real('a', -50, 50), env.real('x', -50, 50)
    b = a + env.real('w', 0, 50)
    y = env.real('y', -2, 3)
    r = cal(env, qa=a, qx=x, qb=b, qy=y).get('bound(qa,qx,qb)', 'clip(qx)', 'noneg(qx)', 'noop(qx)', 'clip_r(qy,qa,qb)', 'clip_g(qa,qy,qb)', 'clip_b(qa,qb,qy)')
    z, o = env.num(0), env.num(1)
    env.close('bound', r[0], clamp(env, a, x, b))
    env.close('clip', r[1], clamp(env, z, x, o))
    env.close('noneg', r[2], x if bool(x > 0) else 0)
    env.close('noop', r[3], x)
    env.close('channels', r[4:], [clamp(env, z, y, o)] * 3)


def logic(env):
    a, b = env.real('a', -50, 50), env.real('b', -50, 50)
    for q in (a, b):
        env.assume((q > 1e-6) | (q < -1e-6))
    x, y = bool(a > 0), bool(b > 0)
    r = cal(env, qa=a, qb=b).get('and(qa,qb)', 'or(qa,qb)', 'not(qa)', 'xor(qa,qb)', 'abs(qa)', 'sgn(qa)', 'sq(qa)', 'sgn(0)', 'abs(0)', 'not(0)')
    for n, g, w in (('and', r[0], x and y), ('or', r[1], x or y), ('not', r[2], not x), ('xor', r[3], x != y)):
        env.check(n, (g > 0) if w else (g <= 0))
    env.close('abs', r[4], a if x else -a)
    env.close('sgn', r[5], 1 if x else -1)
    env.close('sq', r[6], a * a, tol=1e-8)
    env.close('zero', r[7:9], [0, 0])
    env.check('not of zero', r[9] > 0)


def between(env):
    a, b, x = env.real('a', -50, 50), env.real('b', -50, 50), env.real('x', -50, 50)
    for q in (a, b):
        env.assume((q > x + 1e-6) | (q < x - 1e-6))
    i, = cal(env, qa=a, qb=b, qx=x).get('inside(qa,qx,qb)')
    env.check('inside', (i > 0) if bool((a < x) & (x < b)) else (i <= 0))


def periods(env, d):
    np = env.np
    n = env.real('n', -12, 12)
    k = np.floor(n / d)
    for q, w in ((n, d), (n, 1), (n - d, 2 * d)):
        f = q / w - np.floor(q / w)
        env.assume((f > 1e-6) & (f < 1 - 1e-6))
    m, f, t, f2 = cal(env, qn=n, qd=env.num(d)).get('mod(qn,qd)', 'frac(qn)', 'tri(qn,qd)', 'frac(-qn)')
    env.close('mod', m, n - k * d, tol=1e-8)
    env.le('mod', 0, m)
    env.le('mod', m, d)
    env.close('frac', f, n - np.floor(n), tol=1e-8)
    env.close('frac', f2, 1 - f, tol=1e-8)
    p = np.floor(n / (2 * d)) * (2 * d)
    q = n - p
    env.close('triangle from 0 to d and back', t, q if bool(q < d) else 2 * d - q, tol=1e-8)


def curves(env):
    p = [env.real(f'p{i}', -50, 50) for i in range(4)]
    t, u = env.real('t', -2, 3), env.real('u', 0, 1)
    c = cal(env, qa=p[0], qb=p[1], qc=p[2], qd=p[3], qt=t, qu=u)
    r = c.get('linterp(qt,qa,qb)', 'hermite(qa,qb,qc,qd,qt)', 'bezier(qa,qb,qc,qd,qt)', 'bspline(qa,qb,qc,qd,qt)', 'fade(qa,qb,qu)', 'fade(qa,qb,17)',
              'bspline(qa,qa,qa,qa,qt)', 'bezier(qa,qa,qa,qa,qt)')
    s = 1 - t
    env.close('linterp', r[0], s * p[0] + t * p[1], tol=1e-7)
    env.close('hermite', r[1], p[0] * (1 + 2 * t) * s * s + p[1] * t * t * (3 - 2 * t) + p[2] * t * s * s - p[3] * t * t * s, tol=1e-6)
    env.close('bezier', r[2], p[0] * s ** 3 + 3 * p[1] * t * s * s + 3 * p[2] * t * t * s + p[3] * t ** 3, tol=1e-6)
    w = [s ** 3, 3 * t ** 3 - 6 * t * t + 4, -3 * t ** 3 + 3 * t * t + 3 * t + 1, t ** 3]
    env.close('bspline', r[3], sum(a * b for a, b in zip(p, w)) / 6, tol=1e-6)
    env.close('fade', r[4], p[1] + (p[0] - p[1]) / (1 + u * u), tol=1e-7)
    env.close('fade far away', r[5], p[1])
    env.close('constant', r[6:], [p[0]] * 2, tol=1e-6)


def colours(env):
    r, g, b = [env.real(k, -2, 3) for k in 'rgb']
    c = cal(env, qr=r, qg=g, qb=b)
    o = c.get('grey(qr,qg,qb)', 'clipgrey(qr,qg,qb)', 'red(qr,qg,qb)', 'green(qr,qg,qb)', 'blue(qr,qg,qb)')
    y = .265074126 * r + .670114631 * g + .064811243 * b
    y = y if bool(y > 0) else env.num(0)
    env.close('grey', o[0], y, tol=1e-7)
    env.close('clipped', o[1], clamp(env, env.num(0), y, env.num(1)), tol=1e-7)
    env.close('channels', o[2:], [x if bool(x > 0) else 0 for x in (r, g, b)])


def vectors(env):
    a, b = [[env.real(f'{k}{i}', -9, 9) for i in range(3)] for k in 'ab']
    c = cal(env, Dx=a[0], Dy=a[1], Dz=a[2], Nx=b[0], Ny=b[1], Nz=b[2], Px=b[1], Py=b[2], Pz=b[0])
    r = c.get('dot(D,N)', 'cross(1,D,N)', 'cross(2,D,N)', 'cross(3,D,N)', 'dot(D,P)', 'D(2)', 'N(3)', 'P(1)')
    env.close('dot', r[0], sum(x * y for x, y in zip(a, b)), tol=1e-7)
    env.close('cross', r[1:4], [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], tol=1e-7)
    env.close('other', r[4:], [a[0] * b[1] + a[1] * b[2] + a[2] * b[0], a[1], b[2], b[1]], tol=1e-7)


def robust(env, lo, hi):
    np = env.np
    x = env.real('x', lo, hi)
    r = cal(env, qx=x).get('Acos(qx)', 'Asin(qx)', 'Sqrt(qx)')
    if lo >= 1:
        env.close('beyond', r[:2], [0, env.pi / 2], tol=1e-7)
    elif hi <= -1:
        env.close('beyond', r[:2], [env.pi, -env.pi / 2], tol=1e-7)
    else:
        env.close('arc cosine', np.cos(r[0]), x, tol=1e-6)
        env.close('arc sine', np.sin(r[1]), x, tol=1e-6)
        env.close('together', r[0] + r[1], env.pi / 2, tol=1e-6)
    env.close('root', r[2] * r[2], x if bool(x > 0) else 0, tol=1e-7)


def angle(env):
    np = env.np
    x, y = env.real('x', -9, 9), env.real('y', -9, 9)
    s = x * x + y * y
    env.assume(s > 1e-4)
    t, z = cal(env, qx=x, qy=y).get('Atan2(qy,qx)', 'Atan2(0,0)')
    r = np.sqrt(s)
    env.close('angle', [r * np.cos(t), r * np.sin(t)], [x, y], tol=1e-6)
    env.close('origin', z, 0)


def exponent(env):
    x = env.real('x', -99, 40)
    r = cal(env, qx=x).get('Exp(qx)', 'Exp(-101)', 'Exp(qx-300)')
    env.close('exponential', r[0] / env.np.exp(x), 1, tol=1e-6)
    env.close('underflow', r[1:], [0, 0])


def normal(env, lo, hi):
    """approximation of the normal quantile, odd about one half"""
    np = env.np
    p = env.real('p', lo, hi)
    r = cal(env, qp=p).get('unif2norm(qp)', 'unif2norm(1-qp)')
    env.close('odd', r[0], -r[1], tol=1e-6)
    t = np.sqrt(-2 * np.log(p if hi < .5 else 1 - p))
    q = t - (2.515517 + .802853 * t + .010328 * t * t) / (1 + 1.432788 * t + .189269 * t * t + .001308 * t * t * t)
    env.close('quantile', r[0], -q if hi < .5 else q, tol=1e-6)


def tasks(tier):
    f = dict(mode='float')
    return ([Task(n, g) for n, g in (('limits', limits), ('logic', logic), ('between', between), ('curves', curves), ('colours', colours), ('vectors', vectors))] +
            [Task(f'periods-{d}', periods, d=d) for d in (1, 3, 2.5, 18)] +
            [Task('angle', angle, **f), Task('exponent', exponent, **f), Task('normal-low', normal, lo=.001, hi=.499, **f), Task('normal-high', normal, lo=.501, hi=.999, **f)] +
            [Task(f'robust-{i}', robust, lo=a, hi=b, **f) for i, (a, b) in enumerate(((-.999, .999), (1, 50), (-50, -1)))])
