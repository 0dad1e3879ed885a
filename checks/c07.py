"""C07: specular reflection"""
from symx.api import Task
from checks.util import fib_dirs, dot

FUNCTIONS = ['raytools.translate.reflect']
BOUNDS = ('every pair of a unit ray and a unit normal, alone and among other rays and normals (up to 3 x 3); '
          'every ray of a length outside 1 +- 2e-5 for the validity mask')
OUTSIDE = 'floating-point rounding; lengths within 2e-5 of one in the mask'


def refl(env, nr=1, nn=1, pr=0, pn=0, masked=False):
    tr, np = env.m('translate'), env.np
    if nr * nn > 4:
        r = [.48, -.6, .64]
    else:
        r = env.unit('rx', 'ry', 'rz')
    n = env.unit('nx', 'ny', 'nz')
    cr, cn = fib_dirs(nr - 1) if nr > 1 else [], fib_dirs(nn - 1) if nn > 1 else []
    rs, nrm = [list(x) for x in cr], [list(x) for x in cn]
    rs.insert(pr, list(r))
    nrm.insert(pn, list(n))
    if masked:
        out = tr.reflect(env.arr(rs), env.arr(nrm), returnmasked=True)
        env.shape('masked', out, (nr * nn, 3))
        out = out.reshape(nr, nn, 3)
    else:
        out, ok = tr.reflect(env.arr(rs), env.arr(nrm))
        shp = (nn,) if nr == 1 else (nr, nn)
        env.shape('reflected', out, shp + (3,))
        env.shape('mask', ok, shp)
        env.check('unit rays are valid', ok)
        out = out.reshape(nr, nn, 3)
    env.observe('r', out[pr, pn])
    for i in range(nr):
        for j in range(nn):
            o = [out[i, j, k] for k in range(3)]
            env.close('length is kept', dot(o, o), dot(rs[i], rs[i]))
            env.close('mirror the normal component', dot(o, nrm[j]), -dot(rs[i], nrm[j]))
            a, b = dot(o, nrm[j]), dot(rs[i], nrm[j])
            env.close('keep the tangential component', [o[k] - a * nrm[j][k] for k in range(3)],
                      [rs[i][k] - b * nrm[j][k] for k in range(3)])


def twice(env):
    """an involution"""
    tr = env.m('translate')
    r, n = env.unit('rx', 'ry', 'rz'), env.unit('nx', 'ny', 'nz')
    a, _ = tr.reflect(env.arr([r]), env.arr([n]))
    env.close('once', a[0], [r[k] - 2 * n[k] * dot(r, n) for k in range(3)])
    b, _ = tr.reflect(a, env.arr([n]))
    env.close('twice', b[0], r)


def mask(env, masked=False):
    """rays that are not unit vectors are flagged"""
    tr, np = env.m('translate'), env.np
    n = env.unit('nx', 'ny', 'nz')
    k = env.real('k', 0, 3)
    env.assume((k > 1.00002) | (k < .99998))
    r = [[.6, 0., .8], [k * .6, 0., k * .8], [0., 0., 0.]]
    if masked:
        out = tr.reflect(env.arr(r), env.arr([n]), returnmasked=True)
        env.shape('only the valid ones', out, (1, 3))
        d = dot(r[0], n)
        env.close('value', out[0], [r[0][c] - 2 * n[c] * d for c in range(3)])
    else:
        out, ok = tr.reflect(env.arr(r), env.arr([n]))
        env.same('mask', ok.ravel(), [True, False, False])


def tasks(tier):
    return [Task('refl', refl), Task('refl-masked', refl, masked=True), Task('twice', twice),
            Task('rays', refl, nr=3, pr=1, mode='float'), Task('normals', refl, nn=3, pn=2, mode='float'),
            Task('both', refl, nr=2, nn=2, pr=1, pn=0, mode='float'), Task('both3', refl, nr=3, nn=3, pr=1, pn=2, mode='float'),
            Task('both-masked', refl, nr=3, nn=3, pr=1, pn=2, masked=True, mode='float'),
            Task('mask', mask), Task('mask-masked', mask, masked=True)]
