"""C06: culling of near duplicates"""
from symx.api import Task

FUNCTIONS = ['raytools.translate.cull_vectors']
BOUNDS = ('every set of 2 or 3 points in space, of 4 and 5 points on a line (thorough: 6 on a line, 4 in a plane and in space), with every '
          'tolerance in [0.01, 2]; points given as an array or as a prebuilt tree')
OUTSIDE = 'floating-point rounding of distances; the kd-tree itself (scipy) is modelled by its contract'


def cull(env, n, dim, tree=False):
    tr = env.m('translate')
    t = env.real('tol', .01, 2)
    pts = []
    for i in range(n):
        p = [env.real(f'{c}{i}', -3, 3) for c in 'xyz'[:dim]]
        pts.append(p + [.25 * (k + 1) for k in range(3 - dim)])
    a = env.arr(pts)
    arg = tr.cKDTree(a) if tree else a
    keep = tr.cull_vectors(arg, t)
    env.shape('mask', keep, (n,))
    keep = [bool(k) for k in keep]

    def d2(i, j):
        return sum((pts[i][k] - pts[j][k]) * (pts[i][k] - pts[j][k]) for k in range(dim))
    env.check('first is kept', keep[0])
    for j in range(n):
        if keep[j]:
            for i in range(j):
                if keep[i]:
                    env.le('kept ones are farther apart than the tolerance', t * t, d2(i, j))
        else:
            c = False
            for i in range(j):
                if keep[i]:
                    c = (d2(i, j) <= t * t + 1e-7) | c
            env.check('culled ones have a kept predecessor within the tolerance', c)


def tasks(tier):
    ts = [Task('space-2', cull, mode='float', n=2, dim=3), Task('space-2-tree', cull, mode='float', n=2, dim=3, tree=True),
          Task('space-3', cull, mode='float', n=3, dim=3), Task('space-3-tree', cull, mode='float', n=3, dim=3, tree=True),
          Task('line-4', cull, mode='float', n=4, dim=1), Task('line-5', cull, mode='float', n=5, dim=1, budget=150)]
    if tier == 'thorough':
        ts += [Task('plane-4', cull, mode='float', n=4, dim=2, budget=600),
               Task('line-6', cull, mode='float', n=6, dim=1, budget=1500),
               Task('space-4', cull, mode='float', n=4, dim=3, budget=1500)]
    return ts
