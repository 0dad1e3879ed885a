"""helpers shared by the harnesses (plain python, no solver)"""
import math


def fib_dirs(n):
    """n concrete unit vectors spread over the sphere"""
    out = []
    for i in range(n):
        z = 1 - (2 * i + 1) / n
        r = math.sqrt(1 - z * z)
        p = i * 2.399963229728653
        out.append([r * math.cos(p), r * math.sin(p), z])
    return out


def rows(env, sym, conc, pos):
    """matrix with the symbolic row at position pos among concrete rows"""
    m = [list(r) for r in conc]
    m.insert(pos, list(sym))
    return m


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
