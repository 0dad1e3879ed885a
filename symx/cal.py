"""Radiance function files (.cal): definitions parsed from their text and evaluated over the values of an environment;
in a concrete run the same text is evaluated by the repository's rcalc."""
import math
import os
import re
import struct
import subprocess
import tempfile
from .loader import REPO

TOKEN = re.compile(r'\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|([A-Za-z_][\w.`]*|\$\d+)|(.))', re.S)


class CalError(Exception):
    pass


def strip(text):
    out, d = [], 0
    for c in text:
        if c == '{':
            d += 1
        elif c == '}':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


class Parser:
    def __init__(self, text):
        self.t = [m.groups() for m in TOKEN.finditer(strip(text)) if m.group().strip()]
        self.i = 0

    def peek(self):
        return self.t[self.i][2] if self.i < len(self.t) else None

    def op(self, c):
        if self.peek() == c:
            self.i += 1
            return True
        return False

    def need(self, c):
        if not self.op(c):
            raise CalError(f'expected {c} at {self.t[self.i - 3:self.i + 3]}')

    def name(self):
        n = self.t[self.i][1]
        if not n:
            raise CalError(f'expected a name at {self.t[self.i - 3:self.i + 3]}')
        self.i += 1
        return n

    def definitions(self):
        out = {}
        while self.i < len(self.t):
            if self.op(';'):
                continue
            n, par = self.name(), None
            if self.op('('):
                par = [self.name()]
                while self.op(','):
                    par.append(self.name())
                self.need(')')
            if not (self.op('=') or self.op(':')):
                raise CalError('expected a definition of ' + n)
            out[n] = (par, self.sum())
            if self.i < len(self.t):
                self.need(';')
        return out

    def sum(self):
        e = self.product()
        while self.peek() in ('+', '-'):
            o = self.t[self.i][2]
            self.i += 1
            e = (o, e, self.product())
        return e

    def product(self):
        e = self.power()
        while self.peek() in ('*', '/'):
            o = self.t[self.i][2]
            self.i += 1
            e = (o, e, self.power())
        return e

    def power(self):
        e = self.unary()
        if self.op('^'):
            e = ('^', e, self.power())
        return e

    def unary(self):
        if self.op('-'):
            return ('neg', self.unary())
        if self.op('+'):
            return self.unary()
        if self.op('('):
            e = self.sum()
            self.need(')')
            return e
        num, name, _ = self.t[self.i]
        if num:
            self.i += 1
            return ('num', num)
        name = self.name()
        if self.op('('):
            args = [self.sum()]
            while self.op(','):
                args.append(self.sum())
            self.need(')')
            return ('call', name, args)
        return ('var', name)


class Cal:
    """values of variables and functions of definitions given values of some variables"""

    def __init__(self, env, *texts, **values):
        self.env, self.texts, self.values = env, texts, values
        self.memo = {}
        if env.symbolic:
            self.defs = {}
            for t in texts:
                self.defs.update(Parser(t).definitions())

    def get(self, *exprs):
        """values of expressions"""
        if not self.env.symbolic:
            return self.run(exprs)
        out = []
        for e in exprs:
            p = Parser(e)
            out.append(self.value(p.sum(), {}))
        return out

    def run(self, exprs):
        with tempfile.TemporaryDirectory() as d:
            files = []
            over = ''.join(f'{k} = {float(v)!r};\n' for k, v in self.values.items())
            for i, t in enumerate(self.texts + (over, ''.join(f'${i + 1} = {e};\n' for i, e in enumerate(exprs)))):
                files += ['-f', f'f{i}.cal']
                with open(os.path.join(d, f'f{i}.cal'), 'w') as f:
                    f.write(t + '\n')
            r = subprocess.run([os.path.join(REPO, 'radiance_depend', 'linux', 'rcalc'), '-n', '-od'] + files, cwd=d, capture_output=True,
                               stdin=subprocess.DEVNULL, env={'RAYPATH': '.', 'PATH': os.environ.get('PATH', '')}, timeout=60)
        if len(r.stdout) != 8 * len(exprs):
            raise CalError(r.stderr.decode()[:200])
        return list(struct.unpack(f'{len(exprs)}d', r.stdout))

    def value(self, e, loc):
        env, np, k = self.env, self.env.np, e[0]
        if k == 'num':
            x = float(e[1])
            return env.pi if x == math.pi else env.num(x if x % 1 else int(x))
        if k == 'var':
            n = e[1]
            if n in loc:
                return loc[n]
            if n in self.values:
                return self.values[n]
            if n not in self.memo:
                if n not in self.defs or self.defs[n][0] is not None:
                    if n in self.defs:
                        return ('function', n)
                    raise CalError('undefined ' + n)
                self.memo[n] = self.value(self.defs[n][1], {})
            return self.memo[n]
        if k == 'neg':
            return -self.value(e[1], loc)
        if k in '+-*/^':
            a, b = self.value(e[1], loc), self.value(e[2], loc)
            return a + b if k == '+' else a - b if k == '-' else a * b if k == '*' else a / b if k == '/' else np.power(a, b)
        n, args = e[1], e[2]
        if n in loc and isinstance(loc[n], tuple):
            n = loc[n][1]
        if n in self.defs:
            par, body = self.defs[n]
            if par is None or len(par) > len(args):
                raise CalError('arguments of ' + n)
            return self.value(body, dict(zip(par, [self.value(a, loc) for a in args])))
        if n == 'if':
            return self.value(args[1] if bool(self.value(args[0], loc) > 0) else args[2], loc)
        v = [self.value(a, loc) for a in args]
        if n == 'select':
            return v[int(v[0])]
        if n in ('min', 'max'):
            r = v[0]
            for x in v[1:]:
                if bool(x < r) == (n == 'min'):
                    r = x
            return r
        f = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2'}.get(n, n)
        if f in ('sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'floor', 'ceil', 'exp', 'log', 'log10'):
            return getattr(np, f)(*v)
        raise CalError('undefined function ' + n)


def library():
    """the functions of rayinit.cal of the repository"""
    with open(os.path.join(REPO, 'raytools', 'cal', 'rayinit.cal')) as f:
        return f.read()
