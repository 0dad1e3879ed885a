"""mutate.py N SEED [file…]: random syntactic changes of /repo (in scratch copies), which checks report them; survivors are listed with
whether the repository's tests notice them.  Results are appended to /tmp/w/mutants.jsonl"""
import ast
import copy
import glob
import importlib
import json
import os
import random
import re
import shutil
import subprocess as sp
import sys
sys.path.insert(0, '/verif')
FILES = ['translate.py', 'io.py', 'imagetools.py', 'utility.py', 'cli.py', 'mapper/angularmixin.py', 'mapper/mapper.py', 'mapper/viewmapper.py', 'mapper/solidviewmapper.py',
         'evaluate/basemetricset.py', 'evaluate/metricset.py', 'evaluate/colormetricset.py', 'evaluate/positionindex.py', 'evaluate/retina.py', 'evaluate/hvsgsm.py']
COST = dict(C17=90, C33=110, C01=75, C04=60, C12=50, C06=46, C19=42, C15=24, C31=17, C05=17, C23=15, C26=12, C20=11)


def sites(tree):
    """(function, line, description, change) for every possible change"""
    out = []

    def add(fn, node, what, change):
        out.append((fn, node.lineno, what, change))

    def walk(node, fn, parent):
        if isinstance(node, (ast.FunctionDef,)):
            fn = node.name
        for name, val in ast.iter_fields(node):
            items = val if isinstance(val, list) else [val]
            for k, c in enumerate(items):
                if not isinstance(c, ast.AST):
                    continue
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
                    continue
                if fn is not None:
                    look(c, fn, node, name, k if isinstance(val, list) else None)
                walk(c, fn, node)

    def look(c, fn, parent, field, k):
        def put(new):
            def change():
                if k is None:
                    setattr(parent, field, new)
                else:
                    getattr(parent, field)[k] = new
            return change
        if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool):
            for v in ({c.value + 1, c.value * 2 if c.value not in (0, 1) else c.value - 1} if isinstance(c.value, int) else {c.value * 1.1 + (.1 if c.value == 0 else 0), -c.value - 0.}):
                if v != c.value:
                    add(fn, c, f'{c.value} -> {v}', put(ast.Constant(v) if v >= 0 else ast.UnaryOp(ast.USub(), ast.Constant(-v))))
        elif isinstance(c, ast.Constant) and isinstance(c.value, bool):
            add(fn, c, f'{c.value} -> {not c.value}', put(ast.Constant(not c.value)))
        elif isinstance(c, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.MatMult: None, ast.Mod: None}.get(type(c.op))
            if sw:
                add(fn, c, f'{type(c.op).__name__} -> {sw.__name__}: {ast.unparse(c)[:50]}', put(ast.BinOp(c.left, sw(), c.right)))
            if isinstance(c.op, (ast.Sub, ast.Div)):
                add(fn, c, f'swap: {ast.unparse(c)[:50]}', put(ast.BinOp(c.right, c.op, c.left)))
        elif isinstance(c, ast.Compare) and len(c.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(c.ops[0]))
            if sw:
                add(fn, c, f'{type(c.ops[0]).__name__} -> {sw.__name__}: {ast.unparse(c)[:50]}', put(ast.Compare(c.left, [sw()], c.comparators)))
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt}.get(type(c.ops[0]))
            if sw:
                add(fn, c, f'reverse: {ast.unparse(c)[:50]}', put(ast.Compare(c.left, [sw()], c.comparators)))
        elif isinstance(c, ast.BoolOp):
            add(fn, c, f'bool: {ast.unparse(c)[:50]}', put(ast.BoolOp(ast.And() if isinstance(c.op, ast.Or) else ast.Or(), c.values)))
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
            add(fn, c, f'drop {type(c.op).__name__}: {ast.unparse(c)[:50]}', put(c.operand))
        elif isinstance(c, ast.Call) and c.keywords:
            for i, w in enumerate(c.keywords):
                add(fn, c, f'drop keyword {w.arg}: {ast.unparse(c)[:50]}', lambda c=c, i=i: c.keywords.pop(i))
        elif isinstance(c, ast.Call) and len(c.args) == 1 and isinstance(c.func, (ast.Attribute, ast.Name)):
            n = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id
            sw = dict(sin='cos', cos='sin', floor='ceil', ceil='floor', max='min', min='max', sum='max', argmax='argmin', arccos='arcsin', abs='negative', square='abs',
                      any='all', all='any', atleast_2d='asarray', radians='degrees', degrees='radians').get(n)
            if sw and isinstance(c.func, ast.Attribute):
                add(fn, c, f'{n} -> {sw}', lambda c=c, sw=sw: setattr(c.func, 'attr', sw))
        elif isinstance(c, ast.Slice) and c.step is not None:
            add(fn, c, f'drop step {ast.unparse(c)}', lambda c=c: setattr(c, 'step', None))
        elif isinstance(c, (ast.AugAssign,)) or isinstance(c, ast.Assign) and isinstance(c.targets[0], (ast.Subscript, ast.Attribute)) or isinstance(c, ast.Expr):
            if not (isinstance(c, ast.Expr) and isinstance(c.value, (ast.Constant, ast.Yield))) and k is not None:
                add(fn, c, f'delete: {ast.unparse(c)[:60]}', put(ast.Pass()))
    walk(tree, None, None)
    return out


def checks_for(f, fn):
    mod = 'raytools.' + f[:-3].replace('/', '.')
    hit, near = [], []
    for p in sorted(glob.glob('/verif/checks/c[0-9]*.py')):
        m = importlib.import_module('checks.' + os.path.basename(p)[:-3])
        txt = ' '.join(m.FUNCTIONS)
        c = os.path.basename(p)[:-3].upper()
        if re.search(r'\b' + re.escape(fn) + r'\b', txt):
            hit.append(c)
        elif f[:-3].split('/')[-1] in txt.lower() or c == 'C33':
            near.append(c)
    by = lambda c: COST.get(c, 5)                                                   # noqa: E731
    return sorted(hit, key=by) + sorted(near, key=by)


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or FILES
    rng = random.Random(seed)
    all_ = []
    for f in files:
        t = ast.parse(open('/repo/raytools/' + f).read())
        all_ += [(f, i) for i in range(len(sites(t)))]
    done = set()
    if os.path.exists('/tmp/w/mutants.jsonl'):
        done = {(d['file'], d['fn'], d['line'], d['what']) for d in map(json.loads, open('/tmp/w/mutants.jsonl'))}
    scratch = f'/tmp/w/mut-{seed}'
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree('/repo', scratch, symlinks=True)
    env = dict(os.environ, SYMX_REPO=scratch, VERIF_EVIDENCE='/tmp/w/ev-' + str(seed), VERIF_SEED='1', VERIF_TIER='quick')
    for f, i in rng.sample(all_, min(n, len(all_))):
        src = open('/repo/raytools/' + f).read()
        t = ast.parse(src)
        s = sites(t)
        fn, line, what, change = s[i]
        if (f, fn, line, what) in done or fn in ('plot', '__repr__', 'set_nproc', 'main', 'printconfig'):
            continue
        change()
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
        except Exception:
            continue
        open(f'{scratch}/raytools/{f}', 'w').write(new)
        rec = dict(file=f, fn=fn, line=line, what=what, caught=None, quiet=[], other=[])
        try:
            compile(new, f, 'exec')
            for c in checks_for(f, fn):
                r = sp.run(['timeout', '400', 'python3-vt', 'run.py', c], cwd='/verif', capture_output=True, text=True, env=env)
                if 'VIOLATION' in r.stdout:
                    rec['caught'] = c
                    break
                (rec['quiet'] if r.returncode == 0 else rec['other']).append(c + ('' if r.returncode == 0 else f':{r.returncode}'))
            if rec['caught'] is None:
                e2 = dict(env, PATH=f'{scratch}/radiance_depend/linux:/opt/venv/bin:/usr/bin:/bin', OPENBLAS_NUM_THREADS='1')
                r = sp.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--basetemp=/tmp/w/bt-m' + str(seed), 'tests'], cwd=scratch,
                           env=e2, capture_output=True, text=True)
                rec['tests'] = r.stdout.strip().split('\n')[-1][:40]
        finally:
            shutil.copy('/repo/raytools/' + f, f'{scratch}/raytools/{f}')
        open('/tmp/w/mutants.jsonl', 'a').write(json.dumps(rec) + '\n')
        print('caught ' + rec['caught'] if rec['caught'] else 'MISSED', f, fn, line, what, '' if rec['caught'] else (rec['quiet'], rec['other'], rec['tests']), flush=True)
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
