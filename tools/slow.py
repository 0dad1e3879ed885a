"""The slowest solver queries of a task: python3-vt tools/slow.py C19 abs-y-180 [min seconds]"""
import importlib
import os
import sys
import time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
from symx import driver, solver, engine      # noqa
prop, name = sys.argv[1:3]
lim = float(sys.argv[3]) if len(sys.argv) > 3 else .5
orig = solver.check


def check(conds, *a, **k):
    t = time.time()
    r = orig(conds, *a, **k)
    dt = time.time() - t
    if dt > lim:
        print(f'{dt:.2f}', r[0], a, len(conds), *[str(c)[:300] for c in conds[-1:]], '| pc', *[str(c)[:100] for c in conds[:-1]][-4:])
    return r


solver.check = check
m = importlib.import_module('checks.' + prop.lower())
task = [t for t in m.tasks('quick') if t.name == name][0]
o = driver.run_task(prop, task, 1)
print(o['wall_s'], o['solver'])
