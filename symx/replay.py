"""Replays one input on the unmodified package: replay.py FILE | -
Exit 1 when the property fails for that input."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    src = sys.argv[1]
    job = json.load(sys.stdin if src == '-' else open(src))
    from symx import api, loader
    import importlib
    mod = importlib.import_module('checks.' + job['prop'].lower())
    task = next(t for t in mod.tasks('thorough') if t.name == job['task'])
    r = api.run_real(loader.real(), task.fn, task.params, job['values'], job['choices'])
    print(json.dumps(dict(status=r['status'], fails=[list(map(str, f)) for f in r['fails']])))
    return 1 if r['fails'] else 0


if __name__ == '__main__':
    sys.exit(main())
