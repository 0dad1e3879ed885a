"""plant(id, prop, edits, demo, needs, breaks): build seeded/<id> in a scratch copy, confirm it, run the check on it"""
import json
import os
import shutil
import subprocess as sp
import sys
import xml.etree.ElementTree as ET

SEED = '/verif/seeded'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', json.load(open('/opt/vp/BASELINE.json')))) \
    if os.path.exists('/opt/vp/BASELINE.json') else None
ENV = dict(os.environ, PATH='/repo/radiance_depend/linux:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
           PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
export PATH="$PWD/radiance_depend/linux:/opt/venv/bin:/usr/local/bin:/usr/bin:/bin" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, cwd, **k):
    return sp.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def plant(id, prop, edits, demo, needs, breaks, tests=True, check=True, tier='quick'):
    scratch = f'/tmp/w/s-{id}'
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree('/repo', scratch, symlinks=True)
    try:
        d = f'{SEED}/{id}'
        os.makedirs(d, exist_ok=True)
        for f, old, new in edits:
            s = open(f'{scratch}/{f}').read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(f'{scratch}/{f}', 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], scratch).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(DEMO)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + demo.lstrip('\n'))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
        ok = []
        r = run(['bash', f'{d}/demo.sh'], scratch, timeout=300)
        ok.append(('demo fails with patch', r.returncode != 0))
        if r.returncode != 0:
            print('   ', (r.stderr.strip().split('\n') or [''])[-1][:200])
        run(['git', 'checkout', '--', '.'], scratch)
        r = run(['bash', f'{d}/demo.sh'], scratch, timeout=300)
        ok.append(('demo passes without', r.returncode == 0))
        if r.returncode != 0:
            print(r.stderr[-600:])
        if tests:
            run(['git', 'apply', f'{d}/patch.diff'], scratch)
            r = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--timeout=300',
                     '--basetemp=/tmp/w/bt-' + id, 'tests'], scratch)
            ok.append(('tests', ' failed' not in r.stdout and '42 passed' in r.stdout))
            if not ok[-1][1]:
                print(r.stdout[-400:])
        good = all(b for _, b in ok)
        print(id, 'OK' if good else 'BAD ' + str([a for a, b in ok if not b]))
        if not good:
            shutil.rmtree(d)
            return
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree('/tmp/w/bt-' + id, ignore_errors=True)
    if check:
        caught(id, tier)


def caught(id, tier='quick'):
    d = f'{SEED}/{id}'
    prop = json.load(open(d + '/meta.json'))['property']
    assert not sp.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout
    assert sp.run(['git', '-C', '/repo', 'apply', d + '/patch.diff']).returncode == 0
    try:
        r = sp.run(['python3-vt', 'run.py', prop], cwd='/verif', capture_output=True, text=True,
                   env=dict(os.environ, VERIF_TIER=tier, VERIF_SEED='1'))
        v = [x for x in r.stdout.split('\n') if 'VIOLATION' in x]
        print(f'   {id}: exit {r.returncode}', v[:1], r.stdout.strip().split('\n')[-1][:160] if not v else '')
    finally:
        sp.run(['git', '-C', '/repo', 'checkout', '--', '.'])


if __name__ == '__main__':
    for i in sys.argv[1:]:
        caught(i)
