#!/usr/bin/env python3
"""Decides one property:  python3-vt run.py C01   (VERIF_TIER=quick|thorough)"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def worker(q, prop, idx, tier, seed):
    from symx import driver
    mod = importlib.import_module('checks.' + prop.lower())
    task = mod.tasks(tier)[idx]
    try:
        q.send(driver.run_task(prop, task, seed))
    except BaseException as ex:         # noqa
        import traceback
        q.send(dict(task=task.name, paths=0, decisions=0, obligations=0, by_normal_form=0,
                    by_interval=0, by_nra=0, inconclusive=['worker: ' + traceback.format_exc()[-400:]],
                    violations=[], witnesses=0, obs_compared=0, obs_mismatch=[], labels={},
                    raised=0, zero_div=0, restarts=0, truncated=True,
                    solver=dict(queries=0, sat=0, unsat=0, unknown=0, time_s=0, memo=0, by={}), wall_s=0))
    q.close()
    os._exit(0)


def empty(name, why):
    return dict(task=name, paths=0, decisions=0, obligations=0, by_normal_form=0, by_interval=0,
                by_nra=0, inconclusive=[why], violations=[], witnesses=0, obs_compared=0,
                obs_mismatch=[], labels={}, raised=0, zero_div=0, restarts=0, truncated=True,
                solver=dict(queries=0, sat=0, unsat=0, unknown=0, time_s=0, memo=0, by={}), wall_s=0)


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'finding':
                    out.append(d)
    return out


def is_known(v, kf):
    for d in kf:
        got = {f[0].split('[')[0] for f in v['fails']}
        if v['task'] in d['tasks'] and got and got <= set(d['labels']):
            if all(v['choices'].get(k) == x for k, x in d.get('choices', {}).items()):
                return d
    return None


def main():
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier, only = 'thorough', None if only == '--thorough' else only
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from symx import driver, loader          # noqa
    mod = importlib.import_module('checks.' + prop.lower())
    try:
        loader.real()
        loader.sym(True)
    except BaseException as ex:     # noqa
        print(f'the package cannot be imported: {ex!r}')
    tasks = mod.tasks(tier)
    cap = 840 if tier == 'quick' else 7000
    todo = [i for i, t in enumerate(tasks) if only is None or t.name == only]
    todo.sort(key=lambda i: -tasks[i].budget)
    live, results = {}, {}
    ncpu = int(os.environ.get('SYMX_JOBS', '8'))
    ctx = mp.get_context('fork')
    while todo or live:
        while todo and len(live) < ncpu:
            i = todo.pop(0)
            r, s = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(s, prop, i, tier, seed))
            p.start()
            s.close()
            live[i] = (p, r, time.time())
        for i in list(live):
            p, r, ts = live[i]
            done = None
            if r.poll(0.01):
                try:
                    done = r.recv()
                except EOFError:
                    done = empty(tasks[i].name, 'worker ended without a result')
            elif not p.is_alive():
                done = empty(tasks[i].name, 'worker ended without a result')
            elif time.time() - ts > tasks[i].budget * 1.5 + 60 or time.time() - t0 > cap:
                p.kill()
                done = empty(tasks[i].name, 'worker stopped at its time limit')
            if done is not None:
                results[i] = done
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
        time.sleep(0.02)
    res = [results[i] for i in sorted(results)]
    kf = known(prop)
    viol, hits = [], {}
    for r in res:
        for v in r['violations']:
            d = is_known(v, kf)
            if d:
                hits[d['id']] = d
            else:
                viol.append(v)
    ev = evidence(prop, mod, tier, seed, res, viol, hits, time.time() - t0, tasks)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for d in kf:
        if d['id'] in hits:
            print(f"KNOWN-FINDING: property={prop} {d['what']}")
    c = ev['coverage']
    print(f"{prop} {tier}: tasks={len(res)} paths={c['states']} obligations={c['obligations']} "
          f"proved={c['proved']} inconclusive={len(c['inconclusive'])} witnesses={c['traces_validated_against_impl']} "
          f"queries={c['solver']['queries']} solver_s={c['solver']['time_s']} wall={ev['wall_s']}s")
    if os.environ.get('SYMX_V') or only:
        for r in res:
            print(' ', r['task'], 'paths', r['paths'], 'obl', r['obligations'], 'nf', r['by_normal_form'],
                  'iv', r['by_interval'], 'nra', r['by_nra'], 'inc', len(r['inconclusive']),
                  'wit', r['witnesses'], 'obs', r['obs_compared'], 'raised', r['raised'],
                  'q', r['solver']['queries'], r['wall_s'], 's')
    for x in c['inconclusive'][:12]:
        print('  INCONCLUSIVE', x)
    for x in c['translator_mismatch'][:6]:
        print('  MISMATCH', x)
    for k, v in enumerate(viol):
        path = os.path.join(HERE, 'evidence', f'{prop}_violation_{k}.json')
        with open(path, 'w') as f:
            json.dump(dict(prop=prop, **v, replay=f'/opt/venv/bin/python -B /verif/symx/replay.py {path}'),
                      f, indent=1)
        print('  ', v['task'], json.dumps(v['values'])[:300], v['choices'], v['fails'][:3])
        print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1 if viol else 0)


def evidence(prop, mod, tier, seed, res, viol, hits, wall, tasks):
    def tot(k):
        return sum(r[k] for r in res)
    sv = {k: round(sum(r['solver'][k] for r in res), 3) for k in
          ('queries', 'sat', 'unsat', 'unknown', 'time_s', 'memo')}
    by = {}
    for r in res:
        for k, v in r['solver']['by'].items():
            by[k] = by.get(k, 0) + v
    sv['by_engine'] = by
    proved = tot('by_normal_form') + tot('by_interval') + tot('by_nra')
    inc = [f"{r['task']}: {x}" for r in res for x in r['inconclusive']]
    labels = {}
    for r in res:
        for k, v in r['labels'].items():
            labels[f"{r['task']}/{k}"] = v
    samples = [dict(task=r['task'], paths=r['paths'], obligations=r['obligations'],
                    witnesses=r['witnesses'], wall_s=r['wall_s']) for r in res]
    return dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        wall_s=round(wall, 2),
        coverage=dict(
            states=tot('paths'), transitions=tot('decisions'),
            traces_validated_against_impl=tot('witnesses'),
            samples=samples,
            obligations=tot('obligations'), proved=proved,
            proved_by=dict(normal_form=tot('by_normal_form'), lra_interval=tot('by_interval'),
                           nra=tot('by_nra')),
            observations_compared=tot('obs_compared'),
            translator_mismatch=[f"{r['task']}: {x}" for r in res for x in r['obs_mismatch']],
            inconclusive=inc, paths_raising=tot('raised'), divisions_by_zero=tot('zero_div'),
            truncated=[r['task'] for r in res if r['truncated']],
            functions_encoded=getattr(mod, 'FUNCTIONS', []), bounds=getattr(mod, 'BOUNDS', ''),
            outside_bounds=getattr(mod, 'OUTSIDE', ''), labels=labels, solver=sv,
            violations=len(viol), known_findings=sorted(hits)))


if __name__ == '__main__':
    main()
