"""Writes properties.jsonl, MANIFEST.json and the table of DESIGN.md from tools/props.py and the checks"""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
import props      # noqa

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
        assert len(p['title']) <= 80, p['id']
na = getattr(props, 'NA', {})
checks, table = [], []
for p in props.PROPS:
    i = p['id']
    if i in na:
        table.append(f'### {i} {p["title"]}\n\n{p["statement"]}\n\nNot applicable: {na[i]}\n')
        continue
    c = importlib.import_module('checks.' + i.lower())
    checks.append(dict(
        property=i, quick_cmd=f'python3-vt run.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3-vt run.py {i} --thorough',
        evidence_file=f'evidence/{i}.json',
        technique='symbolic execution of the Python source with SMT (z3) over exact reals',
        level='model_checking',
        level_note=f'Bounds: {c.BOUNDS}. Outside: {c.OUTSIDE}. Trusts z3, the encoding of numpy in symx (validated '
                   f'against the real package by concrete witnesses on every run).' + (' ' + p['note'] if p['note'] else '')))
    table.append(f'### {i} {p["title"]}\n\n{p["statement"]}\n\n- encoded: {", ".join(x.replace("raytools.", "") for x in c.FUNCTIONS)}\n'
                 f'- bounds: {c.BOUNDS}\n- outside: {c.OUTSIDE}\n' + (f'- note: {p["note"]}\n' if p['note'] else ''))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, numpy, scipy"', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in na.items()])
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
d = HERE + '/DESIGN.md'
if os.path.exists(d):
    s = open(d).read()
    a, b = '<!-- properties -->\n', '<!-- end -->'
    i, j = s.index(a) + len(a), s.index(b)
    open(d, 'w').write(s[:i] + '\n'.join(table) + '\n' + s[j:])
