"""Fills the tables of DESIGN.md from DESIGN.tmpl.md, levels, known findings and seeded bugs."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(f'{H}/tools/levels.py').read(), ns)
exec(open(f'{H}/tools/approach.py').read(), ns)
t = open(f'{H}/tools/DESIGN.tmpl.md').read()
rows = ['| id | level | how it is decided |', '|---|---|---|']
for l in open(f'{H}/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in ('C28', 'C29'):
        rows.append(f"| {i} {p['title']} | - | not applicable, see section 5 |")
        continue
    lv = 'P' if i in ns['PROVED'] else 'p' if i in ns['PARTIAL'] else 'B'
    rows.append(f"| {i} {p['title']} | {lv} | {ns['APPROACH'][i]} |")
k = json.load(open(f'{H}/known-findings.json'))
fx = '\n'.join('* ' + (x if isinstance(x, str) else json.dumps(x)) for x in k.get('fixed', []))
kn = '\n'.join(f"* {x['property']} `{x['key']}`: {x['what']}" for x in k['known'])
sd = ['| seed | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(f'{H}/tools/caught.json')) if os.path.exists(f'{H}/tools/caught.json') else {}
for d in sorted(os.listdir(f'{H}/seeded')):
    m = json.load(open(f'{H}/seeded/{d}/meta.json'))
    sd.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '')} |")
for a, b in (('TABLE', '\n'.join(rows)), ('FIXED', fx), ('KNOWN', kn), ('SEEDS', '\n'.join(sd))):
    t = t.replace(f'@@{a}@@', b)
open(f'{H}/DESIGN.md', 'w').write(t)
