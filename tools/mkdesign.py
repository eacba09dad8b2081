#!/usr/bin/env python3
"""fills the tables of DESIGN.md (between markers) from props.py, known_findings.json and seeded/"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE, TRUST
titles = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); titles[d['id']] = d['title']
t = open(V + '/DESIGN.tmpl.md').read()
p = ''
for k in sorted(PROPS):
    v = PROPS[k]
    p += f"**{k} {titles[k]}.** {v['note'].replace(TRUST, '')} *Units:* {'; '.join(', '.join(u['templates']) for u in v['units'])}. *Bounded:* {v['bounded']}.\n\n"
n = ''.join(f'* {k} {titles[k]}: {v}\n' for k, v in sorted(NOT_APPLICABLE.items()))
f = ''.join('* ' + x['text'] + '\n' for x in json.load(open(V + '/known_findings.json'))['findings'])
caught = {}
try: caught = json.load(open(V + '/tools/caught.json'))
except OSError: pass
s = '| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    s += f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '')} |\n"
t = t.replace('@@PROPS@@\n', p).replace('@@NA@@\n', n).replace('@@FINDINGS@@\n', f).replace('@@SEEDS@@\n', s).replace('@@UNITS@@\n', '')
open(V + '/DESIGN.md', 'w').write(t)
