"""Writes DESIGN.md: the fixed text of tools/design_head.md plus tables from notes, evidence-independent."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/tools', V + '/lib']
from notes import N
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
out = open(V + '/tools/design_head.md').read()
sec = []
COST = json.load(open(V + '/tools/cost.json'))
for p in sorted(N):
    n = N[p]
    why = props[p].get('why_tests_cannot_settle') or props[p].get('why_not_tests') or ''
    sec.append(f'### {p} {props[p]["title"]}\n\n* Specified: {n[0]}\n* Enumerated by TLC: {n[1]}\n* Observed and compared: {n[2]}\n'
               + (f'* Limits: {n[3]}\n' if n[3] else '') + f'* Cost: quick about {COST[p][0]} s, thorough about {COST[p][1]} s; {COST[p][2]} recorded traces in the quick tier.\n')
out = out.replace('@@PROPS@@', '\n'.join(sec))
rows = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append(f'| {s} | {m["what_it_breaks"]} | {m["needs"]} | {m.get("caught_by", m["property"])} |')
out = out.replace('@@SEEDS@@', '\n'.join(rows))
fx, fi = [], []
for l in open(V + '/known-findings.txt'):
    if l.startswith('fixed:'):
        _, p, c, t = l.split(' ', 3); fx.append(f'| {p.split("=")[1]} | {c} | {t.strip()} |')
    elif l.startswith('finding:'):
        p = l.split('property=')[1][:3]; fi.append(f'| {p} | {l.split(" :: ")[1].strip()} |')
out = out.replace('@@FIXED@@', '\n'.join(fx)).replace('@@FINDINGS@@', '\n'.join(fi))
open(V + '/DESIGN.md', 'w').write(out)
print(len(out), 'characters')
