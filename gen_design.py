#!/usr/bin/env python3
"""developer helper: regenerates DESIGN.md"""
import json, os, specs
props = [json.loads(l) for l in open('properties.jsonl')]; kf = json.load(open('known_findings.json')); o = [open('design_head.md').read()]
seeds = {}
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s)); seeds.setdefault(m['property'], []).append((s, m))
fixed = {}
for l in kf['fixed']: fixed.setdefault(l.split('property=')[1].split()[0], []).append(l.split(' ', 2)[2])
cost = json.load(open('design_cost.json')) if os.path.exists('design_cost.json') else {}
for p in props:
    i = p['id']; o.append('### %s — %s\n' % (i, p['title']))
    s = specs.SPECS.get(i)
    if not s: o.append('Not applicable: ' + specs.NOT_APPLICABLE.get(i, '') + '\n'); continue
    o.append('*Statement.* %s\n' % p['statement'])
    o.append('*Decided by* symbolic execution of ' + ', '.join('`harness/%s` (%s)' % (j['harness'], j.get('name', '')) for j in s['jobs']) + ('.  *Oracle*: ' + s['explanation'] if s.get('explanation') else '') + '.\n')
    b = s.get('bounds', ''); b = b if isinstance(b, str) else '; '.join('%s: %s' % kv for kv in b.items())
    o.append('*Bounds*: ' + b + '.\n')
    if s.get('assumptions'): o.append('*Assumptions*: ' + '; '.join(s['assumptions']) + '.\n')
    o.append('*Why tests cannot*: ' + p['why_tests_cant'] + '\n')
    if i in cost: o.append('*Cost (quick)*: ' + cost[i] + '.\n')
    if i in fixed: o.append('*Genuine defects found and repaired*: ' + '; '.join(fixed[i]) + '.\n')
    if i in seeds: o.append('*Planted changes*: ' + '; '.join('`%s` (%s) — needs %s; caught' % (n, m['what_it_breaks'], m['needs']) for n, m in seeds[i]) + '.\n')
o.append(open('design_tail.md').read())
open('DESIGN.md', 'w').write('\n'.join(o))
