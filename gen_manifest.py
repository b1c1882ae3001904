#!/usr/bin/env python3
"""developer helper: regenerates MANIFEST.json from properties.jsonl and specs.py"""
import json, specs
props = [json.loads(l) for l in open('properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]; b = s.get('bounds', ''); b = b.get('quick') if isinstance(b, dict) else b
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique='symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3)', level=s.get('level', 'model_checking'), level_note='All values and schedules within the bounds: ' + b))
    else: na.append(dict(property=i, reason=specs.NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='make -C engine', checks=checks, not_applicable=na, notes='Every check compiles /repo to LLVM bitcode and decides the property with engine/symx (see DESIGN.md).')
if specs.HOOKS: m['hooks'] = specs.HOOKS
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
