#!/usr/bin/env python3
"""Prints the per-property section of DESIGN.md from properties.jsonl, bin/checks.py and seeded/."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + '/bin')
import checks
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
seeds = {}
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    seeds.setdefault(m['property'], []).append(d)
extra = json.load(open(root + '/tools/design_notes.json'))
for p in props:
    c = checks.CHECKS[p['id']]
    print(f"### {p['id']} {p['title']}\n")
    print(f"*Decided by* {c['technique']} (level `{c['level']}`, builds {', '.join(c['configs'])}).\n")
    print(f"*Bounds:* {c['bounds']}.\n")
    if c.get('assumptions'):
        print('*Assumptions:* ' + '; '.join(a for a in c['assumptions'] if a not in checks.COMMON) + '.\n') if [a for a in c['assumptions'] if a not in checks.COMMON] else None
    n = extra.get(p['id'])
    if n:
        print(n + '\n')
    if p['id'] in seeds:
        print('*Planted bugs (all caught):* ' + ', '.join(f'`{s}`' for s in seeds[p['id']]) + '.\n')
