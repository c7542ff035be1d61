#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md (run by hand)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'tools', 'design')
sys.path.insert(0, os.path.join(V, 'tools'))
sys.dont_write_bytecode = True
from proptable import PROPS, TECH, NA
rd = lambda n: open(os.path.join(D, n)).read() if os.path.exists(os.path.join(D, n)) else ''
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
prose = dict(l.split(': ', 1) for l in rd('props.md').splitlines() if ': ' in l)
cost = json.loads(rd('cost.json') or '{}')
if '--cost' in sys.argv:  # remember what the last quick runs took
    for p in props:
        f = os.path.join(V, 'evidence', p['id'] + '.json')
        if os.path.exists(f):
            e = json.load(open(f))
            if e['tier'] == 'quick' and not e['violations']:
                cost[p['id']] = [round(e['wall_s']), e['coverage']['evaluations']]
    json.dump(cost, open(os.path.join(D, 'cost.json'), 'w'), sort_keys=True)
o = [rd('head.md'), '## 2. The properties at a glance\n', '| id | property | deciding method | quick run |', '|---|---|---|---|']
for p in props:
    i = p['id']
    c = cost.get(i)
    o.append('| %s | %s | %s | %s |' % (i, p['title'], TECH.get(i, 'not applicable'), '%d s, %d executions' % tuple(c) if c else '-'))
o.append('\n(Eight cores. Thorough tiers have 10 to 30 times as many cases of the same generators, up to larger sizes.)\n')
o.append('## 3. Per property\n')
for p in props:
    i = p['id']
    if i not in PROPS:
        continue
    P = PROPS[i]
    o.append('### %s %s\n' % (i, p['title']))
    o.append(p['statement'] + '\n')
    o.append('*Anchored in* ' + ', '.join(p['anchors']['files']) + '.\n')
    o.append('*Method.* ' + TECH[i][0].upper() + TECH[i][1:] + ('; built with the race detector' if P['race'] else '; without the race detector (sequential)') +
             ('' if not P['yield'] else ', with yield points') + '.\n')
    o.append('*Workload and oracle.* ' + P['rule'] + '\n')
    if i in prose:
        o.append('*Reach.* ' + prose[i] + '\n')
    o.append('*Why the tests cannot settle it.* ' + p['why_tests_cant'] + '\n')
    a = [x for x in P['assumptions'] if 'are trusted' not in x and 'counted here' not in x]
    if a:
        o.append('*Bounds and what is left open.* ' + '; '.join(a) + '.\n')
t = rd('tail.md')
fixes = [l[7:].strip() for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith('fixed:')]
rows = []
for l in fixes:
    m = re.match(r'property=(\S+) (\S+) (.*)', l)
    rows.append('* %s, %s: %s' % m.groups())
t = t.replace('@FIXES@', '\n'.join(rows))
cat = json.load(open(os.path.join(V, 'tools', 'catches.json')))
rows = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    r = cat.get(s, {})
    by = ', '.join(k for k, v in sorted(r.items()) if v == 'caught') or 'nothing'
    if not r:
        by = 'not run'
    rows.append('| %s | %s | %s | %s |' % (s, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), by))
t = t.replace('@SEEDS@', '\n'.join(rows)).replace('@REFACTOR@', rd('refactor.md'))
t = t.replace('@NA@', '\n'.join('* %s: %s' % kv for kv in sorted(NA.items())))
o.append(t)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))
