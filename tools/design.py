#!/usr/bin/env python3
"""Author-side: rewrites the per-property part of DESIGN.md (between the two markers) from specs, findings and seeds."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import specs
P = [json.loads(l) for l in open(V + '/properties.jsonl')]; KF = json.load(open(V + '/known_findings.json')); M = json.load(open(V + '/MANIFEST.json')); NA = {x['property']: x['reason'] for x in M['not_applicable']}
NOTES = json.load(open(V + '/tools/design_notes.json'))
o = ['## Properties', '', 'For each property: what decides it, the bounds within which the solver covers every value, what lies outside, the defects found on the way and repaired in /repo, and the planted bugs (`seeded/`) its check catches. The oracle is always a small independent reference model in the harness (arrays of the expected content, updated operation by operation), never a second run of the code.', '']
seeds = {}
for d in sorted(os.listdir(V + '/seeded')): m = json.load(open(V + '/seeded/' + d + '/meta.json')); seeds.setdefault(m['property'], []).append((d, m))
for p in P:
    i = p['id']
    if i in NA: continue
    s = specs.SPECS[i]; o += ['### %s %s' % (i, p['title']), '']
    for g in s['groups']:
        o.append('- Entries (`harness/%s.cc`): %s' % (', '.join(g['harness']), ', '.join('`%s`' % e['name'] for e in g['entries'])))
    o.append('- Real code: %s' % '; '.join('%s (%s)' % (m['where'], m['name']) for m in p['anchors']['mechanism']))
    o.append('- Bounds: %s.' % s.get('bounds', '')); o.append('- Outside: %s.' % s.get('outside', ''))
    if i in NOTES: o.append('- Decisions: %s' % NOTES[i])
    for e in KF:
        if e['property'] == i: o.append('- %s %s: %s' % (e['status'].capitalize(), e.get('commit', ''), e['what'].split(' ', 3)[-1] if e['status'] == 'fixed' else e['what']))
    for d, m in seeds.get(i, []): o.append('- Planted bug `%s`: %s. Needs: %s. %s' % (d, m['what_it_breaks'], m['needs'], NOTES.get('seed:' + d, 'Caught.')))
    o.append('')
o += ['## Not applicable', '']
for p in P:
    if p['id'] in NA: o.append('- %s %s: %s.' % (p['id'], p['title'], NA[p['id']]))
t = open(V + '/DESIGN.md').read(); a = '<!-- generated by tools/design.py -->'; z = '<!-- end of generated part -->'
if '@@PROPS@@' in t: t = t.replace('@@PROPS@@', a + '\n' + z + '\n')
b, r = t.split(a); e = r.split(z)[1]; open(V + '/DESIGN.md', 'w').write(b + a + '\n' + '\n'.join(o) + '\n' + z + e)
