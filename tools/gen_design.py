#!/usr/bin/env python3
"""writes the per-property part of DESIGN.md from properties.jsonl, tools/checks.py, the evidence of the last runs
(kept in tools/scenarios.json, so that the text does not depend on which checks ran last), known_findings.txt and seeded/"""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
from checks import CHECKS
S = H + '/tools/scenarios.json'
sc = json.load(open(S)) if os.path.exists(S) else {}
if '--refresh' in sys.argv:
    for f in glob.glob(H + '/evidence/P*.json'):
        e = json.load(open(f))
        if e.get('tier') != 'quick': continue
        sc[e['property']] = dict(assumptions=e['assumptions'], rule=e['coverage']['rule'], sc=[[x['name'], x['executions'], x['bounds']] for x in e['coverage']['scenarios']], wall=round(e['wall_s']))
    json.dump(sc, open(S, 'w'), indent=0, sort_keys=True)
ORACLE = json.load(open(H + '/tools/oracles.json'))
out = ['## Properties, one by one', '', 'Scenario counts are those of the quick tier; the thorough tier runs the same scenarios with larger alphabets, depths and lists.', 'The technique is the same for all: exhaustive enumeration of the choice trees described, each execution on the real code.', '']
for l in open(H + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; c = CHECKS[i]; x = sc.get(i, {})
    out += ['### %s %s' % (i, p['title']), '', '*Decided by*: ' + c['note'] + '.', '', '*Oracle*: ' + ORACLE[i], '', '*Why tests cannot settle it*: ' + p['why_tests_cant'] + '.', '']
    if x:
        out += ['*Enumerated* (about %d s on 8 cores, variant %s):' % (x['wall'], c.get('variant', 'opt')), '']
        out += ['- %s (%d executions): %s' % tuple(s) for s in x['sc']]
        out += ['', '*Assumptions and limits*: ' + '; '.join(x['assumptions']) + '.', '']
out += ['## Defects found and repaired', '', 'Every entry was reported by a check on the tree of the time, confirmed on the real code, and repaired with one small commit; the', 'checks report them again when a repair is undone. The same list is in known_findings.txt; nothing is recorded as known and unrepaired.', '']
by = {}
for l in open(H + '/known_findings.txt'):
    if l.startswith('fixed:'):
        _, p, h, t = l.split(' ', 3); by.setdefault(p.split('=')[1], []).append('%s (%s)' % (t.strip(), h))
for k in sorted(by): out += ['- **%s**: ' % k + '; '.join(by[k]) + '.']
out += ['', open(H + '/tools/design_notes.md').read().rstrip(), '', '## Planted bugs', '', 'Each was written from the statement of its property, confirmed in a scratch copy (compiles, stable tests pass, demonstration fails', 'with it and passes without it) and run against the check of its property with `tools/plant.py`. "after strengthening" names those', 'the check of the time missed.', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
notes = json.load(open(H + '/tools/planted.json'))
for d in sorted(glob.glob(H + '/seeded/*')):
    n = os.path.basename(d); m = json.load(open(d + '/meta.json')); out.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], notes.get(n, m['property'])))
head = open(H + '/DESIGN.md').read().split('## Properties, one by one')[0]
open(H + '/DESIGN.md', 'w').write(head + '\n'.join(out) + '\n')
