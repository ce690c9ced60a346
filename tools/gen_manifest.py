#!/usr/bin/env python3
"""MANIFEST.json from tools/checks.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
import checks
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    c = checks.CHECKS.get(i)
    if not c or not os.path.exists(H + '/harness/%s.cpp' % i):
        m['not_applicable'].append({'property': i, 'reason': checks.NA.get(i, 'check not built yet')})
        continue
    m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                        'evidence_file': 'evidence/%s.json' % i,
                        'technique': c.get('technique', 'exhaustive bounded exploration of the real code against an independent oracle (stateless model checking)'),
                        'level': 'model_checking', 'level_note': c['note']})
m['notes'] = 'All checks drive the real library and program through their public interfaces; no hooks in /repo are needed.'
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
