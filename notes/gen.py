#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/notes/table.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        d['quantifier'] = {'over': p['over'], 'text': p['q']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['obs'], 'hook_needed': None}
        f.write(json.dumps(d) + '\n')
M = {'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the harnesses compile /repo sources as they are', 'source_commits': []}, 'checks': [],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p.get('na')],
     'notes': 'check.py decides one property: verification conditions from the LLVM IR of the real code, discharged for all sizes and contents; same contracts compiled natively look for a failing input.'}
for p in PROPS:
    if p.get('na'): continue
    P = json.load(open('%s/props/%s/prop.json' % (V, p['id'])))
    M['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'contract-based deductive verification (symbolic VC generation from LLVM IR of the real code; polynomial normal forms, linear elimination, z3, cvc5)' + p.get('tech', ''),
        'level': P.get('level', 'proof'), 'level_note': p['note'], 'theorems': []})
    if P.get('level', 'proof') != 'proof': M['checks'][-1].pop('theorems')
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
