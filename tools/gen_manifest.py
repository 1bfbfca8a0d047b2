#!/usr/bin/env python3
"""writes MANIFEST.json: claims every property that has contracts, lists the others with their reason"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json'))
NOTE = json.load(open(V + '/tools/level_notes.json'))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []


def bounded(p):
    out = []
    for f in sorted(glob.glob(V + '/contracts/%s_*.cpp' % p)):
        for l in open(f):
            if l.startswith('// bounded: '):
                e, t = l[12:].strip().split(' ', 1)
                out.append('%s (%s)' % (e, t))
    return out


# properties whose deciding function is only within reach of the bounded stand-in: the proved contracts cover its helpers
PARTLY = json.load(open(V + '/tools/partly.json'))
na = []
for p in ids:
    if glob.glob(V + '/contracts/%s_*.cpp' % p) and p not in NA:
        checks.append({'property': p, 'quick_cmd': './check.py %s --tier quick' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'contract-based deductive verification of the real code (inferred loop invariants, z3)',
                       'level': 'other' if p in PARTLY else 'proof',
                       'level_note': (PARTLY[p] + ' ' if p in PARTLY else '') + NOTE.get(p, NOTE['*']) + (' Bounded stand-ins, sampled and not proved: ' + '; '.join(bounded(p)) + '.' if bounded(p) else '')})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no contract written yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print('claimed', [c['property'] for c in checks], 'n/a', [c['property'] for c in na])
