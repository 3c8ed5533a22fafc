#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, claims.json (notes per claimed property, reasons for the others)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
cl = json.load(open(here + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in cl['claimed']:
        checks.append({
            'property': i,
            'quick_cmd': f'bash run.sh {i} quick',
            'thorough_cmd': f'bash run.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'bounded symbolic execution of the real Go code (go/ssa) with an SMT solver; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': cl['claimed'][i],
        })
    else:
        na.append({'property': i, 'reason': cl['not_applicable'].get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses use the public API; engine/ is a symbolic executor for Go, harness/ the harnesses.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
