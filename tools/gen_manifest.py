#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = jobs.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p['id']
    if i in jobs.PROPS and not jobs.PROPS[i].get('draft'):
        c = jobs.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the compiled LLVM IR of the real code, assertions decided by z3 (bit-vectors)',
                           level='model_checking',
                           level_note='Every input within the bounds is decided by the solver; counterexamples are replayed natively. Bounds: ' + c['bounds'] +
                           '. Outside: ' + (c.get('outside') or 'larger sizes') + '. Trusts rustc/LLVM, the IR interpreter in engine/ and z3' +
                           (''.join('; ' + a for a in c.get('assumptions', []))) + '.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', hooks=jobs.HOOKS, checks=checks, not_applicable=na,
               notes='check.py decides one property; jobs.py holds harness parameters and bounds; engine/ is the symbolic executor; see DESIGN.md'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
