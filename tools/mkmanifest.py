#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = ('runtime monitoring: sanitized oclint on generated programs, every violation event compared with a reference model '
         'evaluated over a dump of the AST the rules were given')
MODEL_NOTE = ('Held on every program explored (the evidence file says how many, and which rules fired how often). Trusted: clang\'s AST '
              'and source positions, the reference models in lib/models.py, the generator\'s reach.')
T = {p: (MODEL, MODEL_NOTE) for p in ('C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19')}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i in T:
        checks.append({'property': i, 'quick_cmd': 'python3 checks/%s.py --tier quick' % i,
                       'thorough_cmd': 'python3 checks/%s.py --tier thorough' % i,
                       'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py oclint rules reporters plugins refdiag', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were added to /repo: everything is observed through oclint\'s own plugin interfaces (reporters, rules) and its command line.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
