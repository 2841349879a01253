"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json, and the number of repaired defects (by hand, never at check time)"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s quick | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
p = V + '/DESIGN.md'; s = open(p).read(); i = s.index('## Planted bugs')
n = len(json.load(open(V + '/known_findings.json'))['fixed']); s = re.sub(r'All \S+ defects found', 'All %d defects found' % n, s)
i = s.index('## Planted bugs'); s = s[:i] + '## Planted bugs\n\nEvery one applies to /repo, builds, passes the stable tests and fails its demonstration; each is caught by the quick check of the property it is filed under.\n\n' + '\n'.join(rows) + '\n\nBesides, some thousand mechanical mutants of the sources that the official build compiles were run against the checks in a scratch copy; the survivors were read one by one and, where they changed behaviour a property speaks of, the check was strengthened.\n'
open(p, 'w').write(s)
