"""Refreshes the counts and the table of planted bugs in DESIGN.md (development aid: no check reads seeded/)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/DESIGN.md').read()
n = [len([k for k in json.load(open(V + '/' + u + '/anchors.json')) if '@' not in k]) for u in ('contracts', 'contracts/machine')]
t = re.sub(r'`contracts/\*\.spec`: \S+ functions; `contracts/machine/\*\.spec`: \S+ functions', '`contracts/*.spec`: %d functions; `contracts/machine/*.spec`: %d functions' % tuple(n), t)
rows = ''
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    rows += '| %s | %s | %s | %s |\n' % (s, m['property'], m['needs'], m['what_it_breaks'])
a, b = t.index('| id | property | needs | breaks |'), t.index('\n## 8.')
t = t[:a] + '| id | property | needs | breaks |\n|---|---|---|---|\n' + rows + t[b:]
open(V + '/DESIGN.md', 'w').write(t)
