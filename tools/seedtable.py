"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|')))
p = V + '/DESIGN.md'
s = open(p).read()
a = '<!-- seeds -->\n'
s = s[:s.index(a) + len(a)] if a in s else s.rstrip('\n') + '\n\n## Planted bugs\n\nEach is confirmed (builds, the stable tests pass, its demonstration fails with it only) and caught by the named property\'s quick check.\n\n' + a
open(p, 'w').write(s + '| id | caught by | what it breaks | what it needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
