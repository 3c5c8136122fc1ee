#!/usr/bin/env python3
"""bugtable.py FILE...: the table of planted bugs in DESIGN.md, from the output
of `runbugs.py -a` (or of runbugs.py: then only a bug's own check is named)."""
import glob, json, re, sys
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) CAUGHT \[(.*)\]", l)
        if m:
            got[m.group(1)] = re.findall(r"C\d\d", m.group(3))
rows = ["| change | caught by | what it needs to show |", "|---|---|---|"]
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = p.split('/')[-2]
    m = json.load(open(p))
    c = got.get(i, [])
    own = m['property']
    c = ['**%s**' % own if own in c else '(%s: missed)' % own] + [x for x in c if x != own] if c else ['?']
    n = m['needs'].strip().rstrip('.')
    rows.append('| %s | %s | %s |' % (i, ' '.join(c), n.replace('|', '/')))
s = open('/verif/DESIGN.md').read()
a = s.index('<!-- bugs -->')
b = s.index('<!-- /bugs -->')
s = s[:a] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n' + s[b:]
open('/verif/DESIGN.md', 'w').write(s)
