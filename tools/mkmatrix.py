"""Rewrite the table of planted bugs in DESIGN.md."""
import json, os, re
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = {}
for i in sorted(os.listdir(d + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (d, i)))
    rows.setdefault(m['property'], []).append('`%s` (%s)' % (i, m['what_it_breaks']))
s = open(d + '/DESIGN.md').read()
t = '|---|---|\n' + ''.join('| %s | %s |\n' % (p, '; '.join(rows[p])) for p in sorted(rows))
s = re.sub(r'\|---\|---\|\n(\|.*\n)*', lambda m: t, s, count=1)
open(d + '/DESIGN.md', 'w').write(s)
