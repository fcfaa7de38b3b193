#!/usr/bin/env python3
# regenerates DESIGN.md from DESIGN.head.md, the harness comments, and seeded/*/meta.json
import re, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root + '/DESIGN.head.md').read()
cat = {}
for f in sorted(glob.glob(root + '/harness/*.go')):
    for m in re.finditer(r'((?:^//[^\n]*\n)*)^func (C\d\d_\w+)\(\)', open(f).read(), re.M):
        c = re.sub(r'\s*\n// ?', ' ', m[1].strip()).lstrip('/ ')
        cat[m[2]] = re.sub(r'^C\d\d_\w+: ', '', c)
s = s.replace('CATALOGUE', '\n'.join('* `%s` %s' % (k, cat[k]) for k in sorted(cat)))
caught = json.load(open(root + '/tools/caught.json'))
rows = ['| id | property | change | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*')):
    i = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), caught.get(i, '-')))
s = s.replace('SEEDTABLE', '\n'.join(rows))
open(root + '/DESIGN.md', 'w').write(s)
