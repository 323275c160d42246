#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md between the header and the next blank line"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    files = sorted({l[6:].strip() for l in open(os.path.dirname(d) + '/patch.diff') if l.startswith('+++ b/')})
    what = re.sub(r'\s+', ' ', m['what_it_breaks']).replace('|', '/')
    if len(what) > 150: what = what[:147] + '...'
    rows.append('| %s | %s | yes | %s: %s |' % (i, m['property'], ', '.join(os.path.basename(f) for f in files), what))
s = open(here + '/DESIGN.md').read()
if '@@TABLE@@' in s: s = s.replace('@@TABLE@@', '\n'.join(rows))
else: s = re.sub(r'(\|-----\|-------\|--------\|--------\|\n)(?:\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open(here + '/DESIGN.md', 'w').write(s)
