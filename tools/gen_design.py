#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | found by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); c = lambda s: re.sub(r'\s+', ' ', s).replace('|', '/')
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m.get('found_by', m['property']), c(m['what_it_breaks']), c(m['needs'])))
p = os.path.join(V, 'DESIGN.md'); t = open(p).read()
if '@@TABLE@@' in t: t = t.replace('@@TABLE@@', '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->')
else: t = re.sub(r'<!-- table -->.*<!-- /table -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->', t, flags=re.S)
open(p, 'w').write(t)
