#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[1]
    rows.append(f"| `{i}` | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
s = open('DESIGN.md').read()
a = s.index('<!-- seeds -->'); b = s.index('<!-- /seeds -->')
s = s[:a] + '<!-- seeds -->\n| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:]
open('DESIGN.md', 'w').write(s)
