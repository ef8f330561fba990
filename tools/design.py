#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (planted changes, coverage of the last quick runs)."""
import json, glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(here + '/DESIGN.md').read()
def fill(name, text):
    global s
    b, e = f'<!-- {name}:begin -->', f'<!-- {name}:end -->'
    i, j = s.index(b) + len(b), s.index(e)
    s = s[:i] + '\n' + text.strip() + '\n' + s[j:]
rows = ['| change | reported by | what it needs | what it breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda x: x.replace('|', '/').replace('\n', ' ')
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
fill('seeded', '\n'.join(rows))
if '-coverage' in sys.argv:
    fill('coverage', subprocess.check_output([sys.executable, here + '/tools/coverage.py'], text=True))
open(here + '/DESIGN.md', 'w').write(s)
