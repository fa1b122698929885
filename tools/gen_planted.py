#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/seeded_results.txt."""
import glob, json, re, collections
res = {}
for l in open('/verif/tools/seeded_results.txt'):
    f = l.rstrip('\n').split('\t')
    res[f[0]] = f[2]
rows = collections.defaultdict(list)
n = 0
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = f.split('/')[-2]; d = json.load(open(f)); n += 1
    rows[d['property']].append(f"{i.split('-', 1)[1]} ({d['needs']})" + ('' if res.get(i) == 'exit=1' else ' **not caught**'))
t = '| check | planted change (what it needs) |\n|---|---|\n' + ''.join(f"| {p} | {'; '.join(v)} |\n" for p, v in sorted(rows.items()))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'`seeded/` holds \d+ of them', f'`seeded/` holds {n} of them', s)
s = re.sub(r'\| check \| planted change.*?\n(?=\n)', lambda m: t, s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
