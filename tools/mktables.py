#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md: the parts of the checks (from the evidence
files of the last run) and the seeded changes (from their meta.json)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parts = {}
for i in range(1, 24):
    e = json.load(open(f'{here}/evidence/C{i:02}.json'))
    for k, v in e['coverage']['parts'].items():
        parts.setdefault((k, v), []).append(f'C{i:02}')
names = {}
for (k, v), c in parts.items():
    # "numbers units" of C03 is the same sweep as "units" of C19
    short = k
    for p in ('calendar ', 'geometry ', 'numbers ', 'repeat ', 'selectors ', 'strings '):
        if k.startswith(p): short = k[len(p):]
    names.setdefault((short, v), (set(), set()))
    names[(short, v)][0].update(c); names[(short, v)][1].add(k)
rows = ['| part | in | what is generated or asked |', '|------|----|------|']
for (short, v), (c, k) in sorted(names.items(), key=lambda x: (sorted(x[1][0]), x[0])):
    rows.append(f'| {short} | {" ".join(sorted(c))} | {v} |')
seeded = ['| change | caught by | needs |', '|------|----|------|']
d = f'{here}/seeded'
for b in sorted(os.listdir(d), key=lambda b: (json.load(open(f'{d}/{b}/meta.json'))['property'], b)):
    m = json.load(open(f'{d}/{b}/meta.json'))
    clean = lambda s: re.sub(r'\s+', ' ', s).replace('|', '\\|')
    seeded.append(f'| {b} | {m["property"]} | {clean(m["needs"])}: {clean(m["what_it_breaks"])} |')
t = open(f'{here}/DESIGN.md').read()
for mark, r in (('parts', rows), ('seeded', seeded)):
    t = re.sub(f'(<!-- {mark} -->\n).*?(<!-- end -->)', lambda m: m[1] + '\n'.join(r) + '\n' + m[2], t, flags=re.S)
open(f'{here}/DESIGN.md', 'w').write(t)
