#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = {l.split()[0]: l.split(None, 1)[1].strip() if len(l.split(None, 1)) > 1 else '' for l in open(D + '/tools/missed_at_first.txt') if l.strip()}
rows = ['| bug | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for n in sorted(os.listdir(D + '/seeded')):
    m = json.load(open(f'{D}/seeded/{n}/meta.json'))
    by = m['property'] + (f' (missed at first: {late[n]})' if n in late else '')
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {by} |")
s = open(D + '/DESIGN.md').read()
i = s.find('SEEDTABLE') if 'SEEDTABLE' in s else s.find('| bug | property |')
j = s.find('\n\n', i)
rest = s[j:] if j >= 0 and 'SEEDTABLE' not in s else '\n'
open(D + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + rest)
