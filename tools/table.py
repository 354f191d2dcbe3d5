#!/usr/bin/env python3
"""table.py TRY-OUTPUT: rewrite the table at the end of DESIGN.md from the output of try.sh/trybg.sh"""
import json, os, re, sys
tb = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) \((C\d+)\): rc=1 violated: (.*?) \[(\w+)\]', l)
        if m: tb[m[1]] = (m[4], m[3])
head = '\n## Table of planted bugs\n\n'
s = open('DESIGN.md').read()
old = {}
if head in s:
    s, t = s.split(head)
    for l in t.splitlines():
        c = [x.strip() for x in l.strip().strip('|').split('|')]
        if len(c) == 5 and c[0] != 'id' and c[3].startswith('`'): old[c[0]] = (c[3].strip('`'), c[4])
out = s.rstrip('\n') + '\n' + head + '| id | property | needs | caught by | assertion |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    e, c = tb.get(d) or old.get(d) or ('not caught', '')
    out += f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | `{e}` | {c} |\n"
open('DESIGN.md', 'w').write(out)
