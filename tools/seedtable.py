#!/usr/bin/env python3
"""Regenerate the seeded-bug table at the end of DESIGN.md from /verif/seeded/*/meta.json"""
import os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); H = '## Seeded bugs and which check catches them'
MISS = json.load(open(V + '/tools/seedmiss.json')) if os.path.exists(V + '/tools/seedmiss.json') else {}
t = open(V + '/DESIGN.md').read().split(H)[0].rstrip() + '\n\n' + H + '\n\n`tools/runseeds.py` applies each to a scratch clone of /repo and runs the check of its property (quick tier).\n\n| Seed | Breaks | Needs | Caught by |\n|---|---|---|---|\n'
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i))); c = lambda s: re.sub(r'\s+', ' ', s).replace('|', '/')
    t += '| %s | %s | %s | %s |\n' % (i, c(m['what_it_breaks']), c(m['needs']), MISS.get(i, m['property']))
open(V + '/DESIGN.md', 'w').write(t)
