#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_*.md, known_findings.txt and seeded/*/meta.json (development only: no check runs this)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(f'{V}/tools/{f}').read()
out = rd('design_head.md') + rd('design_props.md') + rd('design_tail.md')
out += '| property | commit | what failed |\n|---|---|---|\n'
for l in sorted(l for l in open(V + '/known_findings.txt') if l.startswith('fixed:')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l); out += f'| {m[1]} | {m[2]} | {m[3].replace("|", "&#124;")} |\n'
    
out += rd('design_seeds.md')
out += '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out += f'| {n} | {m["property"]} | {m["needs"].replace("|", "&#124;")} | {res.get(n, m["property"])} |\n'
open(V + '/DESIGN.md', 'w').write(out)
