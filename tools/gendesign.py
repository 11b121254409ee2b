#!/usr/bin/env python3
"""Puts DESIGN.md together."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
rules, ass = {}, {}
for f in sorted(glob.glob('harness/cmd/*/*.go')):
    s = open(f).read()
    for m in re.finditer(r'ID: "(\w+)", Level: "\w+",?(.*?)\bRun:', s, re.S):
        b = m.group(2)
        rules[m.group(1)] = re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"', b).group(1)
        a = re.search(r'Assumptions:\s*\[\]string\{(.*?)\}', b, re.S)
        ass[m.group(1)] = re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(1)) if a else []
man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
out = [open('tools/design/head.md').read()]
for l in open('properties.jsonl'):
    x = json.loads(l)
    i = x['id']
    out.append(f"### {i} {x['title']}\n\n")
    if i not in man:
        out.append("Not claimed yet.\n\n")
        continue
    out.append(f"*By* {man[i]['technique']}.\n\n{rules[i][0].upper()+rules[i][1:]}.\n")
    if ass[i]:
        out.append("\nAssumed: " + "; ".join(ass[i]) + ".\n")
    out.append("\nLimits: " + man[i]['level_note'] + ".\n\n")
out.append(open('tools/design/tail.md').read())
out.append("\n## Planted bugs\n\n`tools/seed.sh ID…` proves a planted bug in a scratch copy (demo on the clean and\nthe changed tree, unit tests) and runs the check of its property against it.\n\n| id | property | needs | check |\n|---|---|---|---|\n")
res = {}
if os.path.exists('tools/design/caught.txt'):
    for l in open('tools/design/caught.txt'):
        p = l.split(None, 1)
        if len(p) == 2:
            res[p[0]] = p[1].strip()
for d in sorted(glob.glob('seeded/*/meta.json')):
    i = d.split('/')[1]
    m = json.load(open(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '')} |\n")
open('DESIGN.md', 'w').write("".join(out))
