#!/usr/bin/env python3
"""Rewrites the property table of DESIGN.md from properties.jsonl and the RULE texts of the checks (run by hand)."""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    tree = ast.parse(open(os.path.join(ROOT, 'harness', 'checks', p['id'].lower() + '.py')).read())
    rule = next(ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and n.targets[0].id == 'RULE')
    text, _, non = rule.partition(' Non-trivial: ')
    rows.append(f'| {p["id"]} | {p["title"]} | {text} | {(non or "always").rstrip(".")} |')
path = os.path.join(ROOT, 'DESIGN.md')
s = open(path).read()
head = '|---|---|---|---|\n'
a = s.index(head) + len(head)
b = s.index('\n\n', a)
with open(path, 'w') as f:
    f.write(s[:a] + '\n'.join(rows) + s[b:])
