#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and a catch log.

usage: seedtable.py [CATCHLOG]   lines of the log: '<id> <property> : C01=CAUGHT ...'
"""
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        m = re.match(r'(\S+) C\d\d : (.*)', line)
        if m:
            log[m.group(1)] = m.group(2)
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
old = open(os.path.join(ROOT, 'DESIGN.md')).read()
prev = dict(re.findall(r'^\| (\S+) \| C\d\d \| .* \| (.*) \|$', old, re.M))
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    got = ', '.join(re.findall(r'(C\d\d)=CAUGHT', log.get(i, ''))) if i in log else prev.get(i, 'not run')
    rows.append(f'| {i} | {m["property"]} | {m["needs"]} | {got or "none"} |')
a, b = '<!-- seeded -->', '<!-- /seeded -->'
new = a + '\n' + '\n'.join(rows) + '\n' + b
old = old.replace('@SEEDED@', a + b)
old = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: new, old, flags=re.S)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(old)
