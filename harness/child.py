"""Simulates the worlds of a JSON file in a process of its own and prints the reports (used by C09)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from run import REPO, deps

deps()
sys.path.insert(0, REPO)
sys.stderr = open(os.devnull, 'w')
import logging

import gerabaldi
import world as W

logging.getLogger('gerabaldi').setLevel(logging.CRITICAL)
made, mk_dist = {}, W.mk_dist


def shared_dist(d):
    """One object for equal descriptions."""
    key = json.dumps(d, sort_keys=True)
    if d is not None and key not in made:
        made[key] = mk_dist(d)
    return made.get(key)


def rows(frame):
    return [[None if W.isnull(x) else repr(float(x)) if isinstance(x, float) else str(x) for x in frame[c]] for c in frame.columns]


out = []
with open(sys.argv[1]) as f:
    batch = json.load(f)
for c in batch:
    made.clear()
    W.mk_dist = shared_dist if c['onedist'] else mk_dist
    w = c['w']
    dev, env, test = W.build_dev(w), W.build_env(w), W.build_test(w)
    r = gerabaldi.simulate(test, dev, env, None if c['fresh'] else W.gen_state(w, dev))
    out.append([list(r.measurements.columns), rows(r.measurements), list(r.test_summary.columns), rows(r.test_summary)])
print(json.dumps(out))
