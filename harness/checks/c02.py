"""C02: splitting stress phases and inserting measurements does not change the outcome of a test."""
import copy

import gerabaldi
import numpy as np
import world as W
from base import Sub, need, ok
from hypothesis import strategies as st

RULE = ('Generated worlds run twice from one initial state: as given, and with stress phases split into up to four parts '
        'of the same conditions and/or extra measurement steps inserted. Values at the shared measurements must agree '
        '(exactly when only measurements were inserted, else within the solver slack), and the split run must also agree '
        'with the closed-form reference. Non-trivial: a phase was split, or a measurement was inserted before a stress.')


@st.composite
def cases(draw, split, **o):
    w = draw(W.world(mode=['state'], partial=False, vary=True, **o))
    cuts = []
    for s in w['test']['steps']:
        n = draw(st.integers(0, 3)) if split and s['t'] == 's' else 0
        cuts.append([draw(st.floats(0.02, 0.98)) for _ in range(n)])
    ins = []
    meas = [s for s in w['test']['steps'] if s['t'] == 'm']
    for _ in range(draw(st.integers(0 if split else 1, 3))):
        m = copy.deepcopy(draw(st.sampled_from(meas)))
        m['conds'] = draw(st.sampled_from([s['conds'] for s in w['test']['steps']]))
        ins.append([draw(st.integers(0, len(w['test']['steps']))), m])
    return {'w': w, 'cuts': cuts, 'ins': ins}


def variant(c):
    """(steps, origin): origin[i] is the index of the original step that variant step i stands for, or None."""
    steps, origin = [], []
    for i, s in enumerate(c['w']['test']['steps']):
        for pos, m in c['ins']:
            if pos == i:
                steps.append(m)
                origin.append(None)
        cut = sorted({0, s['us'], *(int(f * s['us']) for f in c['cuts'][i])}) if s['t'] == 's' else []
        if len(cut) > 2:
            for a, b in zip(cut, cut[1:]):
                steps.append({**s, 'us': b - a})
                origin.append(i if b == s['us'] else None)
        else:
            steps.append(s)
            origin.append(i)
    for pos, m in c['ins']:
        if pos == len(c['w']['test']['steps']):
            steps.append(m)
            origin.append(None)
    return steps, origin


def check(c):
    w = c['w']
    dev, env = W.build_dev(w), W.build_env(w)
    steps, origin = variant(c)
    state = W.gen_state(w, dev)
    base, ref0 = W.simulate(w, dev, env, None, state)
    vari, ref1 = W.simulate(w, dev, env, steps, state)
    W.compare(vari, ref1, 'changed test')
    r0, c0 = W.report_rows(base)
    r1, c1 = W.report_rows(vari)
    back = {o: i for i, o in enumerate(origin) if o is not None}
    exact = not any(len(x) for x in c['cuts'])
    for k, (tm, v) in r0.items():
        k1 = (back[k[0]], *k[1:])
        tm1, v1 = r1[k1]
        need(tm == tm1, 'time of {} changed from {} to {}', k, tm, tm1)
        if exact:
            need(v == v1 or abs(v - v1) <= 1e-12 * abs(v), '{}: {!r} became {!r} when measurements were inserted', k, v, v1)
        else:
            lo, hi = min(ref0.rows[k][0], ref1.rows[k1][0]), max(ref0.rows[k][1], ref1.rows[k1][1])
            sc = float(np.max(np.abs(ref0.rs.init[k[1]]))) if k[1] in ref0.rs.init else 1e-6
            need(W.within(v, lo, hi, sc) and W.within(v1, lo, hi, sc), '{}: {!r} became {!r}, expected [{!r}, {!r}]',
                 k, v, v1, lo, hi)
    late = any(o is None and s['t'] == 'm' and any(x['t'] == 's' for x in steps[i:])
               for i, (o, s) in enumerate(zip(origin, steps)))
    return ok(not exact or late, *W.world_labels(w))


SUBS = [
    Sub('split', cases(True, kinds=['deg', 'deg', 'none'], max_steps=4), check, 500),
    Sub('insert', cases(False), check, 500),
]
