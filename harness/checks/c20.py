"""C20: conditional shifts act at the moment of measurement only."""
import copy

import gerabaldi
import numpy as np
import world as W
from base import Sub, need, ok
from hypothesis import strategies as st

RULE = ('Generated worlds whose parameters all have conditional shifts (additive or multiplicative, with latents), measured '
        'at several conditions between stress phases; each measurement step is repeated after others at different '
        'conditions and must read exactly the same, all values agree with a reference in which shifts never enter the '
        'stored degradation, and changing the conditions of one measurement changes no other. Non-trivial: two '
        'measurements at different conditions and a stress phase.')


def blocks(steps, rep):
    """Every run of measurements A B C becomes A B C A: later ones cannot disturb earlier ones."""
    out, origin, run = [], [], []
    for i, s in enumerate(steps):
        if s['t'] == 'm':
            run.append((i, s))
        else:
            if len(run) and rep:
                out.append(run[0][1])
                origin.append(run[0][0])
            run = []
        out.append(s)
        origin.append(i)
    if run and rep:
        out.append(run[0][1])
        origin.append(run[0][0])
    return out, origin


def same(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))


@st.composite
def cases(draw):
    w = draw(W.world(mode=['state'], partial=False, cond=True, max_steps=5, circ=True, sensors=False, vary=True))
    conds = sorted(w['test']['steps'][0]['conds'])
    for s in list(w['test']['steps']):
        if s['t'] == 'm' and draw(st.booleans()):
            i = w['test']['steps'].index(s)
            t = copy.deepcopy(s)
            t['conds'] = {c: draw(W.level(c)) for c in conds}
            w['test']['steps'].insert(i + 1, t)
    ms = [i for i, s in enumerate(w['test']['steps']) if s['t'] == 'm']
    return {'w': w, 'which': draw(st.sampled_from(ms)), 'other': {c: draw(W.level(c)) for c in conds}}


def check(c):
    w = c['w']
    dev, env = W.build_dev(w), W.build_env(w)
    state = W.gen_state(w, dev)
    a, ref = W.simulate(w, dev, env, state=state)
    W.compare(a, ref)
    ra = W.report_rows(a)[0]
    steps, origin = blocks(w['test']['steps'], True)
    b = gerabaldi.simulate(W.build_test(w, steps), dev, env, state)
    rb = W.report_rows(b)[0]
    for (i, *k), (_, v) in rb.items():
        x = ra[(origin[i], *k)][1]
        need(same(v, x), 'repeated measurement of step {} reads {!r} instead of {!r}: {}', origin[i], v, x, k)
    w2 = copy.deepcopy(w)
    w2['test']['steps'][c['which']]['conds'] = c['other']
    d, ref2 = W.simulate(w2, dev, env, state=state)
    W.compare(d, ref2)
    rd = W.report_rows(d)[0]
    for k in ra:
        if k[0] != c['which']:
            need(same(ra[k][1], rd[k][1]), 'step {} reads {!r} or {!r} depending on the conditions of measurement {}', k[0],
                 ra[k][1], rd[k][1], c['which'])
    ms = [s['conds'] for s in w['test']['steps'] if s['t'] == 'm']
    return ok(W.n_stress(w) and any(x != ms[0] for x in ms), *W.world_labels(w))


SUBS = [Sub('shift', cases(), check, 700)]
