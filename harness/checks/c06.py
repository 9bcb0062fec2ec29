"""C06: devices do not influence one another."""
import copy

import gerabaldi
import numpy as np
import world as W
from base import Sub, need, ok
from hypothesis import strategies as st

RULE = ('A generated population is simulated as a whole and then again as a generated sub-population (selected lots, '
        'chips and devices, reordered) built from the same initial state, or with another parameter removed from the '
        'model, with the same or an equal model. Every surviving device must report the same values, within the solver slack. Non-trivial: the '
        'sub-population is a proper or reordered selection and there is a stress phase.')


@st.composite
def cases(draw):
    w = draw(W.world(mode=['state'], circ=False, max_steps=5, sensors=False, partial=False, inf=True))
    w['extra'] = {}
    t = w['test']
    nl, nc = t['lots'], t['chps']
    whole = draw(st.integers(0, 2)) == 0  # only reordered, so that both populations have the same shape
    sub = lambda n: draw(st.permutations(list(range(n))))[: n if whole else draw(st.integers(1, n))]
    lots, chps = sub(nl), sub(nc)
    counts = W.fresh_counts(w)
    full = draw(st.booleans())
    for s in t['steps']:
        if s['t'] == 'm' and full:
            s['meas'] = {p: counts[p] for p in s['meas']}
    devs = {p: sub(n) for p, n in counts.items()}
    return {'w': w, 'lots': lots, 'chps': chps, 'devs': devs, 'drop': draw(st.booleans()), 'same': draw(st.booleans())}


def take(tree, lots, chps, devs):
    if isinstance(tree, dict):
        return {k: take(v, lots, chps, devs) for k, v in tree.items()}
    return np.array(tree)[np.ix_(lots, chps, devs)]


def check(c):
    from gerabaldi.models import SimState

    w = c['w']
    counts = W.fresh_counts(w)
    dev = W.build_dev(w)
    state = gerabaldi.gen_init_state(dev, dict(counts), w['test']['chps'], w['test']['lots'])
    rep, ref = W.simulate(w, dev, state=state)
    rows, _ = W.report_rows(rep)
    W.compare(rep, ref)

    w2 = copy.deepcopy(w)
    keep = list(w['prms'])
    if c['drop'] and len(keep) > 1:
        keep = keep[:1]
        w2['prms'] = {p: w2['prms'][p] for p in keep}
    w2['test']['lots'], w2['test']['chps'] = len(c['lots']), len(c['chps'])
    for s in w2['test']['steps']:
        if s['t'] == 'm':
            s['meas'] = {p: min(n, len(c['devs'][p])) for p, n in s['meas'].items() if p in keep} or {keep[0]: len(c['devs'][keep[0]])}
    pick = lambda tree: {p: take(tree[p], c['lots'], c['chps'], c['devs'][p]) for p in keep}
    sub = SimState(pick(state.init_prm_vals), pick(state.init_deg_mech_vals), pick(state.latent_var_vals))
    rep2, ref2 = W.simulate(w2, dev if c['same'] and len(keep) == len(w['prms']) else None, state=sub)
    rows2, _ = W.report_rows(rep2)
    W.compare(rep2, ref2, 'sub-population')
    shared = 0
    for k, (tm, v) in rows2.items():
        i, p, lot, chp, d = k
        k0 = (i, p, c['lots'][lot], c['chps'][chp], c['devs'][p][d])
        if k0 not in rows:
            continue
        shared += 1
        v0 = rows[k0][1]
        lo, hi = min(ref.rows[k0][0], ref2.rows[k][0]), max(ref.rows[k0][1], ref2.rows[k][1])
        sc = float(np.max(np.abs(ref.rs.init[p])))
        need(W.within(v, lo, hi, sc) and W.within(v0, lo, hi, sc), '{} alone reports {!r}, in the population {!r}', k0, v, v0)
    proper = len(c['lots']) < w['test']['lots'] or len(c['chps']) < w['test']['chps'] or \
        any(len(c['devs'][p]) < counts[p] for p in keep) or c['lots'] != sorted(c['lots']) or \
        any(d != sorted(d) for d in c['devs'].values())
    return ok(proper and W.n_stress(w) and shared, *W.world_labels(w))


@st.composite
def reorder_cases(draw):
    w = draw(W.world(mode=['state'], circ=False, prms=1, dims=3, max_steps=3, sensors=False, partial=False))
    w['extra'] = {}
    counts = W.fresh_counts(w)
    p = next(iter(w['prms']))
    m = next(s for s in w['test']['steps'] if s['t'] == 'm' and p in s['meas'])
    m['meas'] = {p: counts[p]}
    w['test']['steps'] = [dict(m), *[s for s in w['test']['steps'] if s['t'] == 's'][:1], dict(m)]
    n = w['test']['lots'] * w['test']['chps'] * counts[p]
    fixed = draw(st.sampled_from([0, 0, n - 1, None]))
    perm = draw(st.permutations([i for i in range(n) if i != fixed]))
    if fixed is not None:
        perm.insert(fixed, fixed)
    return {'w': w, 'perm': perm}


def check_reorder(c):
    """The same model with the same devices at other places, one of which may be as before."""
    from gerabaldi.models import SimState

    w = c['w']
    (p, n), = W.fresh_counts(w).items()
    lots, chps = w['test']['lots'], w['test']['chps']
    dev = W.build_dev(w)
    state = gerabaldi.gen_init_state(dev, {p: n}, chps, lots)

    def move(tree):
        if isinstance(tree, dict):
            return {k: move(v) for k, v in tree.items()}
        return np.array(tree).reshape(-1)[c['perm']].reshape(lots, chps, n)

    moved = SimState(move(state.init_prm_vals), move(state.init_deg_mech_vals), move(state.latent_var_vals))
    for s, what in ((state, 'first'), (moved, 'reordered'), (state, 'once more')):
        W.compare(*W.simulate(w, dev, state=s), what)
    return ok(c['perm'] != sorted(c['perm']), *W.world_labels(w))


SUBS = [Sub('subpopulation', cases(), check, 800), Sub('reordered', reorder_cases(), check_reorder, 400)]
