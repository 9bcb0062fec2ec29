"""C05: stress that cannot age a device leaves it unchanged, and no stress ever heals it."""
import copy

import numpy as np
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Generated histories of aging phases and phases that cannot add degradation (zero rate below a threshold, or a '
        'saturation level below the damage already done), measured after every phase under constant conditions. Values '
        'must stay put through the latter and move monotonically through the former; all values are also compared with '
        'the closed-form reference. Some environments vary the conditions between devices or chips. Non-trivial: a device with damage goes through a phase that cannot age it.')


@st.composite
def cases(draw):
    """One mechanism with a rate threshold on temp and an amplitude that scales with vdd."""
    shape = draw(st.sampled_from(['pow', 'log', 'sat', 'sat']))
    sign = draw(st.sampled_from([1.0, -1.0]))
    unit = draw(st.sampled_from([0, 0, 1])) if sign > 0 else 0
    any_unit = draw(st.integers(0, 2)) == 0
    if any_unit:
        unit = draw(st.sampled_from([7, -1, 0.5, 40.0]))
    tu = draw(st.sampled_from(['d', 'h', 's', 'ms', 'us']))
    T = draw(st.sampled_from([1.0, 24.0, 2000.0])) * W.H_US
    if T / W.UNIT_US[tu] < 0.5:
        T = 24 * W.H_US
    tau = T / W.UNIT_US[tu] * draw(st.sampled_from([0.2, 1.0, 5.0]))
    thr = draw(fl(0.7, 1.1, 3))
    lat = {}
    own = draw(st.booleans())  # each device has a threshold of its own
    if own:
        lat['th'] = {'dev': {'d': 'U', 'a': thr, 'b': thr + 0.03}}
    k = draw(W.latent(0.5, 2.0))
    R = ['div', ['mul', ['var', 'k'], ['max0', ['sub', ['div', ['var', 'temp'], ['const', 350.0]],
                                                 ['var', 'th'] if own else ['const', thr]]]],
         ['const', tau]]
    lat['k'] = k
    A = ['mul', ['const', draw(st.sampled_from([1.0, 0.01, 30.0]))], ['div', ['var', 'vdd'], ['const', 1.2]]]
    n = ['const', draw(st.sampled_from([0.3, 1.0]))]
    m = {'k': 'deg', 'unit': unit, 'sign': sign, 'A': A, 'R': R, 'n': n, 'shape': shape, 'tu': tu, 'lat': lat,
         'style': draw(st.sampled_from(['array', 'array', 'scalar'])), 'rot': draw(W.rots(3))}
    fam = 'usum' if any_unit else 'default' if unit == 0 else 'mix'
    init = None if unit == 0 else {'fam': 'basic', 'lat': {'init_val': {'det': 3.0}}}
    p = {'k': 'deg', 'tu': None, 'mechs': {'m': m}, 'init': init, 'cond': None,
         'compute': {'fam': fam, 'lat': {}, 'w': {'m': ['const', 1.0]}, 'rot': 0, 'style': 'array',
                     **({'cu': 0} if any_unit else {})}}
    steps = []
    mc = {'temp': 350.0, 'vdd': 1.2}
    cnt = draw(st.integers(1, 4))
    for _ in range(draw(st.integers(2, 7))):
        kind = draw(st.sampled_from(['age', 'age', 'cold', 'weak', 'edge', *(['mid'] * 2 if own else [])]))
        temp = {'mid': 350.0 * (thr + draw(fl(0.002, 0.028, 3))), 'cold': draw(fl(100.0, 350.0 * thr, 4)), 'edge': 350.0 * thr}.get(kind, draw(fl(400.0, 600.0, 4)))
        vdd = draw(fl(0.01, 0.3, 2)) if kind == 'weak' else draw(st.sampled_from([1.2, 1.3, 2.0]))
        temp = min(temp, 350.0 * thr * (1 - 1e-9)) if kind in ('cold', 'edge') else temp
        steps.append({'t': 's', 'conds': {'temp': temp, 'vdd': vdd}, 'us': round(T * draw(st.sampled_from([0.2, 1, 3])))})
        steps.append({'t': 'm', 'conds': mc, 'meas': {'p': cnt}})
    vr = {}
    if draw(st.integers(0, 2)) == 0:  # conditions that differ between the devices or chips
        for c in draw(st.lists(st.sampled_from(['temp', 'vdd']), unique=True, min_size=1)):
            vr[c] = {'type': 'scaling', draw(st.sampled_from(['dev', 'chp'])):
                     {'d': 'P', 'v': draw(st.lists(fl(0.6, 1.4, 3), min_size=2, max_size=5))}}
    return {'mode': 'state', 'tu': None, 'prms': {'p': p}, 'env': {'vrtn': vr, 'instm': {}}, 'extra': {}, 'T': T,
            'test': {'chps': draw(st.integers(1, 2)), 'lots': draw(st.integers(1, 2)), 'steps': steps}}


def check(w):
    dev = W.build_dev(w)
    state = W.gen_state(w, dev)
    rep, ref = W.simulate(w, dev, state=state)
    W.compare(rep, ref)
    rows, _ = W.report_rows(rep)
    p = w['prms']['p']
    m = p['mechs']['m']
    init = state.init_prm_vals['p']
    # Follow the reference again to know which phases cannot age which device
    probe = W.RefSim(w, W.RefState(w, state))
    frozen = 0
    prev = {idx: float(init[idx]) for idx in np.ndindex(init.shape)}
    for i, s in enumerate(w['test']['steps']):
        rm = probe.mechs['p']['m']
        before = (rm.lo.copy(), rm.hi.copy())
        probe.step(i, s)
        if s['t'] == 's':
            c = probe.conds_of(s, 'p', rm.dims[2])
            env = {**{k: np.full(rm.dims, v) for k, v in c.items()}, **rm.lat}
            A = np.broadcast_to(W.evl(m['A'], env), rm.dims)
            R = np.broadcast_to(W.evl(m['R'], env), rm.dims)
            stuck = (R <= 0) | ((m['shape'] == 'sat') & (before[0] > A * 1.0001))
            continue
        for idx in np.ndindex(init.shape):
            key = (i, 'p', *idx)
            if key not in rows:
                continue
            v, old = rows[key][1], prev[idx]
            scale = max(abs(v), abs(old), abs(float(init[idx])))
            if stuck[idx]:
                need(abs(v - old) <= 1e-12 * scale, '{}: {!r} became {!r} in a phase that cannot age it', key, old, v)
                frozen += before[1][idx] > 0
            else:
                dv, dold = (v - init[idx]) * m['sign'], (old - init[idx]) * m['sign']
                need(dv >= dold * (1 - 1e-4) - 1e-12 * scale, '{}: damage went from {!r} to {!r}', key, dold, dv)
            prev[idx] = v
    return ok(frozen > 0, f'shape {m["shape"]}', f'frozen device-phases {min(int(frozen), 5)}')


def check_mono(w):
    """Every generated mechanism moves its parameter one way only."""
    rep, ref = W.simulate(w)
    rows, _ = W.report_rows(rep)
    W.compare(rep, ref)
    hist = {}
    for k in sorted(rows):
        hist.setdefault(k[1:], []).append(rows[k][1])
    for k, vals in hist.items():
        m = next(iter(w['prms'][k[0]]['mechs'].values()))
        i0 = float(ref.rs.init[k[0]][k[1:]])
        d = [(v - i0) * m.get('sign', 1.0) for v in vals]
        for a, b in zip(d, d[1:]):
            need(b >= a * (1 - 1e-4) - 1e-9 * max(1e-9, abs(i0)), '{}: damage went from {!r} to {!r}', k, a, b)
    return ok(W.n_stress(w) >= 2, *W.world_labels(w))


def dense(w):
    from checks.c04 import dense as d

    for p in w['prms'].values():
        p['cond'] = None
    return d(w)


SUBS = [
    Sub('frozen', cases(), check, 700),
    Sub('monotone', W.world(kinds=['deg'], fams=['default'], circ=False, env=False, instm=False, max_mechs=1,
                            sensors=False, max_steps=7).map(dense), check_mono, 400),
]
