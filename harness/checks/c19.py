"""C19: circuit parameters are computed from the degraded parameters of the very same device."""
from datetime import timedelta

import gerabaldi
import numpy as np
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Generated worlds with circuit parameters over one or two degraded parameters, conditions and latents, measured in '
        'differing quantities before and after stress, compared with a reference device by device; and tests that measure '
        'a circuit together with its inputs, where the formula must hold row by row, and circuits only; and circuits with up to seven parameters, four conditions and three latents. Non-trivial: a '
        'circuit measured for at least two devices, after stress.')


def check(w):
    rep, ref = W.simulate(w)
    W.compare(rep, ref)
    circ = [p for p, q in w['prms'].items() if q['k'] == 'circ']
    rows = [k for k in ref.rows if k[1] in circ]
    after = [i for i, s in enumerate(w['test']['steps']) if s['t'] == 's']
    return ok(len(rows) > 1 and after and max(k[0] for k in rows) > after[0], *W.world_labels(w),
              *(['circuit only'] if all(p in circ or p not in w['prms'] for s in w['test']['steps'] if s['t'] == 'm'
                                        for p in s['meas']) else []))


@st.composite
def row_cases(draw):
    nd = draw(st.integers(1, 4))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            steps.append(['s', {'temp': draw(fl(300.0, 450.0)), 'vdd': draw(fl(0.8, 1.5))}, draw(st.sampled_from([1, 24, 500]))])
        else:
            steps.append(['m', {'temp': draw(fl(300.0, 450.0)), 'vdd': draw(fl(0.8, 1.5))}, draw(st.integers(1, nd)),
                          draw(st.sampled_from(['both', 'both', 'circ']))])
    steps.append(['m', {'temp': 300.0, 'vdd': 1.0}, nd, 'both'])
    return {'steps': steps, 'seed': draw(st.integers(0, 10**6)), 'lots': draw(st.integers(1, 3)), 'chps': draw(st.integers(1, 3)),
            'form': draw(st.sampled_from(['array', 'branch', 'sum'])), 'order': draw(st.permutations(['a', 'b', 'ck'])),
            'extra': draw(st.integers(0, 2)), 'fresh': draw(st.booleans())}


def check_rows(c):
    import gerabaldi.models as M

    r = np.random.default_rng(c['seed']).integers(1, 10**6, 8)
    mk = lambda i, j: M.DegPrmMdl(
        {'m': M.DegMechMdl(lambda time, temp, k: k * (temp / 350.0) ** 2 * (time / 100.0) ** 0.5,
                           k=M.LatentVar(M.Uniform(0.5, 2.0, test_seed=int(r[i]))))},
        init_val_mdl=M.InitValMdl(init_val=M.LatentVar(M.Uniform(1.0, 9.0, test_seed=int(r[j])), M.Uniform(0.9, 1.1, test_seed=int(r[j]) + 1))))
    form = {'array': lambda a, b, vdd: a * vdd - 2.0 * b, 'sum': lambda b, a: a + 3.0 * b,
            'branch': lambda vdd, b, a: a * vdd if a > b else b - a}[c['form']]
    ref = {'array': lambda a, b, vdd: a * vdd - 2.0 * b, 'sum': lambda a, b, vdd: a + 3.0 * b,
           'branch': lambda a, b, vdd: a * vdd if a > b else b - a}[c['form']]
    mdls = {'a': mk(0, 1), 'b': mk(2, 3), 'ck': M.CircPrmMdl(form)}
    dev = M.DeviceMdl({n: mdls[n] for n in c['order']})
    steps = []
    for s in c['steps']:
        if s[0] == 's':
            steps.append(M.StrsSpec(dict(s[1]), timedelta(hours=s[2])))
        else:
            ms = {p: s[2] for p in c['order'] if s[3] == 'both' or p == 'ck'}
            steps.append(M.MeasSpec(ms, dict(s[1])))
    test = M.TestSpec(steps, c['chps'], c['lots'])
    if c['fresh']:
        rep = gerabaldi.simulate(test, dev, M.PhysTestEnv())
    else:
        nd = max(s[2] for s in c['steps'] if s[0] == 'm')
        st_ = gerabaldi.gen_init_state(dev, {'ck': nd, 'a': nd + c['extra']}, c['chps'], c['lots'])
        rep = gerabaldi.simulate(test, dev, M.PhysTestEnv(), st_)
    rows, _ = W.report_rows(rep)
    vals = set()
    for i, s in enumerate(c['steps']):
        if s[0] != 'm':
            continue
        for lt in range(c['lots']):
            for ch in range(c['chps']):
                for d in range(s[2]):
                    ck = rows[(i, 'ck', lt, ch, d)][1]
                    vals.add(ck)
                    if s[3] != 'both':
                        continue
                    a, b = rows[(i, 'a', lt, ch, d)][1], rows[(i, 'b', lt, ch, d)][1]
                    want = ref(a, b, s[1]['vdd'])
                    need(abs(ck - want) <= 1e-9 * max(1, abs(a), abs(b)), 'circuit of lot {} chip {} device {} is {!r}, its '
                         'inputs give {!r}', lt, ch, d, ck, want)
    n = sum(s[2] if s[3] == 'both' else 3 * s[2] for s in c['steps'] if s[0] == 'm')
    return ok(len(vals) > 1, c['form'], 'fresh' if c['fresh'] else 'state')


@st.composite
def wide_cases(draw):
    n = draw(st.integers(2, 7))
    names = draw(st.permutations(['a', 'b', 'c', 'd', 'e', 'f', 'g']))[:n]
    used = draw(st.permutations(names))[: draw(st.integers(1, n))]
    conds = draw(st.permutations(['temp', 'vdd', 'rh', 'bias']))[: draw(st.integers(0, 4))]
    lats = ['k', 'h', 'j'][: draw(st.integers(0, 3))]
    dims = [draw(st.integers(1, 3)) for _ in range(3)]
    return {'names': names, 'used': used, 'conds': conds, 'lats': lats, 'args': draw(st.permutations([*used, *conds, *lats])), 'dims': dims,
            'extra': draw(st.integers(-2, 2)), 'skip': draw(st.integers(0, 1)), 'few': draw(st.integers(0, 2)), 'first': draw(st.booleans()), 'single': draw(st.booleans()),
            'fresh': draw(st.booleans()), 'at': {k: draw(fl(0.5, 4.0, 3)) for k in conds}, 'seed': draw(st.integers(0, 10**6))}


def check_wide(c):
    """Circuits with many inputs of every kind, each with its own weight."""
    import gerabaldi.models as M

    wt = {x: 10.0 ** (i % 3) + i for i, x in enumerate(c['args'])}
    body = ' + '.join(f'{wt[x]!r} * {x}' for x in c['args'])
    eqn = W.mkfn(c['args'], ([f'if {c["args"][0]} > 1e9:', '    return 0.0'] if c['single'] else []) + [f'return {body}'])
    seeds = iter(range(c['seed'], c['seed'] + 100))
    circ = M.CircPrmMdl(eqn, **{k: M.LatentVar(M.Uniform(1, 2, test_seed=next(seeds))) for k in c['lats']})
    prms = {n: M.DegPrmMdl({'m': M.DegMechMdl(lambda time, r: r * time, r=M.LatentVar(M.Uniform(1, 2, test_seed=next(seeds))))},
                           M.InitValMdl(init_val=M.LatentVar(M.Uniform(1, 2, test_seed=next(seeds))))) for n in c['names']}
    dev = M.DeviceMdl({'ck': circ, **prms} if c['first'] else {**prms, 'ck': circ})
    lots, chps, devs = c['dims']
    state = gerabaldi.gen_init_state(dev, {**({} if c['fresh'] else {n: max(1, devs + c['extra']) for n in c['names'][c['skip']::2]}), 'ck': devs}, chps, lots)
    meas = max(1, devs - c['few'])
    conds = {k: 3.3 for k in ('temp', 'vdd', 'rh', 'bias')} | c['at']
    test = M.TestSpec([M.MeasSpec({'ck': devs}, conds), M.StrsSpec(dict(conds), timedelta(hours=10)), M.MeasSpec({'ck': meas}, conds)], chps, lots)
    rows, _ = W.report_rows(gerabaldi.simulate(test, dev, M.PhysTestEnv(), state))
    vals = set()
    for step, n, hours in ((0, devs, 0.0), (2, meas, 10.0)):
        for i in np.ndindex((lots, chps, n)):
            have = {k: state.latent_var_vals['ck'][k][i] for k in c['lats']} | c['at']
            have |= {p: state.init_prm_vals[p][i] + hours * state.latent_var_vals[p]['m']['r'][i] for p in c['used']}
            want = sum(wt[x] * have[x] for x in c['args'])
            got = rows[(step, 'ck', *i)][1]
            need(abs(got - want) <= 2e-3 * abs(want) if hours else abs(got - want) <= 1e-9 * abs(want), 'circuit {} is {!r} instead of {!r}', i, got, want)
            vals.add(got)
    return ok(len(c['args']) > 2 and len(vals) > 1, f'{len(c["used"])} parameters')


SUBS = [Sub('worlds', W.world(circ='always', prms=3, max_mechs=1, dims=3, max_steps=5, vary=True), check, 600),
        Sub('rows', row_cases(), check_rows, 500), Sub('wide', wide_cases(), check_wide, 400)]
