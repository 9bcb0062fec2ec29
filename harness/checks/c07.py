"""C07: the measurement table holds exactly what the test asked for, each value in the right row."""
import gerabaldi
import numpy as np
import world as W
from base import Sub, fl, need, ok
from datetime import timedelta
from hypothesis import strategies as st

RULE = ('Generated tests with several parameters, sensors, lots, chips and device counts that differ between measurement '
        'steps; devices carry distinct values. The table must have exactly one row per requested lot, chip and device '
        '(and one per sensor), labelled and timed correctly, holding that device\'s value. Non-trivial: at least two '
        'measurement rows with distinct values over at least two lots, chips or devices. Some populations have up to 300 devices, chips, lots or sensors.')
COLS = {'param', 'step #', 'device #', 'chip #', 'lot #', 'time', 'measured'}


def check(w):
    rep, ref = W.simulate(w)
    m = rep.measurements
    need(COLS <= set(m.columns), 'columns {}', list(m.columns))
    need(list(m.index) == list(range(len(m))), 'row index is not 0..n-1')
    want = 0
    for s in w['test']['steps']:
        if s['t'] == 'm':
            for p, n in s['meas'].items():
                want += n * w['test']['chps'] * w['test']['lots'] if p in w['prms'] else n
    need(len(m) == want, '{} rows, expected {}', len(m), want)
    W.compare(rep, ref)
    # rows of a later step never precede those of an earlier one
    need(list(m['step #']) == sorted(m['step #']), 'steps out of order')
    vals = {ref.rows[k][0] for k in ref.rows}
    return ok(len(vals) > 1 and len(ref.rows) > 1, *W.world_labels(w), f'rows {min(64, 1 << len(m).bit_length())}')


@st.composite
def fmt_cases(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    n = int(np.prod(shape))
    return {'shape': shape, 'vals': draw(st.lists(fl(-1e3, 1e3), min_size=n, max_size=n)),
            'type': draw(st.sampled_from(['parameter', 'condition', None])), 'step': draw(st.integers(0, 40)),
            'us': draw(st.integers(0, 10**13)), 'as': draw(st.sampled_from(['array', 'list']))}


def check_fmt(c):
    from gerabaldi.models import SimReport

    arr = np.array(c['vals'], dtype=float).reshape(c['shape'])
    t = timedelta(microseconds=c['us'])
    args = (arr.copy() if c['as'] == 'array' else arr.tolist(), 'prm', t, c['step'])
    df = SimReport.format_measurements(*args, c['type']) if c['type'] else SimReport.format_measurements(*args)
    full = arr.reshape((1,) * (3 - arr.ndim) + arr.shape)
    need(len(df) == arr.size, 'rows {}', len(df))
    need(set(df['param']) == {'prm'} and set(df['step #']) == {c['step']}, 'param or step')
    need(all(W.to_us(x) == c['us'] for x in df['time']), 'time')
    if c['type'] == 'condition':
        for col in ('device #', 'chip #', 'lot #'):
            need(all(W.isnull(x) for x in df[col]), 'labels on condition rows')
        need(sorted(df['measured']) == sorted(c['vals']), 'values')
    else:
        seen = {}
        for d, ch, lt, v in zip(df['device #'], df['chip #'], df['lot #'], df['measured']):
            seen[(int(lt), int(ch), int(d))] = v
        need(seen == {idx: full[idx] for idx in np.ndindex(full.shape)}, 'values do not match their labels: {}', seen)
    return ok(arr.size > 1 and len(set(c['vals'])) > 1, f'{arr.ndim} dimensions')


@st.composite
def prefix_cases(draw):
    w = draw(W.world(mode=['state'], max_steps=4, circ=True, dims=4))
    return w


def check_prefix(w):
    """Within one step's moment in time, a device reports the same whichever number of devices is measured."""
    import copy

    w = copy.deepcopy(w)
    dev = W.build_dev(w)
    state = W.gen_state(w, dev)
    a, ref = W.simulate(w, dev, state=state)
    w2 = copy.deepcopy(w)
    cnt = W.state_counts(w2, extra={})
    for s in w2['test']['steps']:
        if s['t'] == 'm':
            s['meas'] = {p: cnt.get(p, n) for p, n in s['meas'].items()}
    b, ref2 = W.simulate(w2, dev, state=state)
    ra, rb = W.report_rows(a)[0], W.report_rows(b)[0]
    more = 0
    need(set(ra) <= set(rb), 'rows lost when measuring more devices')
    for k in ra:
        need(ra[k][1] == rb[k][1] or abs(ra[k][1] - rb[k][1]) <= 1e-12 * abs(ra[k][1]), '{} differs: {!r} {!r}', k, ra[k][1],
             rb[k][1])
    more = len(rb) - len(ra)
    return ok(more > 0, 'more devices in second run' if more else 'same devices')


@st.composite
def many_cases(draw):
    shape = [draw(st.integers(1, 3)) for _ in range(3)]
    shape[draw(st.integers(0, 2))] = draw(st.sampled_from([40, 127, 128, 129, 140, 256, 257, 300, 3000]))
    return {'shape': shape, 'n': draw(st.integers(1, 4)), 'seed': draw(st.integers(1, 10**6)), 'sensors': draw(st.sampled_from([1, 2, 130, 300]))}


def check_many(c):
    """Large populations: every row still carries the labels and the value of its own device."""
    import gerabaldi.models as M

    lots, chps, devs = c['shape']
    mdl = M.DeviceMdl(M.DegPrmMdl({'m': M.DegMechMdl()}, M.InitValMdl(init_val=M.LatentVar(M.Uniform(1, 2, test_seed=c['seed']))), prm_name='x'))
    state = gerabaldi.gen_init_state(mdl, {'x': devs}, chps, lots)
    some = max(1, devs - c['n'])
    spec = M.TestSpec([M.MeasSpec({'x': devs, 'temp': c['sensors']}, {'temp': 300}), M.MeasSpec({'x': some}, {'temp': 300})], chps, lots)
    m = gerabaldi.simulate(spec, mdl, M.PhysTestEnv(), state).measurements
    truth = state.init_prm_vals['x']
    for step, n in ((0, devs), (1, some)):
        rows = m[(m['step #'] == step) & (m['param'] == 'x')]
        seen = {(int(lt), int(ch), int(d)): v for lt, ch, d, v in zip(rows['lot #'], rows['chip #'], rows['device #'], rows['measured'])}
        need(len(rows) == lots * chps * n, '{} rows', len(rows))
        exp = {i: truth[i] for i in np.ndindex((lots, chps, n))}
        bad = [k for k in exp if k not in seen or seen[k] != exp[k]]
        need(len(seen) == len(exp) and not bad, 'lot, chip and device {}: {} instead of {}', bad[:1], seen.get(bad[0]) if bad else None,
             exp[bad[0]] if bad else None)
    rows = m[m['param'] == 'temp']
    need(len(rows) == c['sensors'] and set(rows['measured']) == {300}, 'sensors: {} rows', len(rows))
    return ok(True, f'largest {max(c["shape"])}')


SUBS = [
    Sub('table', W.world(dims=4, max_steps=5, prms=3, max_mechs=1, vary=True), check, 600),
    Sub('format', fmt_cases(), check_fmt, 1500),
    Sub('many', many_cases(), check_many, 60),
    Sub('prefix', prefix_cases(), check_prefix, 350),
]
