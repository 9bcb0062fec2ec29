"""C08: the test summary and clock follow the specification."""
import gerabaldi
import numpy as np
import world as W
from base import Sub, fl, need, ok
from datetime import timedelta
from hypothesis import strategies as st

RULE = ('Generated tests of up to 14 steps with names, durations and condition sets that differ between steps, started '
        'at zero or at a generated elapsed time, with and without environmental variation. The summary must have one row '
        'per step in order with its name, kind, number, duration and requested (not varied) conditions, and start/end '
        'times that run on without gap; measurement times must equal the clock. Some tests only stress or '
        'only read sensors, some have up to 260 steps. Non-trivial: two or more steps, at least '
        'one of them a stress.')


@st.composite
def cases(draw):
    w = draw(W.world(max_steps=13, max_mechs=1, prms=1, dims=2, T=[0.01, 1.0, 24.0, 1000.0], mode=['state', 'fresh']))
    for s in w['test']['steps']:
        for c in draw(st.lists(st.sampled_from(['load', 'ripple']), unique=True, max_size=2)):
            s['conds'][c] = draw(fl(-5.0, 5.0, 3))
        if s['t'] == 's' and draw(st.integers(0, 3)) == 0:
            s['us'] = draw(st.integers(1, 10**7))
    kind = draw(st.sampled_from(['all'] * 8 + ['stress', 'sensors']))
    steps = w['test']['steps']
    if kind == 'stress' and W.n_stress(w):  # nothing is measured
        w['test']['steps'] = [s for s in steps if s['t'] == 's']
    elif kind == 'sensors':  # no device is measured
        for s in steps:
            if s['t'] == 'm':
                c = draw(st.sampled_from(sorted(s['conds']) or ['load']))
                s['conds'].setdefault(c, 1.5)
                s['meas'] = {c: draw(st.integers(1, 3))}
    start = draw(st.one_of(st.just(None), st.integers(0, 10**12), fl(0.0, 1e4, 3)))
    return {'w': w, 'start': start if w['mode'] == 'state' else None}


def check(c):
    w = c['w']
    dev = W.build_dev(w)
    state, us0 = None, 0
    if w['mode'] == 'state':
        kw = {}
        if isinstance(c['start'], int):
            kw = {'elapsed_time': timedelta(microseconds=c['start'])}
            us0 = c['start']
        elif c['start'] is not None:
            kw = {'elapsed_time': c['start']}
            us0 = W.to_us(timedelta(hours=c['start']))
        state = gerabaldi.gen_init_state(dev, W.state_counts(w), w['test']['chps'], w['test']['lots'], **kw)
    env, test = W.build_env(w), W.build_test(w)
    rep = gerabaldi.simulate(test, dev, env, state) if state is not None else gerabaldi.simulate(test, dev, env)
    steps = w['test']['steps']
    s = rep.test_summary
    need(len(s) == len(steps), '{} summary rows for {} steps', len(s), len(steps))
    need(list(s.index) == list(range(len(s))), 'summary index')
    clock, at = us0, {}
    for i, (st_, (_, row)) in enumerate(zip(steps, s.iterrows())):
        dur = st_.get('us', 0)
        need(row['step number'] == i, 'step number {} in row {}', row['step number'], i)
        need(row['step name'] == st_.get('name', 'unspecified'), 'step name {!r}', row['step name'])
        need(row['step type'] == ('stress' if st_['t'] == 's' else 'measure'), 'step type {!r}', row['step type'])
        need(W.to_us(row['duration']) == dur, 'row {} duration {} expected {} us', i, row['duration'], dur)
        need(W.to_us(row['start time']) == clock, 'row {} start {} expected {} us', i, row['start time'], clock)
        clock += dur
        need(W.to_us(row['end time']) == clock, 'row {} end {} expected {} us', i, row['end time'], clock)
        at[i] = clock
        for cond in {x for q in steps for x in q['conds']}:
            if cond in st_['conds']:
                need(row[cond] == st_['conds'][cond], 'row {} condition {} is {!r}, requested {!r}', i, cond, row[cond],
                     st_['conds'][cond])
            else:
                need(W.isnull(row[cond]), 'row {} has condition {} = {!r} that was not requested', i, cond, row[cond])
    rows = sum(n if p in st_['conds'] else n * w['test']['chps'] * w['test']['lots'] for st_ in steps for p, n in st_.get('meas', {}).items())
    need(len(rep.measurements) == rows, '{} measurements instead of {}', len(rep.measurements), rows)
    for step, tm in zip(rep.measurements['step #'], rep.measurements['time']) if rows else ():
        need(steps[step]['t'] == 'm' and W.to_us(tm) == at[step], 'measurement of step {} at {}', step, tm)
    need(rep.test_name == test.name and rep.test_description == test.description, 'report name or description')
    need((rep.num_chps, rep.num_lots) == (w['test']['chps'], w['test']['lots']), 'report quantities')
    return ok(len(steps) > 1 and W.n_stress(w), f'start {type(c["start"]).__name__}', f'steps {min(len(steps), 10)}')


@st.composite
def long_cases(draw):
    c = draw(cases())
    t = c['w']['test']
    n = draw(st.sampled_from([100, 130, 200, 260]))
    t['steps'] = [dict(s) for s in (t['steps'] * n)[:n]]
    for s in t['steps']:
        if s['t'] == 's':
            s['us'] = min(s['us'], draw(st.integers(1, 10**11)))
    return c


SUBS = [Sub('summary', cases(), check, 900), Sub('long', long_cases(), check, 24)]
