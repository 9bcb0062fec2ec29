"""C16: durations mean the same in every time unit and spelling."""
import copy
from datetime import timedelta

import gerabaldi
import numpy as np
import pandas as pd
import world as W
from base import Sub, fl, logfl, known, need, ok, raises
from hypothesis import strategies as st

RULE = ('Generated durations expressed as time deltas (also of pandas) and as numbers (also of numpy) in every unit and spelling (hours when unspecified) '
        'for stress steps, looped appends, initial elapsed time and report conversion, including sequences of '
        'conversions of one report and unknown units; all must denote the same time to the microsecond. Non-trivial: a '
        'unit other than the default, or more than one conversion.')
UNITS = W.UNIT_NAMES
AMOUNT = st.one_of(st.integers(1, 5000), logfl(1e-3, 5000, 4), fl(0.0, 100.0).filter(lambda x: x > 0))


@st.composite
def dur_cases(draw):
    u = draw(st.sampled_from([None, *UNITS]))
    big = st.integers(1, 30 * 365 * 24 * 3600 * 10**6 // int(W.UNIT_US[u or 'h']))  # up to 30 years in any unit
    return {'x': draw(st.one_of(AMOUNT, AMOUNT, big)), 'u': u, 'nt': draw(st.sampled_from([None, None, 'int64', 'float64', 'float32', 'int32'])), 'bad': draw(st.sampled_from(['', 'min', 'H', 'Hours', 'years', 'sec', 'm', 'day', 'hour']))}


def us_exact(x, u):
    """Microseconds as the exact product, (low, high) for the rounding to whole microseconds."""
    from fractions import Fraction

    f = Fraction(x.item() if isinstance(x, np.generic) else x) * int(W.UNIT_US[u or 'h'])
    eps = abs(f) * Fraction(1, 2**50)
    return f - Fraction(51, 100) - eps, f + Fraction(51, 100) + eps


def near(td, x, u):
    lo, hi = us_exact(x, u)
    return lo <= W.to_us(td) <= hi


def check_dur(c):
    import gerabaldi.models as M
    from gerabaldi.exceptions import UserConfigError

    x, u = W.as_type(c['x'], c['nt']), c['u']
    kw = {} if u is None else {'time_unit': u}
    tiny = us_exact(x, u)[1] < 2
    if not tiny:
        s = M.StrsSpec({'temp': 1}, x, **kw)
        need(isinstance(s.duration, timedelta) and near(s.duration, x, u), '{} {} became {}', x, u, s.duration)
        td = timedelta(microseconds=W.to_us(s.duration))
        need(M.StrsSpec({'temp': 1}, td).duration == td, 'time delta changed')
        pdur = M.StrsSpec({'temp': 1}, pd.Timedelta(td)).duration
        if isinstance(pdur, float) and abs(pdur * 3600e6 - W.to_us(td)) <= 1e-9 * W.to_us(td):
            known('pandas-duration')  # exactly the number of hours
        else:
            need(pdur == td, 'pandas time delta became {!r}', pdur)
        need(M.StrsSpec({'temp': 1}, td, time_unit=u or 's').duration == td, 'time delta changed by a unit')
        # looping for the same duration is exactly one pass
        for d, k in ((x, kw), (td, {}), (td, {'time_unit': 'd'})):
            t = M.TestSpec()
            t.append_steps([s], d, **k)
            need(len(t.steps) == 1, '{} passes to cover {} {}', len(t.steps), d, k)
        t = M.TestSpec()
        try:
            t.append_steps([s], pd.Timedelta(td))
            need(len(t.steps) == 1, '{} passes to cover pandas time {}', len(t.steps), td)
        except TypeError:
            need(not t.steps, 'steps added although the duration was refused')
            known('pandas-duration')
        t = M.TestSpec([], 2, 1)
        three = M.StrsSpec({'temp': 1}, 3 * td)
        try:
            t.append_steps(s, 3 * td)
        except UserWarning:
            need(False, 'three passes are not seen as a whole number')
        need(len(t.steps) == 3 and sum((q.duration for q in t.steps), timedelta()) == three.duration, 'three passes')
    raises(UserConfigError, M.StrsSpec, {'temp': 1}, x, 'n', c['bad'])
    if not tiny:
        raises(UserConfigError, M.TestSpec().append_steps, s, x, c['bad'])
    raises(UserConfigError, M.StrsSpec, {'temp': 1}, 0, **kw)
    raises(UserConfigError, M.StrsSpec, {'temp': 1}, timedelta())
    return ok(u is not None, f'unit {u}')


@st.composite
def conv_cases(draw):
    n = draw(st.integers(1, 4))
    return {'us': sorted(draw(st.lists(st.integers(0, 30 * 365 * 86400 * 10**6), min_size=n, max_size=n))),
            'ops': draw(st.lists(st.one_of(
                st.tuples(st.just('conv'), st.sampled_from([None, *UNITS])), st.tuples(st.just('bad'), st.sampled_from(['min', 'H', 'x'])),
                st.tuples(st.just('export'), st.sampled_from(UNITS))).map(list), min_size=1, max_size=5)),
            'frame': draw(st.booleans())}


def check_conv(c):
    import gerabaldi.models as M
    from gerabaldi.exceptions import UserConfigError

    rep = M.SimReport(M.TestSpec([M.MeasSpec({'p': 1}, {})]))
    for i, us in enumerate(c['us']):
        rep.add_measurements(M.SimReport.format_measurements(np.array([[[1.5 + i]]]), 'p', timedelta(microseconds=us), i))
        rep.add_summary_report(pd.DataFrame({
            'step name': 'n', 'step type': 'measure', 'step number': i, 'duration': timedelta(0),
            'start time': timedelta(microseconds=us), 'end time': timedelta(microseconds=us)}, index=[0]))
    unit, convs = None, 0
    for op, u in c['ops']:
        if op == 'bad':
            keep = list(rep.measurements['time'])
            raises(UserConfigError, rep.convert_report_time, u)
            raises(UserConfigError, rep.export_to_json, None, u)
            need(list(rep.measurements['time']) == keep, 'rejected conversion changed the times')
        elif op == 'export':
            rep.export_to_json(time_unit=u)
        else:
            rep.convert_report_time() if u is None else rep.convert_report_time(u)
            unit = u or 'h'
            convs += 1
        got = list(rep.measurements['time'])
        if unit is None:
            need([W.to_us(t) for t in got] == c['us'], 'times changed without conversion')
        else:
            for t, us in zip(got, c['us']):
                want = us / W.UNIT_US[unit]
                # repeated conversions pass through whole microseconds
                need(abs(float(t) - want) <= 1e-12 * want + 1e-9 * (unit == 'us'), '{} us became {!r} {} after {}', us, t, unit, c['ops'])
        need(list(rep.measurements['measured']) == [1.5 + i for i in range(len(c['us']))], 'values changed')
    return ok(convs > 1 or (convs and unit != 'h'), f'conversions {convs}')


@st.composite
def sim_cases(draw):
    w = draw(W.world(mode=['state'], max_steps=4, max_mechs=1, prms=1, dims=2, T=[1.0, 24.0, 1000.0]))
    return {'w': w, 'units': [draw(st.sampled_from(['td', None, *UNITS])) for _ in w['test']['steps']]}


def check_sim(c):
    """The same test written with other duration units gives the same report."""
    import gerabaldi.models as M

    w = copy.deepcopy(c['w'])
    other = []
    for s, u in zip(w['test']['steps'], c['units']):
        if s['t'] == 's':
            s['us'] = max(1, round(s['us'] / 1e6)) * 10**6  # whole seconds
            if u == 'td':
                q = W.build_step(s)
            else:
                x = s['us'] / W.UNIT_US[u or 'h']
                need(True)
                q = M.StrsSpec(dict(s['conds']), x, s.get('name', 'unspecified'), u)
                if W.to_us(q.duration) != s['us']:
                    s['us'] = W.to_us(q.duration)  # not representable to the microsecond
        else:
            q = W.build_step(s)
        other.append(q)
    dev = W.build_dev(w)
    state = W.gen_state(w, dev)
    a, ref = W.simulate(w, dev, state=state)
    b = gerabaldi.simulate(M.TestSpec(other, w['test']['chps'], w['test']['lots']), dev, W.build_env(w), state)
    for x, y, what in ((a.measurements, b.measurements, 'measurements'), (a.test_summary, b.test_summary, 'summaries')):
        x, y = x.copy(), y.copy()
        for f in (x, y):  # only the times themselves count, not their resolution
            for k in f:
                if k in ('time', 'duration', 'start time', 'end time'):
                    f[k] = [W.to_us(t) for t in f[k]]
        need(x.equals(y), '{} differ', what)
    W.compare(b, ref)
    return ok(W.n_stress(w) and any(u not in ('td', None) for u in c['units']))


@st.composite
def elapsed_cases(draw):
    return {'x': draw(st.one_of(st.integers(0, 5000), fl(0.0, 5000.0))), 'td': draw(st.sampled_from(['', 'td', 'pd', 'int64', 'float64']))}


def check_elapsed(c):
    import gerabaldi.models as M

    dev = M.DeviceMdl({'p': M.DegPrmMdl({'m': M.DegMechMdl(lambda time: time)})})
    e = W.as_type(c['x'], c['td'] or None) if c['td'] not in ('td', 'pd') else timedelta(hours=c['x'])
    if c['td'] == 'pd':
        e = pd.Timedelta(e)
    stt = gerabaldi.gen_init_state(dev, {'p': 1}, elapsed_time=e)
    rep = gerabaldi.simulate(M.TestSpec([M.MeasSpec({'p': 1}, {}), M.StrsSpec({}, 2, time_unit='s'), M.MeasSpec({'p': 1}, {})]),
                             dev, M.PhysTestEnv(), stt)
    t = [W.to_us(x) for x in rep.measurements['time']]
    need(near(timedelta(microseconds=t[0]), c['x'], 'h') and t[1] == t[0] + 2 * 10**6, 'times {}', t)
    return ok(c['x'] > 0)


SUBS = [Sub('durations', dur_cases(), check_dur, 1500), Sub('convert', conv_cases(), check_conv, 1200),
        Sub('sim', sim_cases(), check_sim, 250), Sub('elapsed', elapsed_cases(), check_elapsed, 200)]
