"""C14: a report survives export to JSON and loading."""
import copy
import json
import os
import shutil
import tempfile
from datetime import timedelta

import numpy as np
import pandas as pd
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Reports from simulated generated tests, and reports assembled from arbitrary measurements (also infinite or undefined, or none at all), names and times '
        'up to 30 years, are exported in every time unit (to a file in new nested directories, or as a dictionary), also '
        'after their times were converted, then loaded: all values equal, all times equal to the microsecond; exporting '
        'leaves the report unchanged, and exporting the loaded report again gives the same document. Non-trivial: at '
        'least two measurements, one of which is not a small integer.')
UNITS = [None, *W.UNIT_NAMES]
FULL = {'d': 'days', 'h': 'hours', 's': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds'}
SUMMARY_TIMES = ('duration', 'start time', 'end time')


def us_of(x, unit):
    return W.to_us(x) if isinstance(x, timedelta) else round(x * W.UNIT_US[unit])


def number(x):
    need(isinstance(x, (float, int, np.number)), 'measured value {!r} is not a number', x)
    return 'undefined' if x != x else float(x)


def snapshot(rep, unit=None):
    """Everything a reader can see: rows of both tables as plain values with times in microseconds."""
    out = {'name': rep.test_name, 'desc': rep.test_description, 'chps': rep.num_chps, 'lots': rep.num_lots,
           'devs': dict(rep.dev_counts) if rep.dev_counts is not None else None}
    rows = []
    for _, r in rep.measurements.iterrows():
        rows.append((r['param'], int(r['step #']), *(None if W.isnull(r[c]) else int(r[c]) for c in
                    ('lot #', 'chip #', 'device #')), us_of(r['time'], unit), number(r['measured'])))
    out['rows'] = rows
    summ = []
    for _, r in rep.test_summary.iterrows():
        d = {}
        for c in rep.test_summary.columns:
            v = r[c]
            if c in SUMMARY_TIMES:
                d[c] = us_of(v, unit)
            elif not W.isnull(v):
                d[c] = v if isinstance(v, str) else float(v)
        summ.append(d)
    out['summary'] = summ
    return out


def frames(rep):
    return rep.measurements.copy(deep=True), rep.test_summary.copy(deep=True), copy.deepcopy(
        (rep.test_name, rep.test_description, rep.num_chps, rep.num_lots, rep.dev_counts, getattr(rep, 'time_unit', None)))


def same_frames(a, b):
    return a[0].equals(b[0]) and a[1].equals(b[1]) and a[2] == b[2]


def exported(rep, unit, to_file, scratch, tag, rel=False, old=False):
    """Exports and returns (document as parsed from JSON text, loaded report)."""
    import gerabaldi.models as M

    before = frames(rep)
    kw = {} if unit is None else {'time_unit': unit}
    path = os.path.join(scratch, *to_file, f'{tag}.json') if to_file is not None else os.path.join(scratch, f'{tag}.json')
    if to_file is not None and old:  # a longer file is there already
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'Test Name': 'older', 'Description': ' ' * 20000}, f)
    if to_file is not None and rel:  # relative to the working directory
        home = os.getcwd()
        os.chdir(scratch)
        try:
            short = os.path.join(*to_file, f'{tag}.json')
            rep.export_to_json(short, **kw)
            got = M.SimReport(file=short)
        finally:
            os.chdir(home)
        need(same_frames(before, frames(rep)), 'exporting changed the report')
        with open(path) as f:
            return json.load(f), got
    if to_file is not None:
        rep.export_to_json(path, **kw)
    else:
        doc = rep.export_to_json(**kw)
        need(isinstance(doc, dict), 'no dictionary returned')
        with open(path, 'w') as f:
            json.dump(doc, f, default=int)
    need(same_frames(before, frames(rep)), 'exporting changed the report')
    with open(path) as f:
        doc = json.load(f)
    return doc, M.SimReport(file=path)


def check_report(rep, c):
    scratch = tempfile.mkdtemp(prefix='vp-c14-')
    try:
        want = snapshot(rep)
        if c['convert']:
            for u in c['convert']:
                rep.convert_report_time(u) if u is not None else rep.convert_report_time()
            have = c['convert'][-1] or 'hours'
        else:
            have = None
        doc, got = exported(rep, c['unit'], c['path'], scratch, 'a', c.get('rel'), c.get('old'))
        eff = c['unit'] or have or 'hours'
        need(FULL.get(str(doc['Time Units']).lower(), str(doc['Time Units']).lower()) == FULL.get(eff, eff),
             'document says its times are in {!r}, expected {!r}', doc['Time Units'], eff)
        g = snapshot(got)
        need(g == want, 'loaded report differs: {}', diff(want, g))
        # once more, in the same and in another unit
        doc2, got2 = exported(got, c['unit'], None, scratch, 'b')
        need(snapshot(got2) == want, 'second generation differs: {}', diff(want, snapshot(got2)))
        if c['unit'] is not None:
            need(body(doc2) == body(doc), 'exporting the loaded report gives a different document')
        _, got3 = exported(got, c['unit2'], None, scratch, 'c')
        need(snapshot(got3) == want, 'export in {} after loading from {} differs: {}', c['unit2'], eff, diff(want, snapshot(got3)))
        # a loaded report's times can be converted like those of a new one
        if c['unit2'] is None:  # the unit of the file is the unit of the report
            doc3, _ = exported(got, None, None, scratch, 'd')
            need(body(doc3) == body(doc), 'exporting the loaded report without naming a unit gives a different document')
        if c['unit2'] is not None:
            got3.convert_report_time(c['unit2'])
            for r, t in zip(want['rows'], got3.measurements['time'] if want['rows'] else []):
                need(not isinstance(t, timedelta) and abs(t * W.UNIT_US[c['unit2']] - r[5]) <= 1e-9 * r[5] + 1e-6,
                     'time {!r} {} instead of {} us after conversion', t, c['unit2'], r[5])
        # original is still what it was
        need(snapshot(rep, have) == want, 'original report changed')
    finally:
        shutil.rmtree(scratch)
    rows = want['rows']
    return ok(len(rows) > 1 and any(not isinstance(r[-1], float) or abs(r[-1]) > 1e6 or r[-1] != round(r[-1]) for r in rows), f'unit {c["unit"]}',
              'file' if c['path'] is not None else 'dictionary', 'converted first' if c['convert'] else 'timedeltas')


def body(doc):
    out = dict(doc)
    for k in ('Measurements', 'Test Summary'):
        if isinstance(out[k], str):
            out[k] = json.loads(out[k])
    return out


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], list):
                if len(a[k]) != len(b[k]):
                    return f'{k}: {len(a[k])} rows became {len(b[k])}'
                return next(f'{k}: {x} became {y}' for x, y in zip(a[k], b[k]) if x != y)
            return f'{k}: {a[k]!r} became {b[k]!r}'
    return 'nothing'


finite = st.floats(allow_nan=False, allow_infinity=False)
MAX_US = 30 * 365 * 86400 * 10**6
times = st.one_of(st.integers(0, MAX_US), st.integers(0, 10**4), st.integers(0, 30 * 365 * 24).map(lambda h: h * 3600 * 10**6))
opts = st.fixed_dictionaries({
    'unit': st.sampled_from(UNITS), 'unit2': st.sampled_from(UNITS),
    'path': st.sampled_from([None, [], ['x'], ['new dir', 'y', 'z']]),
    'rel': st.booleans(), 'old': st.booleans(),
    'convert': st.one_of(st.just([]), st.lists(st.sampled_from(UNITS), max_size=2)),
})


@st.composite
def sim_cases(draw):
    return {**draw(opts), 'w': draw(W.world(max_steps=5, prms=2, max_mechs=1, dims=2))}


@st.composite
def bare_cases(draw):
    return {**draw(opts), 'us': [draw(times) + 1 for _ in range(draw(st.integers(1, 3)))], 'none': draw(st.sampled_from(['absent', 'empty', 'zero']))}


def check_bare(c):
    """Tests that only stress, or that measure nothing."""
    import gerabaldi
    import gerabaldi.models as M

    dev = M.DeviceMdl({'p': M.DegPrmMdl({'m': M.DegMechMdl(lambda time: time)})})
    steps = [M.StrsSpec({'temp': 300.5}, timedelta(microseconds=us)) for us in c['us']]
    if c['none'] != 'absent':
        steps.insert(1, M.MeasSpec({} if c['none'] == 'empty' else {'p': 0}, {'temp': 25}))
    rep = gerabaldi.simulate(M.TestSpec(steps, 1, 1), dev, M.PhysTestEnv(), gerabaldi.gen_init_state(dev, {'p': 2}))
    need(len(rep.measurements) == 0 and len(rep.test_summary) == len(steps), 'tables have {} and {} rows', len(rep.measurements), len(rep.test_summary))
    check_report(rep, c)
    return ok(len(c['us']) > 1)


def check_sim(c):
    rep, _ = W.simulate(c['w'])
    return check_report(rep, c)


text = st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_categories=('Cs',)), min_size=1, max_size=8)


@st.composite
def made_cases(draw):
    c = draw(opts)
    chps, lots = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    meas, steps = [], []
    clock = 0
    names = draw(st.lists(text, min_size=1, max_size=3, unique=True))
    conds = draw(st.lists(st.sampled_from(['temp', 'vdd', 'RH %', 'x']), unique=True))
    odd = draw(st.integers(0, 3)) == 0  # with values that are infinite or undefined
    vals_of = st.one_of(finite, fl(-10.0, 10.0), logish(), *([st.sampled_from([float('inf'), float('-inf'), float('nan')])] if odd else []))
    for i in range(draw(st.integers(1, 4))):
        stress = draw(st.booleans())
        dur = draw(times) if stress else 0
        dur = min(dur, MAX_US - clock)
        s = {'name': draw(st.one_of(text, text, st.just(''))), 'type': 'stress' if stress else 'measure', 'dur': dur, 'start': clock,
             'conds': {k: draw(st.one_of(finite, st.integers(-1000, 1000))) for k in conds if draw(st.booleans())}}
        clock += dur
        steps.append(s)
        if not stress:
            for p in draw(st.lists(st.sampled_from([*names, 'temp']), min_size=1, unique=True)):
                cond = p == 'temp'
                n = draw(st.integers(1, 3))
                k = n if cond else n * chps * lots
                vals = draw(st.lists(vals_of, min_size=k, max_size=k))
                meas.append({'p': p, 'step': i, 'us': clock, 'cond': cond, 'n': n, 'vals': vals})
    return {**c, 'chps': chps, 'lots': lots, 'meas': meas, 'steps': steps, 'name': draw(st.one_of(text, st.just(''))),
            'desc': draw(st.one_of(text, st.sampled_from(['', None]))), 'over': [draw(st.one_of(st.none(), text)) for _ in range(2)]}


def logish():
    return st.builds(lambda m, e: m * 10.0**e, st.integers(-10**15, 10**15), st.integers(-30, 0))


def check_made(c):
    import gerabaldi.models as M

    cnt = {}
    for m in c['meas']:
        cnt[m['p']] = max(cnt.get(m['p'], 0), m['n'])
    spec = M.TestSpec([M.MeasSpec(cnt, {})], c['chps'], c['lots'], c['name'], c['desc'])
    over = c.get('over') or [None, None]
    rep = M.SimReport(spec, **{k: v for k, v in zip(('name', 'description'), over) if v is not None})
    want = (over[0] or spec.name, over[1] or spec.description)
    need((rep.test_name, rep.test_description) == want, 'report is called {!r}, expected {!r}', (rep.test_name, rep.test_description), want)
    by = {}
    for m in c['meas']:
        by.setdefault(m['step'], []).append(m)
    for i, s in enumerate(c['steps']):
        frame = pd.DataFrame()
        for m in by.get(i, []):
            arr = np.array(m['vals'], dtype=float)
            if not m['cond']:
                arr = arr.reshape((c['lots'], c['chps'], m['n']))
            f = M.SimReport.format_measurements(arr, m['p'], timedelta(microseconds=m['us']), i, 'condition' if m['cond'] else 'parameter')
            frame = pd.concat((frame, f), ignore_index=True)
        if len(frame):
            rep.add_measurements(frame)
        row = {'step name': s['name'], 'step type': s['type'], 'step number': i, 'duration': timedelta(microseconds=s['dur']),
               'start time': timedelta(microseconds=s['start']), 'end time': timedelta(microseconds=s['start'] + s['dur']), **s['conds']}
        rep.add_summary_report(pd.DataFrame(row, index=[0]))
    return check_report(rep, c)


SUBS = [Sub('simulated', sim_cases(), check_sim, 350), Sub('assembled', made_cases(), check_made, 800), Sub('bare', bare_cases(), check_bare, 150)]
