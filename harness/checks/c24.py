"""C24: unusable specifications are rejected with the documented error and leave everything else usable."""
import os
import shutil
import tempfile
from datetime import timedelta

import gerabaldi
import numpy as np
import world as W
from base import Sub, fl, need, ok, raises
from hypothesis import strategies as st

RULE = ('Generated specifications made unusable in one of the documented ways (latents without a source of values, unknown '
        'variation types and time units, misspelt attributes, zero durations, endless or empty loops, unnamed models, '
        'missing quantities, undefined parameters in measurements at any place of a test, initial states without the devices, chips or lots of the test, missing files) next to the same '
        'specification without the mistake. The mistake has to give the documented error, the objects involved have to be '
        'unchanged and to work afterwards, and the correct specification has to be accepted. Every case is non-trivial.')

BAD_UNITS = ['hour', 'H', 'minutes', 'm', '', 'Seconds', 'yr', 'usec', 'ns', 'none', 'weeks']
GOOD_UNITS = W.UNIT_NAMES
word = st.text('abcdefghij_XYZ', min_size=1, max_size=8)


@st.composite
def cases(draw):
    k = draw(st.sampled_from(sorted(KINDS)))
    return {'k': k, 'a': draw(fl(0.1, 9.0, 2)), 'b': draw(fl(0.1, 9.0, 2)), 'bad': draw(st.sampled_from(BAD_UNITS)),
            'unit': draw(st.sampled_from(GOOD_UNITS)), 'word': draw(word), 'i': draw(st.integers(0, 7)), 'n': draw(st.integers(1, 4)),
            'layers': draw(st.lists(st.sampled_from(['chp', 'top', 'dev']), unique=True)), 'flag': draw(st.booleans()),
            'type': draw(st.sampled_from(['scaling', 'offset'])), 'where': draw(st.integers(0, 2))}


def M():
    import gerabaldi.models as m

    return m


def E():
    import gerabaldi.exceptions as e

    return e


def dists(c, env=False):
    top = 'batch_vrtn_mdl' if env else 'lot_vrtn_mdl'
    names = {'chp': 'chp_vrtn_mdl', 'top': top, 'dev': 'dev_vrtn_mdl'}
    return {names[k]: M().Uniform(1, 2, test_seed=i) for i, k in enumerate(c['layers'])}


def latent_empty(c):
    kw = dists(c)
    kw.pop('dev_vrtn_mdl', None)
    raises(E().UserConfigError, M().LatentVar, vrtn_type=c['type'], name=c['word'] if c['flag'] else None, **kw)
    for v in (c['a'], 0, 0.0, -1):
        x = M().LatentVar(deter_val=v, vrtn_type=c['type'], **kw).gen_latent_vals(2, 1, 1)
        need(x.shape == (1, 1, 2), 'shape {}', x.shape)
    M().LatentVar(dev_vrtn_mdl=M().Normal(0, 0), vrtn_type=c['type'], **kw).gen_latent_vals(2, 1, 1)


def vrtn_type(c):
    bad = c['word'] if c['where'] == 0 else ['Offset', 'scale', '', 'OFFSET', 'additive', None, 0, 'offset '][c['i']]
    env = c['flag']
    cls = M().EnvVrtnMdl if env else M().LatentVar
    kw = dists(c, env)
    if not env:
        kw['deter_val'] = c['a']
    raises(E().InvalidTypeError, cls, vrtn_type=bad, **kw)
    good, twin = (cls(vrtn_type=c['type'], **dict(kw, **dists(c, env))) for _ in range(2))

    def change():
        good.vrtn_type = bad

    raises(E().InvalidTypeError, change)
    need(good.vrtn_type == c['type'], 'variation type is {} after a rejected change', good.vrtn_type)
    x, y = (o.gen_env_vrtns(c['a'], 3, 2, 2) if env else o.gen_latent_vals(3, 2, 2) for o in (good, twin))
    need(np.array_equal(x, y), 'values changed after a rejected change of variation type')


def attribute(c):
    env = c['flag']
    name = ['chip_vrtn_mdl', 'dev_vrtns', 'lot_vrtn', 'value', c['word'] + '_q', 'vrtntype', 'batch', 'mu'][c['i']]
    o = M().EnvVrtnMdl() if env else M().LatentVar(deter_val=1)
    raises(AttributeError, setattr, o, name, M().Normal(0, 1))


def strs_zero(c):
    conds = {'temp': 300.0}
    unit = c['unit']
    raises(E().UserConfigError, M().StrsSpec, conds, timedelta(), 'nm')
    raises(E().UserConfigError, M().StrsSpec, conds, [0, 0.0][c['i'] % 2], 'nm', unit if c['flag'] else None)
    raises(E().UserConfigError, M().StrsSpec, conds, 0.2, 'nm', 'us')
    s = M().StrsSpec(conds, 1 + c['a'], 'nm', unit)
    need(abs(W.to_us(s.duration) - (1 + c['a']) * W.UNIT_US[unit]) <= 1, '{} {} gives {}', 1 + c['a'], unit, s.duration)
    need(M().StrsSpec(conds, timedelta(microseconds=1)).duration == timedelta(microseconds=1), 'shortest duration')


def strs_unit(c):
    raises(E().UserConfigError, M().StrsSpec, {'temp': 300.0}, c['a'], time_unit=c['bad'])


def base_test(c, n=3):
    return [M().MeasSpec({'p': 2}, {'temp': 300.0}), *(M().StrsSpec({'temp': 310.0 + i}, timedelta(hours=1 + i)) for i in range(n)),
            M().MeasSpec({'p': 1}, {'temp': 300.0})]


def loop(c):
    steps = base_test(c)
    t = M().TestSpec(steps, 2, 1)
    before = list(t.steps)
    meas = M().MeasSpec({'p': 1}, {'temp': 300.0})
    strs = M().StrsSpec({'temp': 300.0}, timedelta(hours=c['n']))
    where = c['where']
    if where == 0:
        zero = [timedelta(), 0, 0.0, 0][c['i'] % 4]
        raises(E().UserConfigError, t.append_steps, [strs, meas] if c['flag'] else strs, zero, c['unit'] if c['i'] > 3 else None)
    elif where == 1:
        what = [meas, [meas], [meas, meas], []][c['i'] % 4]
        raises(E().UserConfigError, t.append_steps, what, timedelta(hours=5) if c['flag'] else 5, c['unit'])
    else:
        raises(E().UserConfigError, t.append_steps, [strs, meas], c['a'], c['bad'])
    need(len(t.steps) == len(before) and all(a is b for a, b in zip(t.steps, before)), 'steps changed by a rejected append')
    t.append_steps([strs, meas], timedelta(hours=3 * c['n']))
    need(len(t.steps) == len(before) + 6, '{} steps after a valid append', len(t.steps))


def simple_prm(name=None, cond=None):
    m = M()
    return m.DegPrmMdl({'m': m.DegMechMdl(lambda time, temp: time * temp * 1e-3, time_unit='h')}, prm_name=name,
                       init_val_mdl=m.InitValMdl(init_val=m.LatentVar(deter_val=1.0)))


def unnamed(c):
    m = M()
    name = ['', None][c['i'] % 2]
    if c['flag']:
        mech = (m.DegMechMdl if c['where'] else m.FailMechMdl)(lambda time: 0.0 * time, mdl_name=name, time_unit='h')
        raises(E().UserConfigError, m.DegPrmMdl, mech, prm_name='p')
        mech = m.DegMechMdl(lambda time: 0.0 * time, mdl_name='x' + c['word'], time_unit='h')
        need(m.DegPrmMdl(mech, prm_name='p').mech_mdl_list == ['x' + c['word']], 'mechanism name')
    else:
        raises(E().UserConfigError, m.DeviceMdl, simple_prm(name) if c['where'] else m.CircPrmMdl(lambda temp: temp, prm_name=name))
        need(m.DeviceMdl(simple_prm('x' + c['word'])).prm_mdl_list == ['x' + c['word']], 'parameter name')


def no_counts(c):
    m = M()
    dev = m.DeviceMdl(simple_prm('p'))
    raises(E().UserConfigError, gerabaldi.gen_init_state, dev, num_chps=c['n'])
    raises(E().UserConfigError, gerabaldi.gen_init_state, dev, {}, c['n'], 1)
    raises(E().UserConfigError, m.PhysTestEnv().gen_env_cond_vals, {'temp': 300.0}, ['p'], None, dev)
    s = gerabaldi.gen_init_state(dev, {'p': c['n']}, 2, 3)
    need(s.curr_prm_vals['p'].shape == (3, 2, c['n']), 'shape {}', s.curr_prm_vals['p'].shape)


def undefined(c):
    """A parameter that is neither part of the device nor a condition of the very step that measures it."""
    m = M()
    dev = m.DeviceMdl(simple_prm('p'))
    bad = ['vdd', 'P', 'x' + c['word'], 'm', 'init', 'Temp', 'cond', 'time'][c['i']]
    steps = base_test(c, c['n'])
    for s in steps:
        if bad == 'vdd' and isinstance(s, m.StrsSpec):
            s.conditions['vdd'] = 1.0
    good = [m.MeasSpec(dict(s.measurements), dict(s.conditions)) if isinstance(s, m.MeasSpec) else s for s in steps]
    tgt = steps[0] if c['flag'] else steps[-1]
    tgt.measurements = {bad: 1, **tgt.measurements} if c['where'] else {**tgt.measurements, bad: 2}
    init = gerabaldi.gen_init_state(dev, {'p': 2}, 2, 2)
    vals = init.curr_prm_vals['p'].copy()
    env = m.PhysTestEnv()
    spec = m.TestSpec(steps, 2, 2)
    raises(E().MissingParamError, gerabaldi.simulate, spec, dev, env, init)
    need(np.array_equal(vals, init.curr_prm_vals['p']) and init.elapsed == timedelta(), 'initial state changed by a rejected test')
    raises(E().MissingParamError, gerabaldi.simulate, spec, dev, env)
    bare = {'dev_mdl': dev, 'target': ['stress', 'measure'][c['n'] % 2]} if c['i'] % 2 else {}
    raises(E().MissingParamError, env.gen_env_cond_vals, {'temp': 300.0}, {bad: 1, 'temp': 2} if c['where'] else {'temp': 2, bad: c['n']}, **bare)
    need(list(env.gen_env_cond_vals({'temp': 300.0}, {'temp': 2}, **bare)) == ['temp'], 'condition values after the mistake was removed')
    rep = gerabaldi.simulate(m.TestSpec(good, 2, 2), dev, env, init)
    need(len(rep.measurements) == 12, '{} rows after the mistake was removed', len(rep.measurements))


def mech_unit(c):
    m = M()

    def mk(u):
        us = [None, None, None]
        us[c['where']] = u
        return m.DeviceMdl(m.DegPrmMdl({'m': m.DegMechMdl(lambda time: 1e-6 * time, time_unit=us[0])}, prm_name='p', time_unit=us[1]), time_unit=us[2])

    def run(u):
        return gerabaldi.simulate(m.TestSpec(base_test(c), 1, 1), mk(u), m.PhysTestEnv())

    raises(E().UserConfigError, run, c['bad'] or 'min')
    need(len(run(c['unit']).measurements) == 3, 'valid unit {}', c['unit'])


def report(c):
    m = M()
    dev = m.DeviceMdl(simple_prm('p'))
    rep = gerabaldi.simulate(m.TestSpec(base_test(c, c['n']), 1, 2), dev, m.PhysTestEnv())
    if c['flag']:
        rep.convert_report_time(c['unit'])
    before = rep.measurements.copy(), rep.test_summary.copy(), rep.export_to_json(time_unit='h')
    tmp = tempfile.mkdtemp(prefix='vp-')
    try:
        file = os.path.join(tmp, 'sub', 'rep.json')
        raises(E().UserConfigError, rep.export_to_json, file, c['bad'])
        need(not os.path.exists(file), 'a rejected export left a file behind')
        raises(E().UserConfigError, rep.convert_report_time, c['bad'])
        raises(FileNotFoundError, m.SimReport, file=file)
        need(rep.measurements.equals(before[0]) and rep.test_summary.equals(before[1]), 'report changed by rejected calls')
        need(rep.export_to_json(time_unit='h') == before[2], 'export changed by rejected calls')
        rep.export_to_json(file, c['unit'])
        need(len(m.SimReport(file=file).measurements) == len(before[0]), 'valid export')
    finally:
        shutil.rmtree(tmp)


def state_size(c):
    """A test cannot run from a state that has other chips or lots, or fewer devices, than the test asks for."""
    m = M()
    prms = {'p': simple_prm(), 'q': simple_prm()}
    if c['where'] == 2:
        prms['z'] = m.CircPrmMdl(lambda p: 2.0 * p)
    dev = m.DeviceMdl(prms)
    n, want = c['n'], ['p', 'q', 'z'][c['where']]
    chps, lots = 1 + c['i'] % 3, 1 + c['i'] % 2
    other = 1 + (c['i'] + c['n']) % 4
    good = {'p': n, 'q': n}
    meas = {want: n, **({'temp': 1} if c['flag'] else {})}
    steps = [m.StrsSpec({'temp': 310.0}, timedelta(hours=1)), m.MeasSpec(meas, {'temp': 300.0})]
    if c['flag']:
        steps.reverse()

    def run(counts, a, b):
        st_ = gerabaldi.gen_init_state(dev, dict(counts), a, b)
        return gerabaldi.simulate(m.TestSpec(list(steps), chps, lots), dev, m.PhysTestEnv(), st_)

    r = run({**good, 'p': n + other, 'q': n + other}, chps, lots)
    need((r.measurements['param'] == want).sum() == n * chps * lots, 'rows for a state with more devices than are measured')
    if other != chps:
        raises(E().UserConfigError, run, good, other, lots)
    if other != lots:
        raises(E().UserConfigError, run, good, chps, other)
    if n > 1:
        few = 1 + c['i'] % (n - 1)
        raises(E().UserConfigError, run, {**good, 'p' if want == 'z' else want: few}, chps, lots)
    run(good, chps, lots)


KINDS = {f.__name__: f for f in (latent_empty, vrtn_type, attribute, strs_zero, strs_unit, loop, unnamed, no_counts, undefined,
                                 mech_unit, report, state_size)}


def check(c):
    KINDS[c['k']](c)
    return ok(True, c['k'])


SUBS = [Sub('reject', cases(), check, 2000)]
