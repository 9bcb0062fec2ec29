"""C21: prebuilt tests, environments and mechanisms do what they describe."""
from datetime import timedelta

import numpy as np
import world as W
from base import Sub, fl, need, ok, raises
from hypothesis import strategies as st
from scipy import stats

RULE = ('Prebuilt life tests built with generated arguments (voltage, multiplier, temperature, duration, interval, chips, '
        'lots, measured parameters) compared step by step with the described procedure, and simulated; the prebuilt '
        'mechanism simulated over generated multi-step stress and compared with its published equation for the sampled '
        'latents; the prebuilt environments used with generated targets and population sizes, compared exactly (ideal) or '
        'by mean and variance per stochastic layer with false alarm probability below 1e-9, '
        'some with populations large enough to tell a tenth of the spread. Non-trivial: periodic '
        'measurement, several stress phases, or a population of at least 50 devices.')
ASSUMPTIONS = ['statistical bounds have a false alarm probability below 1e-9 per comparison']
KELVIN = 273.15
P = 1e-11


# ------------------------------------------------------------------ life test
@st.composite
def htols(draw):
    c = {'to_meas': {p: draw(st.integers(1, 4)) for p in draw(st.lists(st.sampled_from(['p', 'temp', 'vdd']), unique=True))}}
    opt = {
        'vdd_nom': fl(0.2, 6.0, 3), 'vdd_strs_mult': fl(0.8, 2.0, 3), 'temp_override': st.integers(-60, 200),
        'num_chps_override': st.integers(1, 5), 'num_lots_override': st.integers(1, 4),
    }
    c['args'] = {k: draw(v) for k, v in opt.items() if draw(st.booleans())}
    form = draw(st.sampled_from(['fit', 'fit', 'fit', 'frac', 'nofit', 'over', 'none', 'dur']))
    if form == 'fit':
        k, i = draw(st.integers(2, 12)), draw(st.integers(1, 400))
        c['args'].update(strs_meas_intrvl=i, duration_override=k * i)
    elif form == 'frac':  # not whole hours, exactly represented
        k, i = draw(st.integers(2, 12)), draw(st.integers(1, 99)) / 8
        c['args'].update(strs_meas_intrvl=i, duration_override=k * i)
    elif form == 'nofit':
        i = draw(st.integers(2, 300))
        c['args'].update(strs_meas_intrvl=i, duration_override=draw(st.integers(1, 9)) * i + draw(st.integers(1, i - 1)))
    elif form == 'over':
        d = draw(st.integers(1, 5000))
        c['args'].update(strs_meas_intrvl=d + draw(st.sampled_from([0, 0, 1, 700])), duration_override=d)
    elif form == 'dur':
        c['args'].update(duration_override=draw(st.integers(1, 1000)))
    c['sim'] = draw(st.booleans())
    return c


def check_htol(c):
    import gerabaldi
    import gerabaldi.models as M
    from gerabaldi.cookbook import htol, ideal_env
    from gerabaldi.exceptions import UserConfigError

    a = {'vdd_nom': 1.0, 'vdd_strs_mult': 1.2, 'strs_meas_intrvl': 1000, 'duration_override': 1000,
         'num_chps_override': 77, 'num_lots_override': 3, 'temp_override': 125, **c['args']}
    given = dict(c['to_meas'])
    dur, itv = a['duration_override'], a['strs_meas_intrvl']
    if itv < dur and dur % itv:
        raises(UserConfigError, htol, given, **c['args'])
        return ok(True, 'interval does not fit')
    room = ('m', {'temp': 25 + KELVIN, 'vdd': a['vdd_nom']})
    hot = {'temp': a['temp_override'] + KELVIN, 'vdd': a['vdd_nom'] * a['vdd_strs_mult']}
    if itv >= dur:
        exp = [room, ('s', hot, dur), room]
    else:
        exp = [room, ('m', hot), *[('s', hot, itv), ('m', hot)] * int(dur // itv), room]

    def verify(spec):
        steps = list(spec)
        need(len(steps) == len(exp), '{} steps instead of {}', len(steps), len(exp))
        for i, (s, e) in enumerate(zip(steps, exp)):
            need(type(s) is (M.MeasSpec if e[0] == 'm' else M.StrsSpec), 'step {} is a {}', i, type(s).__name__)
            need(set(s.conditions) == set(e[1]), 'step {}: conditions {}', i, s.conditions)
            for k in e[1]:
                need(abs(s.conditions[k] - e[1][k]) < 1e-9, 'step {}: {} = {} instead of {}', i, k, s.conditions[k], e[1][k])
            if e[0] == 'm':
                need(s.measurements == c['to_meas'], 'step {} measures {}', i, s.measurements)
            else:
                need(s.duration == timedelta(hours=e[2]), 'step {} takes {} instead of {} h', i, s.duration, e[2])
        need(spec.num_chps == a['num_chps_override'] and spec.num_lots == a['num_lots_override'], '{} chips and {} lots',
             spec.num_chps, spec.num_lots)
        need('htol' in str(spec.name).lower() and spec.description, 'test is named {!r}, described as {!r}', spec.name, spec.description)

    one = htol(given, **c['args'])
    verify(one)
    two = htol(given, **c['args'])
    two.append_steps(M.StrsSpec({'temp': 1.0}, timedelta(hours=1)))
    for s in two.steps:
        s.conditions['temp'] = -1.0
    verify(one)
    verify(htol(given, **c['args']))
    need(given == c['to_meas'], 'the dict of parameters to measure was altered: {}', given)
    if c['sim'] and one.num_chps * one.num_lots <= 20:
        dev = M.DeviceMdl(M.DegPrmMdl({'m': M.DegMechMdl()}, prm_name='p', init_val_mdl=M.InitValMdl(init_val=M.LatentVar(deter_val=1.0))))
        rep = gerabaldi.simulate(one, dev, ideal_env())
        need(len(rep.test_summary) == len(exp), '{} steps reported', len(rep.test_summary))
        need(list(rep.test_summary['end time'])[-1] == timedelta(hours=dur), 'test ends at {}', list(rep.test_summary['end time']))
        rows = sum((one.num_chps * one.num_lots if p == 'p' else 1) * n for p, n in c['to_meas'].items())
        need(len(rep.measurements) == rows * sum(e[0] == 'm' for e in exp), '{} measurements', len(rep.measurements))
    return ok(itv < dur, 'periodic' if itv < dur else 'single')


# ------------------------------------------------------------------ mechanism
@st.composite
def nbtis(draw):
    return {'steps': draw(st.lists(st.tuples(fl(250.0, 450.0, 4), fl(0.4, 3.0, 3), fl(20.0, 3000.0, 3)).map(list), min_size=1, max_size=3)),
            'dims': [draw(st.integers(1, 3)), draw(st.integers(1, 5)), draw(st.integers(1, 8))]}


LATS = {'a_0': (0.006, 0.0002), 'e_aa': (0.05, 0.0002), 'alpha': (3.4, 0.004), 'n': (0.21, 0.005)}


def close_stats(x, mu, sd, what):
    """Mean and standard deviation of independent normal samples."""
    x = np.asarray(x, dtype=float).ravel()
    need(abs(x.mean() - mu) <= 7.5 * sd / np.sqrt(x.size) + 1e-12 * abs(mu), '{}: mean {} over {} samples instead of {}', what,
         x.mean(), x.size, mu)
    if x.size >= 20:
        close_var(x.var(ddof=1), x.size - 1, sd**2, sd**2, what)


def close_var(v, dof, lo, hi, what):
    a, b = stats.chi2.ppf([P, 1 - P], dof) / dof
    need(lo * a <= v <= hi * b, '{}: variance {} (expected {} to {}, factor {} to {})', what, v, lo, hi, a, b)


def check_nbti(c):
    import gerabaldi
    import gerabaldi.models as M
    from gerabaldi.cookbook import ideal_env, jedec_nbti_mdl

    mech, other = jedec_nbti_mdl(), jedec_nbti_mdl()
    other.latent_var('a_0').dev_vrtn_mdl.mu = 5.0
    other.latent_var('n').deter_val = 3.0
    big = mech.gen_latent_vals(100, 50, 4)
    for k, (mu, sd) in LATS.items():
        close_stats(big[k], mu, sd, k)
    lots, chps, devs = c['dims']
    dev = M.DeviceMdl(M.DegPrmMdl(
        deg_mech_mdls={'nbti': mech}, prm_name='vth', init_val_mdl=M.InitValMdl(init_val=M.LatentVar(deter_val=0.5))))
    steps = []
    for t, v, h in c['steps']:
        steps += [M.StrsSpec({'temp': t, 'vdd': v}, timedelta(hours=h)), M.MeasSpec({'vth': devs}, {'temp': t, 'vdd': v})]
    state = gerabaldi.gen_init_state(dev, {'vth': devs}, chps, lots)
    lat = next(v for v in state.latent_var_vals['vth'].values() if isinstance(v, dict) and set(LATS) <= set(v))
    lat = {k: np.asarray(lat[k], dtype=float) for k in LATS}
    for k, (mu, sd) in LATS.items():
        need(lat[k].shape == (lots, chps, devs), '{} has shape {}', k, lat[k].shape)
        need((np.abs(lat[k] - mu) < 7.5 * sd).all(), '{} outside of its distribution: {}', k, lat[k])
        need(np.unique(lat[k]).size == lat[k].size, '{} repeats between devices', k)
    rep = gerabaldi.simulate(M.TestSpec(steps, chps, lots), dev, ideal_env(), state)
    vals = np.zeros((lots, chps, devs))
    for i, (t, v, h) in enumerate(c['steps']):
        amp = lat['a_0'] * np.exp(lat['e_aa'] / (8.617e-5 * t)) * v ** lat['alpha']
        eq = (vals / amp) ** (1 / lat['n'])
        vals = amp * (eq + h) ** lat['n']
        got = rep.measurements[rep.measurements['step #'] == 2 * i + 1]
        need(len(got) == vals.size, '{} rows', len(got))
        for _, r in got.iterrows():
            e = vals[int(r['lot #']), int(r['chip #']), int(r['device #'])]
            need(abs(r['measured'] - 0.5 - e) <= 1e-4 * e, 'phase {}: shift {} instead of {}', i, r['measured'] - 0.5, e)
    return ok(len(c['steps']) > 1)


# ------------------------------------------------------------------ environments
@st.composite
def envs(draw):
    return {'temp': draw(fl(250.0, 430.0, 4)), 'vdd': draw(fl(0.3, 10.0, 3)), 'lots': draw(st.integers(1, 3)),
            'chps': draw(st.integers(8, 16)), 'devs': draw(st.integers(3, 8)), 'reps': draw(st.integers(12, 20)),
            'sens': draw(st.integers(1, 6))}


def as_is():
    """A device whose two parameters show exactly the conditions that each device was exposed to."""
    import gerabaldi.models as M

    zero = lambda: M.InitValMdl(init_val=M.LatentVar(deter_val=0.0))  # noqa: E731
    return M.DeviceMdl({
        'pt': M.DegPrmMdl({'m': M.DegMechMdl()}, prm_name='pt', init_val_mdl=zero(), cond_shift_mdl=M.CondShiftMdl(lambda temp: temp)),
        'pv': M.DegPrmMdl({'m': M.DegMechMdl()}, prm_name='pv', init_val_mdl=zero(), cond_shift_mdl=M.CondShiftMdl(lambda vdd: vdd)),
    })


def run_env(c, env, reps):
    import gerabaldi
    import gerabaldi.models as M

    m = M.MeasSpec({'pt': c['devs'], 'pv': c['devs'], 'temp': c['sens'], 'vdd': c['sens']}, {'temp': c['temp'], 'vdd': c['vdd']})
    rep = gerabaldi.simulate(M.TestSpec([m] * reps, c['chps'], c['lots']), as_is(), env)
    shape = (reps, c['lots'], c['chps'], c['devs'])
    df, out = rep.measurements, {}
    for p in ('pt', 'pv'):
        d = df[df['param'] == p]
        arr = np.full(shape, np.nan)
        for k, l, ch, dv, v in zip(d['step #'], d['lot #'], d['chip #'], d['device #'], d['measured']):
            arr[int(k), int(l), int(ch), int(dv)] = v
        need(len(d) == arr.size and not np.isnan(arr).any(), 'rows of {} do not cover all devices', p)
        out[p] = arr
    for p in ('temp', 'vdd'):
        out[p] = df[df['param'] == p]['measured'].to_numpy(dtype=float)
        need(out[p].size == reps * c['sens'], '{} readings of {}', out[p].size, p)
    return out


def check_layers(x, target, dev, chp, top, what):
    reps, lots, chps, devs = x.shape
    n = lots * chps
    close_var(x.var(axis=3, ddof=1).mean(), reps * n * (devs - 1), dev**2, dev**2, f'{what} between devices')
    m = x.mean(axis=3).reshape(reps, n)
    e = chp**2 + dev**2 / devs
    close_var(m.var(axis=1, ddof=1).mean(), reps * (n - 1), e, e, f'{what} between chips')
    b = m.mean(axis=1)
    e = top**2 + e / n
    close_var(b.var(ddof=1), reps - 1, e, e, f'{what} between batches')
    need(abs(b.mean() - target) < 7.5 * np.sqrt(e / reps), '{}: mean {} instead of {}', what, b.mean(), target)


def check_stoch(c):
    from gerabaldi.cookbook import volt_and_temp_env

    env = volt_and_temp_env()
    x = run_env(c, env, c['reps'])
    check_layers(x['pt'], c['temp'], 0.05, 0.2, 0.5, 'temperature')
    check_layers(x['pv'], c['vdd'], 0.0003, 0.0005, 0.0, 'voltage')
    # Readings of the conditions: sensor spread and error, rounding to significant figures, then range
    sd = np.sqrt(0.05**2 + 0.2**2 + 0.5**2 + 0.2**2)
    check_readings(x['temp'], c['temp'] - KELVIN, sd, 2, -40, 180)
    sd = np.sqrt(0.0003**2 + 0.0005**2 + 0.0002**2)
    check_readings(x['vdd'], c['vdd'], sd, 3, 0, 12)
    # The instruments alone, where the resolution is finer than their error
    r = np.asarray(env.meas_instm('temp').measure(np.full(400, KELVIN + 5.0)))
    need(abs(r.mean() - 5.0) < 7.5 * 0.2 / 20, 'temperature readings of 5 degrees average {}', r.mean())
    close_var(r.var(ddof=1), 399, 0.2**2, 0.2**2 + 0.1**2 / 6, 'temperature reading error')
    r = np.asarray(env.meas_instm('vdd').measure(np.full(400, 0.05)))
    need(abs(r.mean() - 0.05) < 7.5 * 0.0002 / 20, 'voltage readings of 0.05 V average {}', r.mean())
    close_var(r.var(ddof=1), 399, 0.0002**2, 0.0002**2 + 0.0001**2 / 6, 'voltage reading error')
    for prm, vals, lo, hi in (('temp', [100.0, 200.0, 470.0, 900.0], -40, 180), ('vdd', [-3.0, -0.1, 12.6, 50.0], 0, 12)):
        r = list(np.asarray(env.meas_instm(prm).measure(np.array(vals)), dtype=float))
        need(r == [lo, lo, hi, hi], 'readings of {} {} are {}', prm, vals, r)
    return ok(c['chps'] * c['lots'] * c['devs'] >= 50)


def check_spread(c):
    """Many draws from the prebuilt models alone: deviations of a few percent of each spread show."""
    from gerabaldi.cookbook import jedec_nbti_mdl, volt_and_temp_env

    env = volt_and_temp_env()
    for prm, target, dev, chp, top in (('temp', c['temp'], 0.05, 0.2, 0.5), ('vdd', c['vdd'], 0.0003, 0.0005, 0.0)):
        m = env.vrtn_mdl(prm)
        x = np.array([np.broadcast_to(m.gen_env_vrtns(target, 10, 10, 1), (1, 10, 10)) for _ in range(3000)])
        check_layers(x, target, dev, chp, top, prm)
    n = 8000
    for prm, at, to, sd, step in (('temp', KELVIN + 5.0, 5.0, 0.2, 0.1), ('vdd', 0.05, 0.05, 0.0002, 0.0001)):
        r = np.asarray(env.meas_instm(prm).measure(np.full(n, at)))
        need(abs(r.mean() - to) < 7.5 * sd / np.sqrt(n), 'readings of {} average {} instead of {}', prm, r.mean(), to)
        close_var(r.var(ddof=1), n - 1, sd**2, sd**2 + step**2 / 6, f'{prm} reading error')
    # Prebuilt objects built separately draw their own values, layer by layer
    other = volt_and_temp_env()
    for prm in ('temp', 'vdd'):
        a = volt_and_temp_env().vrtn_mdl(prm)
        for e in (other, volt_and_temp_env()):
            b = e.vrtn_mdl(prm)
            pairs = [('chips', a.gen_chp_vrtns(c[prm], 40), b.gen_chp_vrtns(c[prm], 40)), ('devices', a.gen_dev_vrtns(c[prm], 40), b.gen_dev_vrtns(c[prm], 40))]
            if prm == 'temp':
                pairs.append(('batches', a.gen_batch_vrtn(c[prm]), b.gen_batch_vrtn(c[prm])))
            for what, x, y in pairs:
                need(not set(np.ravel(x)) & set(np.ravel(y)), 'two environments share the {} of {}', what, prm)
            a = b
    for prm, at in (('temp', KELVIN + 5.0), ('vdd', 0.05)):
        r = [tuple(volt_and_temp_env().meas_instm(prm).measure(np.full(60, at))) for _ in range(3)]
        need(len(set(r)) == 3, 'two environments share the error of the instrument for {}', prm)
    fresh = [jedec_nbti_mdl().gen_latent_vals(5, 5, 2) for _ in range(3)]
    for k in LATS:
        need(len({v for f in fresh for v in np.ravel(f[k])}) == 150, 'two mechanisms share {}', k)
    big = jedec_nbti_mdl().gen_latent_vals(*c['n'])
    for k, (mu, sd) in LATS.items():
        close_stats(big[k], mu, sd, k)
    return ok()


def check_readings(r, mean, sd, prec, lo, hi):
    a, b = (min(max(W.sig_round(v, prec)[k], lo), hi) for k, v in ((0, mean - 7.5 * sd), (1, mean + 7.5 * sd)))
    a, b = min(float(a), float(b)), max(float(a), float(b))
    for v in r:
        need(a - 1e-9 <= v <= b + 1e-9, 'reading {} outside of {} to {}', v, a, b)
        need(v == 0 or abs(v - float(f'%.{prec - 1}e' % v)) <= 1e-9 * abs(v), 'reading {} has more than {} digits', v, prec)


def check_ideal(c):
    from gerabaldi.cookbook import ideal_env

    x = run_env(c, ideal_env(), 2)
    for p, v in (('pt', c['temp']), ('temp', c['temp']), ('pv', c['vdd']), ('vdd', c['vdd'])):
        need((x[p] == v).all(), '{} in the ideal environment differs from {}: {}', p, v, np.unique(x[p])[:4])
    return ok(c['chps'] * c['lots'] * c['devs'] >= 50)


SUBS = [
    Sub('htol', htols(), check_htol, 1200),
    Sub('nbti', nbtis(), check_nbti, 250),
    Sub('stoch', envs(), check_stoch, 160),
    Sub('spread', st.fixed_dictionaries({'temp': fl(250.0, 430.0, 4), 'vdd': fl(0.3, 10.0, 3),
                                         'n': st.sampled_from([[200000, 1, 1], [100, 50, 30], [2, 40, 1500]])}), check_spread, 16, 64),
    Sub('ideal', envs(), check_ideal, 120),
]
