"""C03: the time unit a mechanism is written in does not change the physical outcome."""
import copy
from datetime import timedelta

import numpy as np
import world as W
from base import Sub, fl, known, need, ok
from hypothesis import strategies as st

RULE = ('Generated worlds run from one initial state with every mechanism rewritten into another generated time unit '
        '(same physical law), and with units moved between device, parameter and mechanism level or spelled differently. '
        'Rewritten: agreement within the solver slack and with the closed-form reference. Moved or respelled: identical. '
        'Also one mechanism object used in two parameters of one or two devices, each with its own units. '
        'Non-trivial: at least one stress phase and one mechanism whose unit or place of definition changed.')
SHORT = {'days': 'd', 'hours': 'h', 'seconds': 's', 'milliseconds': 'ms', 'microseconds': 'us'}
LONG = {v: k for k, v in SHORT.items()}


def subst_time(e, factor):
    if e[0] == 'var':
        return ['mul', ['var', 'time'], ['const', factor]] if e[1] == 'time' else e
    if e[0] == 'const':
        return e
    return [e[0], *(subst_time(x, factor) for x in e[1:])]


@st.composite
def rewrite_cases(draw):
    w = draw(W.world(mode=['state'], max_steps=4, vary=True))
    units = {}
    for n, p in w['prms'].items():
        if p['k'] == 'deg':
            for m in p['mechs']:
                units[f'{n}/{m}'] = draw(st.sampled_from(W.unit_choices(w['T'])))
    return {'w': w, 'units': units}


def rewritten(c):
    w = copy.deepcopy(c['w'])
    changed = 0
    for n, p in w['prms'].items():
        if p['k'] != 'deg':
            continue
        for mn, m in p['mechs'].items():
            old, new = W.resolve_unit(w, p, m), c['units'][f'{n}/{mn}']
            f = W.UNIT_US[new] / W.UNIT_US[old]
            m['tu'] = new
            changed += f != 1
            if m['k'] == 'deg':
                m['R'] = ['mul', m['R'], ['const', f]]
            elif m['k'] == 'fail':
                m['pred'] = subst_time(m['pred'], f)
    return w, changed


def same_rows(a, b, refa, refb, what):
    ra, ca = W.report_rows(a)
    rb, cb = W.report_rows(b)
    need(set(ra) == set(rb), '{}: different rows', what)
    for k in ra:
        lo, hi = min(refa.rows[k][0], refb.rows[k][0]), max(refa.rows[k][1], refb.rows[k][1])
        sc = float(np.max(np.abs(refa.rs.init[k[1]]))) if k[1] in refa.rs.init else 1e-6
        need(W.within(ra[k][1], lo, hi, sc) and W.within(rb[k][1], lo, hi, sc), '{}: {} {!r} / {!r}, expected [{!r}, {!r}]',
             what, k, ra[k][1], rb[k][1], lo, hi)
        need(ra[k][0] == rb[k][0], '{}: time differs', what)


def check_rewrite(c):
    w = c['w']
    w2, changed = rewritten(c)
    dev = W.build_dev(w)
    state = W.gen_state(w, dev)
    a, refa = W.simulate(w, dev, state=state)
    b, refb = W.simulate(w2, W.build_dev(w2), state=state)
    W.compare(a, refa, 'original units')
    W.compare(b, refb, 'rewritten units')
    same_rows(a, b, refa, refb, 'rewritten units')
    return ok(changed and W.n_stress(w), *W.world_labels(w), *(f'unit {SHORT.get(u, u)}' for u in c['units'].values()))


@st.composite
def place_cases(draw):
    w = draw(W.world(mode=['state'], max_steps=3, vary=True))
    tu = draw(st.sampled_from(W.UNIT_NAMES + [None]))
    place, spell, other = {}, {}, {}
    for n, p in w['prms'].items():
        if p['k'] == 'deg':
            place[n] = draw(st.sampled_from(['mech', 'prm', 'dev', 'lazy']))
            other[n] = draw(st.sampled_from(W.UNIT_NAMES))
            spell[n] = draw(st.booleans())
    return {'w': w, 'tu': tu, 'place': place, 'spell': spell, 'other': other}


def respell(u, flip):
    return (LONG.get(u) or SHORT[u]) if flip else u


def check_place(c):
    """Every mechanism uses one unit; where it is written down, and irrelevant outer units, make no difference."""
    base, alt = copy.deepcopy(c['w']), copy.deepcopy(c['w'])
    tu = c['tu']
    eff = tu or 'h'
    base['tu'] = None
    alt['tu'] = tu
    for n, p in base['prms'].items():
        if p['k'] != 'deg':
            continue
        p['tu'] = None
        for m in p['mechs'].values():
            m['tu'] = eff
    for n, p in alt['prms'].items():
        if p['k'] != 'deg':
            continue
        pl = c['place'][n]
        p['tu'] = None
        for m in p['mechs'].values():
            m['tu'] = None
        if pl == 'mech':
            p['tu'] = c['other'][n]  # overridden by the mechanisms' own unit
            for m in p['mechs'].values():
                m['tu'] = respell(eff, c['spell'][n])
        elif pl == 'prm':
            p['tu'] = respell(eff, c['spell'][n])
    dev = W.build_dev(base)
    state = W.gen_state(base, dev)
    a, refa = W.simulate(base, dev, state=state)
    b, refb = W.simulate(alt, W.build_dev(alt), state=state)
    W.compare(a, refa, 'unit on mechanisms')
    ra, rb = W.report_rows(a)[0], W.report_rows(b)[0]
    need(ra.keys() == rb.keys(), 'different rows')
    for k in ra:
        x, y = ra[k][1], rb[k][1]
        need(x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y)), '{}: {!r} with the unit on the mechanism, {!r} with it '
             'defined elsewhere', k, x, y)
    return ok(W.n_stress(base), *(f'unit at {p}' for p in c['place'].values()))


UNITS = st.one_of(st.none(), st.sampled_from(W.UNIT_NAMES))


def resolve(*units):
    return next((u for u in units if u is not None), 'h')


def check_shared(c):
    """One mechanism object in two parameters, of one or two devices: each uses the units given for it."""
    import gerabaldi
    import gerabaldi.models as M

    mech = M.DegMechMdl(lambda time, k: k * time, time_unit=c['mech'], k=M.LatentVar(deter_val=c['k']))
    prms = [M.DegPrmMdl({'m': mech}, time_unit=u) for u in c['prms']]
    if c['two']:
        devs = [M.DeviceMdl({n: p}, time_unit=u) for n, p, u in zip('ab', prms, c['devs'])]
    else:
        devs = [M.DeviceMdl(dict(zip('ab', prms)), time_unit=c['devs'][0])] * 2
    eff = [resolve(c['mech'], c['prms'][i], c['devs'][i if c['two'] else 0]) for i in (0, 1)]
    for i, n in enumerate('ab'):
        test = M.TestSpec([M.StrsSpec({'temp': 300.0}, timedelta(microseconds=c['us'])), M.MeasSpec({n: 1}, {'temp': 300.0})])
        got = float(gerabaldi.simulate(test, devs[i], M.PhysTestEnv()).measurements['measured'].iloc[0])

        def is_(unit):
            # A fresh device is at the shortest time considered, in the mechanism's own unit
            t = c['us'] / W.UNIT_US[unit]
            return -1e-9 * t <= got / c['k'] - t <= 1e-9 * t + W.TIME_FLOOR

        if not is_(eff[i]) and is_(eff[0]):
            known('shared-mechanism')  # exactly the unit that was in force where the mechanism was first used
            continue
        need(is_(eff[i]), 'parameter {} shows {} instead of {} (unit {})', n, got, c['k'] * c['us'] / W.UNIT_US[eff[i]], eff[i])
    return ok(eff[0] != eff[1] or c['mech'] is None, 'conflict' if W.UNIT_US[eff[0]] != W.UNIT_US[eff[1]] else 'same')


shared_cases = st.fixed_dictionaries({
    'mech': UNITS, 'prms': st.tuples(UNITS, UNITS).map(list), 'devs': st.tuples(UNITS, UNITS).map(list), 'two': st.booleans(),
    'k': fl(0.5, 4.0, 2), 'us': st.integers(10**10, 10**12)})
SUBS = [Sub('shared', shared_cases, check_shared, 400), Sub('rewrite', rewrite_cases(), check_rewrite, 600), Sub('place', place_cases(), check_place, 400)]
