"""C26: components that are left out, default or neutral do not change results."""
import copy

import gerabaldi
import numpy as np
import world as W
from base import Sub, need, ok
from hypothesis import strategies as st

RULE = ('Generated worlds without randomness, simulated as they are and after a generated set of neutral additions: default '
        'mechanisms, default conditional shift, explicit zero initial value, the default equation written out, variation '
        'models without layers, ideal instruments, neutral explicit layers in latents, unused latents, an unused extra '
        'condition, an unrelated unmeasured parameter, time units written out. Reports must be equal to 1e-12. Non-trivial: '
        'at least two kinds of additions and a stress phase.')
KINDS = ['mech', 'cond', 'init', 'eqn', 'vrtn', 'instm', 'layers', 'unused', 'load', 'prm', 'units', 'envobj', 'initeqn']


@st.composite
def cases(draw):
    w = draw(W.world(mode=['fresh'], instm=False, dims=2, max_steps=5))
    return {'w': w, 'add': draw(st.lists(st.sampled_from(KINDS), unique=True, min_size=1)), 'typ': draw(st.sampled_from(['offset', 'scaling'])),
            'cls': draw(st.sampled_from(['deg', 'fail'])), 'front': draw(st.booleans())}


def neutral_layers(lats, front):
    for s in lats.values():
        v = 1.0 if s.get('type', 'scaling') == 'scaling' else 0.0
        for layer in ('chp', 'lot') if front else ('dev', 'chp', 'lot'):
            if s.get(layer) is None and (layer != 'dev' or s.get('det') is not None):
                s[layer] = {'d': 'D', 'v': v}


def widen(w, c):
    add, used = set(c['add']), set()
    for p in w['prms'].values():
        if p['k'] == 'circ':
            if 'layers' in add and p['lat']:
                neutral_layers(p['lat'], c['front'])
                used.add('layers')
            if 'unused' in add:
                p['lat']['zz'] = {'det': 5.0}
                used.add('unused')
            continue
        fam = p['compute']['fam']
        one = 1 if fam == 'prod' else 0
        if 'units' in add:
            for m in p['mechs'].values():
                m['tu'] = m['tu'] or p['tu'] or w['tu'] or 'h'
            used.add('units')
        if 'mech' in add:
            idle = {'k': 'none', 'cls': c['cls'], 'unit': one, 'tu': None, 'lat': {}}
            if c['front'] and fam != 'mix':
                p['mechs'] = {'idle': idle, **p['mechs']}
            else:
                p['mechs']['idle'] = idle
            p['compute']['w']['idle'] = ['const', 1.0]
            used.add('mech')
        if 'eqn' in add and fam == 'default':
            p['compute'].update(fam='wsum', w={m: ['const', 1.0] for m in p['mechs']}, style='array')
            used.add('eqn')
        if 'cond' in add and p['cond'] is None:
            p['cond'] = {'e': None, 'unit': one, 'lat': {}}
            used.add('cond')
        if 'init' in add and p['init'] is None:
            p['init'] = ({'fam': 'basic', 'lat': {'init_val': {'det': 0.0}}} if c['front'] else
                         {'fam': 'e', 'rot': 0, 'lat': {}, 'e': ['const', 0.0]})
            used.add('init')
        if 'initeqn' in add and p['init'] is not None and p['init']['fam'] == 'basic':  # the value as an equation without arguments
            p['init'] = {'fam': 'e', 'rot': 0, 'lat': {}, 'e': ['const', W.const_lat(p['init']['lat']['init_val'])]}
            used.add('initeqn')
        if 'unused' in add:
            for m in p['mechs'].values():
                if m['k'] != 'none':
                    m['lat']['zz'] = {'det': 5.0}
            used.add('unused')
        if 'layers' in add:
            for m in p['mechs'].values():
                neutral_layers(m['lat'], c['front'])
            neutral_layers(p['compute']['lat'], c['front'])
            if p['cond']:
                neutral_layers(p['cond']['lat'], c['front'])
            if p['init']:
                neutral_layers(p['init']['lat'], c['front'])
            used.add('layers')
    if 'load' in add:
        for s in w['test']['steps']:
            s['conds']['load'] = 3.5
        used.add('load')
    if 'prm' in add:
        extra = {'k': 'deg', 'tu': None, 'mechs': {'m': {'k': 'none', 'unit': 0, 'tu': None, 'lat': {}}}, 'init': None, 'cond': None,
                 'compute': {'fam': 'default', 'lat': {}, 'w': {}, 'rot': 0, 'style': 'array'}}
        w['prms'] = {'other': extra, **w['prms']} if c['front'] else {**w['prms'], 'other': extra}
        used.add('prm')
    conds = sorted({x for s in w['test']['steps'] for x in s['conds']})
    if 'vrtn' in add:
        for x in conds:
            w['env']['vrtn'].setdefault(x, {'type': c['typ']})
        used.add('vrtn')
    if 'instm' in add:
        for x in [*conds, *w['prms']]:
            w['env']['instm'].setdefault(x, {})
        used.add('instm')
    return used


def check(c):
    from gerabaldi.cookbook import ideal_env

    w = c['w']
    w2 = copy.deepcopy(w)
    used = widen(w2, c)
    env2 = W.build_env(w2)
    if 'envobj' in c['add'] and not w['env']['vrtn']:
        env2 = ideal_env()
        used.add('envobj')
    a = gerabaldi.simulate(W.build_test(w), W.build_dev(w), W.build_env(w))
    b = gerabaldi.simulate(W.build_test(w2), W.build_dev(w2), env2)
    need(len(a.measurements) == len(b.measurements), '{} and {} rows', len(a.measurements), len(b.measurements))
    exact = used <= {'instm', 'units', 'envobj'}
    for col in ('param', 'step #', 'device #', 'chip #', 'lot #', 'time', 'measured'):
        for i, (x, y) in enumerate(zip(a.measurements[col], b.measurements[col])):
            if W.isnull(x) and W.isnull(y):
                continue
            if col == 'measured':
                prm = a.measurements['param'][i]
                scale = max(np.max(np.abs(a.measurements['measured'][a.measurements['param'] == prm])), abs(x))
                same = x == y or not exact and abs(x - y) <= 1e-9 * abs(x) + 1e-12 * scale
            else:
                same = x == y
            need(same, 'row {} {}: {!r} becomes {!r}', i, col, x, y)
    for col in a.test_summary.columns:
        for i, (x, y) in enumerate(zip(a.test_summary[col], b.test_summary[col])):
            need(x == y or (W.isnull(x) and W.isnull(y)), 'summary row {} {}: {!r} becomes {!r}', i, col, x, y)
    return ok(len(used) >= 2 and W.n_stress(w), *sorted(used))


SUBS = [Sub('neutral', cases(), check, 700)]
