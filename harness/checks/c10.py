"""C10: latent variables are layered by lot, chip and device, and stay with their device for life."""
from datetime import timedelta

import gerabaldi
import numpy as np
import stubs as S
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Latent variables whose layers draw recognisable codes, built and then changed by generated sequences of attribute '
        'assignments (layer added, replaced or removed, base value, variation type), sampled for generated numbers of '
        'lots, chips and devices, directly or through a model; each value is decoded into the draws that formed it. Also whole tests in which initial '
        'values, conditional shifts, mechanisms and circuit parameters hold such latents and are measured repeatedly. '
        'Non-trivial: at least two layers, or repeated measurements of more than one device.')
KEY = {'dev': 'dev_vrtn_mdl', 'chp': 'chp_vrtn_mdl', 'top': 'lot_vrtn_mdl'}
small = st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 5)).map(list)
dims = st.one_of(small, small, small, small, st.tuples(small, st.integers(0, 2), st.integers(5, 12)).map(
    lambda x: [x[2] if i == x[1] else v for i, v in enumerate(x[0])]))


@st.composite
def spec(draw, kinds=('offset', 'scaling')):
    kind = draw(st.sampled_from(list(kinds)))
    det = draw(st.sampled_from([None, None, 0, 4, 64.0, 2.0] if kind == 'offset' else [None, None, 1, 4, 64.0, 2.0]))
    lay = [x for x in ('chp', 'top') if draw(st.booleans())]
    if det is None or draw(st.booleans()):
        lay.append('dev')
    return {'kind': kind, 'det': det, 'layers': lay}


@st.composite
def cases(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('type'), st.sampled_from(['offset', 'scaling'])),
        st.tuples(st.just('set'), st.sampled_from(S.LAYERS), st.integers(0, 100)),
        st.tuples(st.just('drop'), st.sampled_from(S.LAYERS)),
        st.tuples(st.just('det'), st.sampled_from([None, 1, 8.0, 2, 32.0])),
        st.tuples(st.just('gen'), dims),
        st.tuples(st.just('name'), st.sampled_from(['a', 'b'])),
    ).map(list), max_size=6))
    return {'init': draw(spec()), 'named': draw(st.booleans()), 'ops': ops, 'dims': draw(dims),
            'via': draw(st.sampled_from(['var', 'var', 'mech', 'fail', 'cond', 'init', 'prm', 'circ']))}


def through(var, via):
    """Object that generates values of the latent, and how to find them: the variable or a model that it belongs to."""
    import gerabaldi.models as M

    if via == 'var':
        return var, lambda v: v
    eqn = {'mech': lambda time, x: x, 'fail': lambda time, x: x, 'prm': lambda init, cond, m, x: x}.get(via, lambda x: x)
    if via == 'prm':
        return M.DegPrmMdl({'m': M.DegMechMdl()}, compute_eqn=eqn, x=var), lambda v: v['x']
    return {'mech': M.DegMechMdl, 'fail': M.FailMechMdl, 'cond': M.CondShiftMdl, 'init': M.InitValMdl,
            'circ': M.CircPrmMdl}[via](eqn, x=var), lambda v: v['x']


def base_of(det, kind):
    return det if det is not None else (0 if kind == 'offset' else 1)


def judge(var, layers, det, kind, d, via='var'):
    obj, get = through(var, via)
    arr = get(obj.gen_latent_vals(**S.sizes(d)))
    if kind == 'scaling' and det == 0:
        need(np.shape(arr) == tuple(d) and not np.any(arr), 'scaled zero is not zero')
        return
    seen = S.check_layers(arr, base_of(det, kind), kind, layers, d)
    for layer in layers:
        S.distinct(seen[layer].values(), f'different {layer}s')


def check(c):
    import gerabaldi.models as M

    i = c['init']
    kind, det, layers = i['kind'], i['det'], {x: 0 for x in i['layers']}
    kw = {KEY[x]: S.coded(x, kind) for x in layers}
    if det is not None:
        kw['deter_val'] = det
    if c['named']:
        kw['name'] = 'lat'
    var = M.LatentVar(vrtn_type=kind, **kw) if kind == 'offset' or c['named'] else M.LatentVar(**kw)
    gens = 0
    for op in c['ops']:
        if op[0] == 'type':
            kind = op[1]
            var.vrtn_type = kind
            for x in layers:  # codes are specific to the type, so renew them
                setattr(var, KEY[x], S.coded(x, kind))
        elif op[0] == 'set':
            layers[op[1]] = op[2]
            setattr(var, KEY[op[1]], S.coded(op[1], kind, op[2]))
        elif op[0] == 'drop':
            if op[1] == 'dev' and det is None:
                continue
            layers.pop(op[1], None)
            setattr(var, KEY[op[1]], None)
        elif op[0] == 'det':
            if op[1] is None and 'dev' not in layers:
                continue
            det = op[1]
            var.deter_val = det
        elif op[0] == 'name':
            var.name = op[1]
        elif gens < 2:
            gens += 1
            judge(var, layers, det, kind, op[1], c.get('via', 'var'))
    judge(var, layers, det, kind, c['dims'], c.get('via', 'var'))
    return ok(len(layers) >= 2 or (layers and len(c['ops']) > 1), f'{len(layers)} layers', kind, f'ops {len(c["ops"])}')


@st.composite
def life_cases(draw):
    d = draw(dims)
    k = draw(st.integers(2, 5))
    steps = []
    for _ in range(k):
        for _ in range(draw(st.integers(0, 2))):
            steps.append(['s', draw(st.sampled_from([1.0, 10.0, 30.0]))])
        steps.append(['m', {p: draw(st.integers(1, d[2])) for p in draw(
            st.lists(st.sampled_from(['pi', 'pc', 'pm', 'pf', 'ck']), min_size=1, unique=True))}])
    return {'dims': d, 'specs': {p: draw(spec()) for p in ('pi', 'pc', 'pm', 'pf', 'ck')}, 'steps': steps,
            'mode': draw(st.sampled_from(['state', 'fresh']))}


def mk(s, skip=0):
    import gerabaldi.models as M

    kw = {KEY[x]: S.coded(x, s['kind'], skip) for x in s['layers']}
    return M.LatentVar(deter_val=s['det'], vrtn_type=s['kind'], **kw)


def check_life(c):
    import gerabaldi.models as M

    sp = c['specs']
    dev = M.DeviceMdl({
        'pi': M.DegPrmMdl({'m': M.DegMechMdl()}, init_val_mdl=M.InitValMdl(init_val=mk(sp['pi']))),
        'pc': M.DegPrmMdl({'m': M.DegMechMdl()}, cond_shift_mdl=M.CondShiftMdl(lambda k: k, k=mk(sp['pc']))),
        'pm': M.DegPrmMdl({'m': M.DegMechMdl(lambda time, k: k * time, k=mk(sp['pm']), time_unit='ms')}),
        'pf': M.DegPrmMdl({'m': M.FailMechMdl(lambda k: k + 0.0, k=mk(sp['pf']))}),
        'ck': M.CircPrmMdl(lambda k, pi: k + 0.0 * pi, k=mk(sp['ck'])),
    })
    lots, chps, nd = c['dims']
    steps = [M.StrsSpec({'temp': 300}, timedelta(hours=s[1])) if s[0] == 's' else M.MeasSpec(dict(s[1]), {'temp': 300})
             for s in c['steps']]
    test = M.TestSpec(steps, chps, lots)
    env = M.PhysTestEnv()
    if c['mode'] == 'state':
        rep = gerabaldi.simulate(test, dev, env, gerabaldi.gen_init_state(
            dev, {p: nd for p in sp}, num_chps=chps, num_lots=lots))
    else:
        rep = gerabaldi.simulate(test, dev, env)
    rows, _ = W.report_rows(rep)
    t, life, count, hours = 0.0, {}, {}, {}
    for i, s in enumerate(c['steps']):
        if s[0] == 's':
            t += s[1]
        hours[i] = t
    for (i, p, lt, ch, dv), (_, v) in rows.items():
        s = sp[p]
        if p == 'pm':
            if hours[i] == 0:
                need(v == 0, 'degraded before any stress: {!r}', v)
                continue
            r = v / (hours[i] * 3.6e6)
            n = round(r)
            # the equivalent time search limits accuracy; only small codes can be told apart reliably
            if s['layers'] and n > 2000:
                need((p, lt, ch, dv) not in life or abs(life[(p, lt, ch, dv)] - r) < 3e-4 * r + 1e-9,
                     'mechanism latent of {} changed', (p, lt, ch, dv))
                life[(p, lt, ch, dv)] = r
                continue
            v = n
            need(abs(r - n) < 0.2, 'mechanism value {!r} is not latent x time', r)
        if p == 'pf':
            if hours[i] == 0:
                need(v == 0, 'failed before any stress')
                continue
        need((p, lt, ch, dv) not in life or life[(p, lt, ch, dv)] == v, 'latent of {} changed over the test: {!r} {!r}',
             (p, lt, ch, dv), v, life.get((p, lt, ch, dv)))
        life[(p, lt, ch, dv)] = v
        count[(p, lt, ch, dv)] = count.get((p, lt, ch, dv), 0) + 1
    for p, s in sp.items():
        if p == 'pm':
            continue
        keys = [k for k in life if k[0] == p]
        got = {x: {} for x in S.LAYERS}
        for k in keys:
            d = S.decode(life[k], base_of(s['det'], s['kind']), s['kind'])
            for layer in S.LAYERS:
                need((d[layer] is not None) == (layer in s['layers']), '{}: {} layer of latent', k, layer)
            got['dev'][k] = d['dev']
            need(got['chp'].setdefault(k[1:3], d['chp']) == d['chp'], '{} does not share its chip\'s draw', k)
            need(got['top'].setdefault(k[1], d['top']) == d['top'], '{} does not share its lot\'s draw', k)
        for layer in s['layers']:
            S.distinct(got[layer].values(), f'{p}: different {layer}s')
    many = max(count.values(), default=0) > 1 and len(life) > 1
    return ok(many, c['mode'], f'steps {min(len(c["steps"]), 6)}')


SUBS = [Sub('layers', cases(), check, 2500), Sub('life', life_cases(), check_life, 500)]
