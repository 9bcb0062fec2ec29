"""C11: environmental variation is layered by batch, chip and device around the requested conditions."""
from datetime import timedelta

import gerabaldi
import numpy as np
import stubs as S
import world as W
from base import Sub, need, ok
from hypothesis import strategies as st

RULE = ('Condition variation models whose layers draw recognisable codes (with generated sequences of attribute changes, '
        'and shared between conditions) sampled directly, for generated sets of parameters and sensors, and through whole '
        'tests whose measured values reveal the conditions each device saw. Each value is decoded into the draws that '
        'formed it: one batch draw for everything in a step, one per lot and chip shared by all parameters, one per '
        'device; sensors share only the batch draw. Non-trivial: at least two layers and more than one sample.')
KEY = {'dev': 'dev_vrtn_mdl', 'chp': 'chp_vrtn_mdl', 'top': 'batch_vrtn_mdl'}
small = st.tuples(st.integers(1, 3), st.integers(1, 4), st.integers(1, 4)).map(list)
dims = st.one_of(small, small, small, small, st.tuples(small, st.integers(0, 2), st.integers(5, 12)).map(
    lambda x: [x[2] if i == x[1] else v for i, v in enumerate(x[0])]))
few = st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.integers(1, 9))
BASES = [1, 4, 64.0, 2.0, 128]


@st.composite
def spec(draw):
    return {'kind': draw(st.sampled_from(['offset', 'scaling'])),
            'layers': draw(st.lists(st.sampled_from(S.LAYERS), unique=True).map(sorted))}


def mk(s, skip=0, explicit=True):
    import gerabaldi.models as M

    kw = {KEY[x]: S.coded(x, s['kind'], skip) for x in s['layers']}
    if s['kind'] == 'scaling' or explicit:
        kw['vrtn_type'] = s['kind']
    return M.EnvVrtnMdl(**kw)


NO_BASE = st.sampled_from([0, 0.0, -64.0, -4])  # offsets apply to these as well


def env_layers(arr, base, s, shape):
    """Like latents but with a single draw at the top for everything."""
    seen = S.check_layers(arr, base, s['kind'], s['layers'], shape)
    need(len(set(seen['top'].values())) == 1, 'lots of one batch have different batch draws')
    for layer in ('dev', 'chp'):
        if layer in s['layers']:
            S.distinct(seen[layer].values(), f'different {layer}s')
    return seen


# -------------------------------------------------------------- the model on its own
@st.composite
def direct_cases(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('type'), st.sampled_from(['offset', 'scaling'])),
        st.tuples(st.just('set'), st.sampled_from(S.LAYERS), st.integers(0, 50)),
        st.tuples(st.just('drop'), st.sampled_from(S.LAYERS)),
        st.tuples(st.just('gen'), dims),
    ).map(list), max_size=6))
    init = draw(spec())
    plain = init['kind'] == 'offset' and ['type', 'scaling'] not in ops
    return {'init': init, 'explicit': draw(st.booleans()), 'ops': ops, 'dims': draw(dims),
            'base': draw(NO_BASE if plain and draw(st.booleans()) else st.sampled_from(BASES)), 'how': draw(st.sampled_from(['all', 'all', 'parts']))}


def check_direct(c):
    s = {'kind': c['init']['kind'], 'layers': set(c['init']['layers'])}
    m = mk(s, explicit=c['explicit'])
    b = c['base']
    gens = 0
    for op in [*c['ops'], ['gen', c['dims']]]:
        if op[0] == 'type':
            s['kind'] = op[1]
            m.vrtn_type = op[1]
            for x in s['layers']:
                setattr(m, KEY[x], S.coded(x, op[1]))
        elif op[0] == 'set':
            s['layers'].add(op[1])
            setattr(m, KEY[op[1]], S.coded(op[1], s['kind'], op[2]))
        elif op[0] == 'drop':
            s['layers'].discard(op[1])
            setattr(m, KEY[op[1]], None)
        else:
            gens += 1
            if gens > 2:
                continue
            lots, chps, nd = op[1]
            if c['how'] == 'all':
                env_layers(m.gen_env_vrtns(b, **S.sizes(op[1])) if op[1][0] > 1 else m.gen_env_vrtns(b, nd, chps), b, s, op[1])
            else:
                v = m.gen_batch_vrtn(b)
                need(np.size(v) == 1, 'batch variation is not a single value')
                d = S.decode(np.ravel(v)[0], b, s['kind'])
                need((d['top'] is not None) == ('top' in s['layers']) and d['chp'] is None and d['dev'] is None, 'batch')
                v2 = m.gen_chp_vrtns(v, **S.sizes([lots, chps]))
                need(np.shape(v2) == (lots, chps), 'chip variation shape {}', np.shape(v2))
                for x in np.ravel(v2):
                    need(S.decode(x, b, s['kind'])['dev'] is None, 'device draw in chip variation')
                v3 = m.gen_dev_vrtns(v2, nd)
                seen = env_layers(v3, b, s, op[1])
                for k in np.ndindex((lots, chps)):
                    e = S.decode(v2[k], b, s['kind'])
                    need(e['chp'] == seen['chp'][k] and e['top'] == d['top'], 'layers got lost between calls')
                # plain value in: a single chip
                v4 = m.gen_dev_vrtns(b, **S.sizes([1, 1, nd]))
                S.check_layers(v4, b, s['kind'], {x for x in s['layers'] if x == 'dev'}, (1, 1, nd))
    return ok(len(s['layers']) > 1 and np.prod(c['dims']) > 1, s['kind'], f'{len(s["layers"])} layers', c['how'])


# -------------------------------------------------------------- the environment
def decode_set(groups, sensors, conds, bases, specs, shape):
    """groups: prm -> cond -> array. All draws in one step for one condition are consistent. Returns the draws used."""
    used = {}
    for c in conds:
        s, base = specs.get(c, {'kind': 'offset', 'layers': []}), bases[c]
        top, chp, dev = set(), {}, {}
        for p, g in groups.items():
            if c not in g:
                continue
            seen = env_layers(g[c], base, s, (*shape, np.shape(g[c])[2]))
            top |= set(seen['top'].values())
            for k, v in seen['chp'].items():
                need(chp.setdefault(k, v) == v, '{}: parameters on chip {} saw different chip variations', c, k)
            for k, v in seen['dev'].items():
                dev[(p, *k)] = v
        for k, v in sensors.get(c, {}).items():
            d = S.decode(v, base, s['kind'])
            for layer in S.LAYERS:
                need((d[layer] is not None) == (layer in s['layers']), 'sensor {}: {} layer', c, layer)
            top.add(d['top'])
            chp[('sensor', k)] = d['chp']
            dev[('sensor', k)] = d['dev']
        need(len(top) <= 1, '{}: different batch draws within a step', c)
        if 'chp' in s['layers']:
            S.distinct(chp.values(), f'{c}: different chips or sensors')
        if 'dev' in s['layers']:
            S.distinct(dev.values(), f'{c}: different devices or sensors')
        used[c] = {k: set(v) - {None} for k, v in (('top', top), ('chp', chp.values()), ('dev', dev.values()))}
    return used


def anew(before, used, what):
    """No draw of an earlier step is used again."""
    for c, layers in used.items():
        for layer, ds in layers.items():
            old = before.setdefault((c, layer), set())
            need(not ds & old, '{}: {} draws {} were already used in an earlier step ({})', c, layer, sorted(ds & old), what)
            old |= ds


@st.composite
def env_cases(draw):
    conds = draw(st.lists(st.sampled_from(['temp', 'vdd', 'rh', 'temp_amb', 'temp2', 'Temp']), unique=True, min_size=1))
    specs = {c: draw(spec()) for c in conds if draw(st.integers(0, 3))}
    prms = draw(st.lists(st.sampled_from(['vth', 'idss', 'f_osc']), unique=True, max_size=3))
    sens = draw(st.lists(st.sampled_from(conds), unique=True, min_size=0 if prms else 1))
    order = draw(st.permutations([*prms, *sens]))
    shared = draw(st.booleans())
    plain = {c for c in conds if specs.get(c, {}).get('kind', 'offset') == 'offset' and not shared}
    return {'conds': {c: draw(NO_BASE if c in plain and draw(st.integers(0, 2)) == 0 else st.sampled_from(BASES)) for c in conds},
            'specs': specs,
            'prms': {p: draw(st.lists(st.sampled_from(conds), unique=True)) for p in prms}, 'order': order,
            'counts': {p: draw(few) for p in order}, 'lots': draw(few),
            'chps': draw(few), 'shared': shared, 'aslist': draw(st.booleans()), 'target': draw(st.sampled_from(['stress', 'measure'])),
            'via': draw(st.sampled_from(['report', 'dict', 'list', 'nomdl']))}


def cond_fn(conds, extra=()):
    return W.mkfn([*conds, *extra], ['return ' + ' + '.join(['0.0', *(f'0.0 * {x}' for x in [*conds, *extra])])])


def check_env(c):
    import gerabaldi.models as M

    specs = dict(c['specs'])
    vr = {k: mk(s) for k, s in specs.items()}
    ks = sorted(vr)
    if c['shared'] and len(ks) > 1:
        specs[ks[1]] = specs[ks[0]]
        vr[ks[1]] = vr[ks[0]]
    if c['aslist'] and not c['shared']:
        for k, v in vr.items():
            v.name = k
        env = M.PhysTestEnv(list(vr.values()))
    else:
        env = M.PhysTestEnv(env_vrtns=vr)
    mdls = {}
    for p, cs in c['prms'].items():
        if p == 'f_osc':
            mdls[p] = M.CircPrmMdl(cond_fn(cs))
        else:
            # a condition may matter to a mechanism, the conditional shift, or both; target selects
            mdls[p] = M.DegPrmMdl({'m': M.DegMechMdl(cond_fn(cs, ['time']))},
                                  cond_shift_mdl=M.CondShiftMdl(cond_fn(cs)))
    dev = M.DeviceMdl(mdls) if mdls else None
    order = {p: c['counts'][p] for p in c['order']}
    via = c['via']
    base = dict(c['conds'])
    if via == 'nomdl':  # without a device model everything is a sensor
        order = {p: n for p, n in order.items() if p in base}
        if not order:
            order = {next(iter(base)): 2}
        got = env.gen_env_cond_vals(base, order, **S.sizes([c['lots'], c['chps']]))
    elif via == 'dict':
        got = env.gen_env_cond_vals(base, order, None, dev, c['target'], **S.sizes([c['lots'], c['chps']]))
    else:
        rep = M.SimReport(M.TestSpec([M.MeasSpec(dict(order), {})], c['chps'], c['lots']))
        got = env.gen_env_cond_vals(base, order if via == 'report' else list(order), rep, dev, c['target'])
    need(base == c['conds'], 'requested conditions were modified')
    need(set(got) == set(order), 'parameters {} instead of {}', sorted(got), sorted(order))
    groups, sensors = {}, {}
    for p, g in got.items():
        if p in c['prms']:
            need(set(g) >= set(c['prms'][p]), '{}: conditions {} generated, {} needed', p, sorted(g), c['prms'][p])
            groups[p] = g
            for k in g:
                need(np.shape(g[k]) == (c['lots'], c['chps'], order[p]), 'shape {}', np.shape(g[k]))
        else:
            need(np.size(g[p]) == order[p], '{} sensors, {} values', order[p], np.size(g[p]))
            sensors[p] = dict(enumerate(np.ravel(g[p])))
    decode_set(groups, sensors, c['conds'], c['conds'], specs, (c['lots'], c['chps']))
    n = sum(c['counts'].values())
    return ok(n > 1 and any(len(s['layers']) > 1 for s in specs.values()), via,
              *(['shared model'] if c['shared'] and len(ks) > 1 else []), *(['sensors'] if sensors else []))


# -------------------------------------------------------------- whole tests
@st.composite
def sim_cases(draw):
    specs = {c: draw(spec()) for c in ('temp', 'vdd') if draw(st.integers(0, 4))}
    steps = []
    nd, lots, chps = draw(dims.filter(lambda x: max(x) < 9 and sorted(x)[1] < 4))
    for _ in range(draw(st.integers(1, 4))):
        base = {k: draw(st.sampled_from([*BASES, -4]) if specs.get(k, {}).get('kind', 'offset') == 'offset' else st.sampled_from(BASES))
                for k in ('temp', 'vdd')}
        if draw(st.booleans()):
            steps.append(['s', base])
        else:
            steps.append(['m', base, {p: draw(st.integers(1, nd)) for p in draw(st.lists(
                st.sampled_from(['ct', 'cv', 'ft', 'fv', 'ck', 'temp', 'vdd']), min_size=1, unique=True))}])
    steps.append(['m', {'temp': draw(st.sampled_from(BASES)), 'vdd': 1}, {p: draw(st.integers(1, nd)) for p in
                 ('ct', 'ft', 'f2', 'fv', 'ck', 'temp')}])
    return {'specs': specs, 'steps': steps, 'lots': lots, 'chps': chps, 'nd': nd,
            'state': draw(st.booleans())}


def check_sim(c):
    import gerabaldi.models as M

    none = lambda: M.DegMechMdl()
    # ft/fv/f2 latch the conditions of the first stress phase, ct/cv/ck show those of the measurement
    dev = M.DeviceMdl({
        'ct': M.DegPrmMdl({'m': none()}, cond_shift_mdl=M.CondShiftMdl(lambda temp: temp)),
        'cv': M.DegPrmMdl({'m': none()}, cond_shift_mdl=M.CondShiftMdl(lambda vdd: 1.0 * vdd)),
        'ft': M.DegPrmMdl({'a': M.FailMechMdl(lambda temp: 1.0 * temp)}),
        'f2': M.DegPrmMdl({'a': M.FailMechMdl(lambda temp: 1.0 * temp), 'b': M.FailMechMdl(lambda temp: 2.0 * temp)},
                          compute_eqn=lambda init, cond, a, b: init + cond + a * 1e-3 + (b - 2 * a) * 1e9),
        'fv': M.DegPrmMdl({'a': M.FailMechMdl(lambda vdd: 1.0 * vdd)}),
        'ck': M.CircPrmMdl(lambda temp, ct: temp + 0.0 * ct),
    })
    env = M.PhysTestEnv({k: mk(s) for k, s in c['specs'].items()})
    steps = [M.StrsSpec(dict(s[1]), timedelta(hours=1)) if s[0] == 's' else M.MeasSpec(dict(s[2]), dict(s[1]))
             for s in c['steps']]
    test = M.TestSpec(steps, c['chps'], c['lots'])
    state = gerabaldi.gen_init_state(dev, {p: c['nd'] + 1 for p in ('ct', 'cv', 'ft', 'f2', 'fv', 'ck')}, c['chps'], c['lots']) \
        if c['state'] else None
    rep = gerabaldi.simulate(test, dev, env, state)
    rows, conds = W.report_rows(rep)
    first, latched, before = None, {}, {}
    for i, s in enumerate(c['steps']):
        if s[0] == 's':
            first = s[1] if first is None else first
            continue
        arrs = {}
        for p, n in s[2].items():
            if p in ('temp', 'vdd'):
                continue
            arrs[p] = np.array([[[rows[(i, p, lt, ch, dv)][1] for dv in range(n)] for ch in range(c['chps'])]
                                for lt in range(c['lots'])])
        groups = {p: {'temp': a} for p, a in arrs.items() if p in ('ct', 'ck')}
        groups.update({p: {'vdd': a} for p, a in arrs.items() if p == 'cv'})
        sens = {p: dict(enumerate(v for _, v in conds[(i, p)])) for p in s[2] if p in ('temp', 'vdd')}
        anew(before, decode_set(groups, sens, ('temp', 'vdd'), s[1], c['specs'], (c['lots'], c['chps'])), f'step {i}')
        for p, a in arrs.items():
            if p in ('ft', 'f2', 'fv'):
                if first is None:
                    need(not np.any(a), 'failed before stress')
                    continue
                a = a / 1e-3 if p == 'f2' else a  # 1e9 * (difference between mechanisms) would show up here
                for k in np.ndindex(a.shape):
                    old = latched.setdefault((p, *k), a[k])
                    need(abs(old - a[k]) <= 1e-6 * abs(old), 'latched value of {} changed', (p, *k))
    if first is not None:
        fg = {}
        for p, cond in (('ft', 'temp'), ('f2', 'temp'), ('fv', 'vdd')):
            ks = [k for k in latched if k[0] == p]
            if not ks:
                continue
            # measured device counts may differ over steps: keep what is available on every chip
            nd = 1 + max(k[3] for k in ks)
            fg[p] = {cond: np.array([[[round(latched[(p, lt, ch, dv)], 3) for dv in range(nd)] for ch in range(c['chps'])]
                                     for lt in range(c['lots'])])}
        anew(before, decode_set(fg, {}, ('temp', 'vdd'), first, c['specs'], (c['lots'], c['chps'])), 'first stress')
    return ok(any(len(s['layers']) > 1 for s in c['specs'].values()), *(['stress'] if first else []))


SUBS = [Sub('direct', direct_cases(), check_direct, 2000), Sub('env', env_cases(), check_env, 2000),
        Sub('sim', sim_cases(), check_sim, 500)]
