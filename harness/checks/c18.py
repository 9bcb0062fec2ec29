"""C18: whether an equation handles arrays or single values makes no difference."""
import copy

import numpy as np
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Generated worlds run from one initial state with every equation (initial value, mechanism, failure, conditional '
        'shift, parameter, circuit) written once for arrays, once with branches or functions (ValueError, TypeError on arrays) that only work on single values, and '
        'with array evaluation switched off; populations from a single device up. All runs must agree with each other '
        'and with the closed-form reference. Also equations that return constants or only depend on some arguments, '
        'and initial values of seeded layered latents under five codings of one equation. '
        'Non-trivial: more than one device and a stress phase.')


def restyle(w, style, noarr):
    w = copy.deepcopy(w)
    for p in w['prms'].values():
        if p['k'] == 'circ':
            continue
        p['compute']['style'] = style
        p.pop('noarr', None)
        if noarr:
            p['noarr'] = True
        if p['cond'] and p['cond'].get('e') is not None:
            p['cond']['style'] = style
        for m in p['mechs'].values():
            if m['k'] != 'none':
                m['style'] = style
    return w


def check(w):
    dev0 = W.build_dev(w)
    state = W.gen_state(w, dev0)
    runs = []
    for style, noarr in (('array', False), ('scalar', False), ('array', True), ('float', True), ('float', False)):
        v = restyle(w, style, noarr)
        rep, ref = W.simulate(v, W.build_dev(v), state=state)
        W.compare(rep, ref, f'{style} equations{", array evaluation off" if noarr else ""}')
        runs.append(W.report_rows(rep)[0])
    for k in runs[0]:
        lo, hi = ref.rows[k]
        vals = [r[k][1] for r in runs]
        slack = 2 * (hi - lo) + 1e-9 * max(1e-300, *(abs(v) for v in vals), *([float(np.max(np.abs(ref.rs.init[k[1]])))] if k[1] in ref.rs.init else []))
        need(max(vals) - min(vals) <= slack, '{} differs between styles: {}', k, vals)
    n = w['test']['chps'] * w['test']['lots']
    return ok(len(runs[0]) > 1 and W.n_stress(w), f'samples {min(n, 4)}', *W.world_labels(w))


@st.composite
def const_cases(draw):
    d = [draw(st.integers(1, 3)) for _ in range(3)]
    pos = ['init', 'mech', 'fail', 'cond', 'prm', 'circ']
    return {'dims': d, 'style': {p: draw(st.sampled_from(['const', 'array', 'branch', 'np', 'list', 'float', 'f32'])) for p in pos},
            'vals': {p: draw(fl(0.5, 5.0, 3)) for p in pos}, 'steps': draw(st.lists(st.sampled_from('sm'), min_size=1, max_size=4)),
            'noarr': draw(st.booleans())}


def fn(style, val, arg):
    """Equations equal to 'val' (given arg > 0) in various codings."""
    if style == 'const':
        return W.mkfn([], [f'return {val!r}'])
    if style == 'array':
        return W.mkfn([arg], [f'return {val!r} + 0.0 * {arg}'])
    if style == 'branch':
        return W.mkfn([arg], [f'return {val!r} if {arg} > -1e300 else 0.0'])
    if style == 'np':
        return W.mkfn([arg], [f'return np.where({arg} > -1e300, {val!r}, 0.0)'])
    if style == 'f32':
        return W.mkfn([arg], [f'return np.float32({val!r})'])
    if style == 'float':
        return W.mkfn([arg], [*W.as_floats([arg]), f'return {val!r}'])
    return W.mkfn([arg], [f'if {arg} != {arg}:', '    return 0', f'return np.float64({val!r})'])


def check_const(c):
    """Each sub-model's equation returns a constant; every coding must give one value per device."""
    import gerabaldi
    import gerabaldi.models as M
    from datetime import timedelta

    v, s = {k: float(np.float32(x)) for k, x in c['vals'].items()}, c['style']
    lots, chps, nd = c['dims']
    lat = lambda: M.LatentVar(M.Normal(1.0, 0.01, test_seed=3))
    prm = lambda **k: M.DegPrmMdl(k.pop('mechs', None) or {'m': M.DegMechMdl()}, array_computable=not c['noarr'], **k)
    ikw = {'k': lat()} if s['init'] != 'const' else {}
    mkw = {'k': lat()} if s['fail'] != 'const' else {}
    dev = M.DeviceMdl({
        'pi': prm(init_val_mdl=M.InitValMdl(fn(s['init'], v['init'], 'k'), **ikw)),
        'pf': prm(mechs={'m': M.FailMechMdl(fn(s['fail'], v['fail'], 'k'), **mkw)}),
        'pm': prm(mechs={'m': M.DegMechMdl(fn(s['mech'], v['mech'], 'time'))}),
        'pc': prm(cond_shift_mdl=M.CondShiftMdl(fn(s['cond'], v['cond'], 'temp'))),
        'pg': M.DegPrmMdl({'m': M.DegMechMdl()}, array_computable=False, init_val_mdl=M.InitValMdl(init_val=M.LatentVar(deter_val=2.0)),
                          compute_eqn=lambda init, cond, m: float(init) / 2.0 * 2.0 + float(cond) + float(m)),
        'pp': M.DegPrmMdl({'m': M.DegMechMdl()}, array_computable=not c['noarr'],
                          compute_eqn=W.mkfn(['init', 'cond', 'm'], ['if init > -1e300:' if s['prm'] in ('branch', 'list') else 'if float(init) == init:' if s['prm'] == 'float' else 'if True:',
                                                                     f'    return {v["prm"]!r}' + (' + 0.0 * init' if s['prm'] in ('array', 'np') else '')])),
        'ck': M.CircPrmMdl(fn('branch' if s['circ'] == 'const' else s['circ'], v['circ'], 'pi')),
    })
    steps, stressed = [], []
    n = 0
    for x in [*c['steps'], 'm']:
        if x == 's':
            steps.append(M.StrsSpec({'temp': 300}, timedelta(hours=1)))
            n += 1
        else:
            steps.append(M.MeasSpec({p: nd for p in ('pi', 'pf', 'pm', 'pc', 'pp', 'ck', 'pg')}, {'temp': 300}))
        stressed.append(n)
    rep = gerabaldi.simulate(M.TestSpec(steps, chps, lots), dev, M.PhysTestEnv())
    rows, _ = W.report_rows(rep)
    need(len(rows) == 7 * lots * chps * nd * sum(isinstance(q, M.MeasSpec) for q in steps), '{} rows', len(rows))
    for (i, p, *_), (_, x) in rows.items():
        if p == 'pm':
            # a constant mechanism has either never acted or is at its value
            need(x in (0.0, v['mech']), 'mechanism value {!r}', x)
            continue
        want = {'pi': v['init'], 'pf': v['fail'] if stressed[i] else 0.0, 'pc': v['cond'], 'pp': v['prm'], 'ck': v['circ'], 'pg': 2.0}[p]
        need(abs(x - want) <= 1e-12 * abs(want), '{} is {!r} at step {}, expected {!r}', p, x, i, want)
    return ok(lots * chps * nd > 1 and n, f'samples {min(8, lots * chps * nd)}')


@st.composite
def init_cases(draw):
    names = ['a', 'b', 'c'][:draw(st.integers(1, 3))]
    e = ['var', names[0]]
    for n in names[1:]:
        e = [draw(st.sampled_from(['add', 'mul', 'sub', 'div'])), e, ['var', n]]
    lay = st.lists(st.sampled_from(['dev_vrtn_mdl', 'chp_vrtn_mdl', 'lot_vrtn_mdl']), unique=True, max_size=3)
    return {'dims': [draw(st.integers(1, 3)) for _ in range(3)], 'e': e, 'rot': draw(W.rots(3)), 'k': draw(fl(0.5, 2.0, 2)),
            'lat': {n: {'layers': sorted(draw(lay)), 'type': draw(st.sampled_from(['offset', 'scaling'])), 'det': draw(fl(1.0, 9.0, 1)),
                        'seed': draw(st.integers(0, 1000))} for n in names},
            'pick': draw(st.sampled_from(['init', 'init', 'prm']))}


def check_init(c):
    """Initial values of one population under one equation, in codings for arrays and for single values."""
    import gerabaldi.models as M

    names = sorted(c['lat'])
    r, k = W.render(c['e']), repr(c['k'])
    forms = {'array': [f'return {r} * {k}'],
             'branch': [f'if {names[0]} != {names[0]}:', '    return 0.0', f'return {r} * {k}'],
             'chain': [f'if {names[-1]} > -1e300 and {names[0]} > -1e300:', f'    return {r} * {k}', 'return 0.0'],
             'float': [*W.as_floats(names), f'return {r} * {k}'], 'numpy': [f'return np.multiply({r}, {k})'], 'max': [f'return max({r} * {k}, -1e300)']}
    lots, chps, devs = c['dims']
    got = {}
    for form, lines in forms.items():
        lats = {}
        for n, x in c['lat'].items():
            kw = {y: M.Normal(1.0 if x['type'] == 'scaling' else 0.0, 0.2, test_seed=x['seed'] + i) for i, y in enumerate(x['layers'])}
            lats[n] = M.LatentVar(deter_val=x['det'], vrtn_type=x['type'], **kw)
        fn = W.mkfn(names, lines, c['rot'])
        if c['pick'] == 'init':
            got[form] = M.InitValMdl(fn, **lats).gen_init_vals(devs, chps, lots)
        else:
            prm = M.DegPrmMdl({'m': M.DegMechMdl()}, init_val_mdl=M.InitValMdl(fn, **lats))
            got[form] = M.DeviceMdl({'p': prm}).gen_init_state({'p': devs}, chps, lots).init_prm_vals['p']
    a = np.asarray(got['array'], dtype=float)
    need(a.shape == (lots, chps, devs), 'initial values of shape {}', a.shape)
    for form, b in got.items():
        need(np.shape(b) == a.shape, '{} equation: initial values of shape {}', form, np.shape(b))
        need(np.allclose(a, b, rtol=1e-12, atol=1e-12), 'initial values of the {} equation {}, of the array equation {}', form, b, a)
    return ok(lots * chps * devs > 1 and any(x['layers'] for x in c['lat'].values()), f'latents {len(names)}', c['pick'])


SUBS = [
    Sub('styles', W.world(mode=['state'], max_steps=4, dims=2, prms=2, circ=True, vary=True), check, 350),
    Sub('single', W.world(mode=['state'], max_steps=4, dims=1, prms=1, circ=True), check, 250),
    Sub('constants', const_cases(), check_const, 600),
    Sub('initial', init_cases(), check_init, 400),
]
