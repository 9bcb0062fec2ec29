"""C27: a model exported for inference has the equation, latents and data that it was given."""
import warnings

import numpy as np
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st
from scipy import stats

warnings.filterwarnings('ignore')

RULE = ('Generated mechanism, failure, conditional shift, initial value, parameter and circuit models with one to three '
        'latents (plain or layered) and generated equations over conditions and time are exported to both frameworks with '
        'generated observations. The exported joint density is evaluated at generated latent values and must equal the '
        'density of the latents plus that of the observations around the equation as evaluated by an independent '
        'reference. Non-trivial: at least two observations and a latent in the equation.')
SIGMA = {'pymc': 1.0, 'pyro': 0.1}
KINDS = ['deg', 'fail', 'cond', 'init', 'prm', 'circ']


@st.composite
def dist(draw):
    k = draw(st.sampled_from('NNGU'))
    if k == 'N':
        return {'d': 'N', 'a': draw(fl(0.5, 2.0, 2)), 'b': draw(fl(0.1, 0.8, 2))}
    if k == 'G':
        return {'d': 'G', 'a': draw(fl(1.0, 9.0, 2)), 'b': draw(fl(0.5, 6.0, 2))}
    lo = draw(fl(0.1, 1.0, 2))
    return {'d': 'U', 'a': lo, 'b': round(lo + draw(fl(0.2, 3.0, 2)), 3)}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    lats = {}
    for n in draw(st.lists(st.sampled_from(['a0', 'k', 'g']), unique=True, min_size=1)):
        lats[n] = {'dev': draw(dist()), 'type': draw(st.sampled_from(['scaling', 'offset']))}
        for layer in ('chp', 'lot'):
            if draw(st.integers(0, 3)) == 0:
                lats[n][layer] = draw(dist())
    args = {'deg': ['time', 'temp', 'vdd'], 'fail': ['time', 'vdd'], 'cond': ['temp', 'vdd'], 'init': [],
            'prm': ['init', 'cond', 'm'], 'circ': ['vth', 'temp']}[kind]
    if kind != 'prm':
        args = [a for a in args if draw(st.booleans())]
    e = ['const', draw(fl(-1.0, 1.0, 2))]
    for x in [*lats, *args]:
        f = ['var', x]
        if draw(st.booleans()):
            f = ['pow', f, ['const', 2.0]]
        if draw(st.booleans()):
            f = ['mul', ['const', draw(fl(-2.0, 2.0, 2))], f]
        e = [draw(st.sampled_from(['add', 'mul', 'sub'])), e, f]
    n = draw(st.integers(1, 4))
    vals = lambda: draw(st.lists(fl(0.2, 3.0, 3), min_size=n, max_size=n))  # noqa: E731
    return {'kind': kind, 'lats': lats, 'e': e, 'obs': {a: vals() for a in args}, 'y': vals(),
            # pyro's observations are declared one-dimensional, so something in the equation has to be an array there
            'fw': draw(st.sampled_from(['pymc', 'pyro', 'pyro', 'pyro'])) if args else 'pymc', 'at': [draw(fl(0.05, 0.95, 2)) for _ in range(9)],
            'rot': draw(W.rots(4)), 'bydict': draw(st.booleans())}


def build(c):
    import gerabaldi.models as M

    fn = W.mkfn(W.names(c['e']), [f'return {W.render(c["e"])}'], c['rot'])
    lv = W.mk_lats(c['lats'])
    k = c['kind']
    if k in ('deg', 'fail'):
        cls = M.DegMechMdl if k == 'deg' else M.FailMechMdl
        if c['bydict']:  # named by the parameter that it belongs to
            return M.DegPrmMdl({'out': cls(fn, time_unit='h', **lv)}).mech_mdl('out')
        return cls(fn, 'out', time_unit='h', **lv)
    if k == 'cond':
        return M.CondShiftMdl(fn, 'out', **lv)
    if k == 'init':
        return M.InitValMdl(fn, 'out', **lv)
    if k == 'prm':
        m = lambda **kw: M.DegPrmMdl({'m': M.DegMechMdl(time_unit='h')}, compute_eqn=fn, **kw, **lv)  # noqa: E731
    else:
        m = lambda **kw: M.CircPrmMdl(fn, **kw, **lv)  # noqa: E731
    return M.DeviceMdl({'out': m()}).prm_mdl('out') if c['bydict'] else m(prm_name='out')


def law(d):
    return {'N': lambda: stats.norm(d['a'], d['b']), 'G': lambda: stats.gamma(d['a'], scale=1 / d['b']),
            'U': lambda: stats.uniform(d['a'], d['b'] - d['a'])}[d['d']]()


def check(c):
    import pymc
    import pyro
    import pytensor
    import torch

    mdl = build(c)
    # Layer values at which the density is evaluated, under the names of the exported variables
    at, sites, env, lp = iter(c['at']), {}, {k: np.array(v) for k, v in c['obs'].items()}, 0.0
    for n, s in c['lats'].items():
        v = None
        layers = [x for x in ('dev', 'chp', 'lot') if x in s]
        for x in layers:
            q = float(law(s[x]).ppf(next(at)))
            sites[n if len(layers) == 1 else f'{n}_{x}'] = (q, s[x])
            lp += float(law(s[x]).logpdf(q))
            v = q if v is None else (v * q if s['type'] == 'scaling' else v + q)
        env[n] = v
    y = np.array(c['y'])
    mean = np.broadcast_to(W.evl(c['e'], env), y.shape)
    want = stats.norm(mean, SIGMA[c['fw']]).logpdf(y)
    if c['fw'] == 'pymc':
        with pymc.Model() as m:
            mdl.export_to_cbi(observed={**{k: np.array(v) for k, v in c['obs'].items()}, 'out': y})
        need({v.name for v in m.free_RVs} == set(sites), 'free variables {} instead of {}', [v.name for v in m.free_RVs], sorted(sites))
        need([v.name for v in m.observed_RVs] == ['out'], 'observed variables {}', m.observed_RVs)
        with m:
            out = m['out']
            val = m.rvs_to_values[out]
            need(np.allclose(val.eval(), y), 'observed values {} instead of {}', val.eval(), y)
            free = {v.name: v for v in m.free_RVs}
            order = sorted(sites)
            ins = [free[k].type() for k in order]
            dens = pytensor.clone_replace([pymc.logp(out, y)], dict(zip([free[k] for k in order], ins)))
            dens.append(sum(pymc.logp(free[k], v).sum() for k, v in zip(order, ins)))
            got, prior = pytensor.function(ins, dens, mode='FAST_COMPILE')(*(np.float64(sites[k][0]) for k in order))
            prior = float(prior)
        tol = 1e-6
    else:
        data = {k: torch.tensor(v) for k, v in {**c['obs'], 'out': c['y']}.items()}
        cond = pyro.condition(lambda: mdl.export_to_cbi('pyro', data), data={k: torch.tensor(q) for k, (q, _) in sites.items()})
        tr = pyro.poutine.trace(cond).get_trace()
        tr.compute_log_prob()
        have = {k for k, v in tr.nodes.items() if v['type'] == 'sample'}
        need(have == {*sites, 'out'}, 'sites {} instead of {}', sorted(have), sorted({*sites, 'out'}))
        node = tr.nodes['out']
        need(node['is_observed'] and np.allclose(np.asarray(node['value']), y), 'observed values {}', node['value'])
        got = np.asarray(node['fn'].log_prob(node['value']).detach(), dtype=float)
        want = want.sum() if np.ndim(got) == 0 else want
        prior = sum(float(tr.nodes[k]['log_prob_sum']) for k in sites)
        tol = 2e-3
    got = np.asarray(got, dtype=float)
    scale = 1 + np.max(np.abs(want))
    need(got.shape == np.shape(want), 'density of the observations has shape {} instead of {}', got.shape, np.shape(want))
    need(np.allclose(got, want, rtol=tol, atol=tol * scale), 'density of the observations {} instead of {}', got, want)
    need(abs(prior - lp) <= 2e-3 * (1 + abs(lp)), 'density of the latents {} instead of {}', prior, lp)
    return ok(len(y) > 1, c['fw'], c['kind'], f'{len(c["lats"])} latents')


SUBS = [Sub('export', cases(), check, 400)]
