"""C22: random and latent variables exported to inference frameworks are equivalent to the simulated ones."""
import warnings

import numpy as np
import world as W
from base import Sub, fl, need, ok, raises
from hypothesis import strategies as st
from scipy import stats

warnings.filterwarnings('ignore')

RULE = ('Generated latent variables (normal, gamma and uniform device distributions with optional chip and lot layers, '
        'scaling or offset, deterministic base values, distributions shared between layers and variables or replaced '
        'after naming), 1-3 per model, exported to both frameworks. Samples of the exported variables are compared with '
        'samples of an independent reference (two-sample KS test at p < 1e-11, mean and variance), densities of single '
        'distributions exactly, and the simulated samples with those of an identical variable that was never exported. '
        'Non-trivial: several layers, a deterministic base value or several variables.')
ASSUMPTIONS = ['distribution comparisons have a false alarm probability below 1e-9 per case; shifts of a distribution that '
               'are much smaller than its spread are only seen in the layer that causes them']
P = 1e-11


@st.composite
def dist(draw, centre):
    """A distribution around 'centre' (0 or 1 for variation layers) with noticeable spread."""
    k = draw(st.sampled_from(['N', 'N', 'G', 'U']))
    if k == 'N':
        return {'d': 'N', 'a': round(centre + draw(fl(-0.3, 0.3, 2)), 3), 'b': draw(fl(0.1, 0.8, 2))}
    if k == 'G':
        return {'d': 'G', 'a': draw(fl(0.8, 9.0, 2)), 'b': draw(fl(0.5, 6.0, 2))}
    lo = round(centre + draw(fl(-1.0, 0.5, 2)), 3)
    return {'d': 'U', 'a': lo, 'b': round(lo + draw(fl(0.2, 3.0, 2)), 3)}


@st.composite
def latent(draw, base=None):
    typ = draw(st.sampled_from(['scaling', 'offset']))
    c = 1.0 if typ == 'scaling' else 0.0
    s = {'type': typ, 'dev': draw(dist(draw(st.sampled_from([c, 2.0, -3.0]))))}
    if draw(st.booleans()):
        s['chp'] = draw(dist(c))
    if draw(st.booleans()):
        s['lot'] = draw(dist(c))
    if draw(st.booleans()):
        s['dev'] = {'d': 'N', 'a': draw(st.sampled_from([c, 1.0, 2.5, 0.0])), 'b': draw(fl(0.1, 0.8, 2))}
        s['det'] = draw(st.sampled_from([2, -3, 0.5, 1.0, 7.25, -0.4, *([0] if typ == 'offset' else [])]))
    if s['dev']['d'] == 'N' and 'chp' in s and 'lot' in s and draw(st.booleans()):
        s['share'] = True  # same object for the chip and lot layer
        s['lot'] = s['chp']
    s['late'] = draw(st.sampled_from([None, None, 'dev', 'chp', 'lot', 'type', 'name']))
    return s


@st.composite
def models(draw):
    c = {'vars': draw(st.lists(latent(), min_size=1, max_size=3)), 'seed': draw(st.integers(0, 2**20)),
         'fw': draw(st.sampled_from(['pymc', 'pyro', 'pyro'])), 'across': draw(st.booleans())}
    return c


def ref_sample(s, n, rng):
    def one(d):
        if d['d'] == 'N':
            return rng.normal(d['a'], d['b'], n)
        if d['d'] == 'G':
            return rng.gamma(d['a'], 1 / d['b'], n)
        return rng.uniform(d['a'], d['b'], n)

    op = np.multiply if s['type'] == 'scaling' else np.add
    v = one(s['dev'])
    for layer in ('chp', 'lot'):
        if layer in s:
            v = op(v, one(s[layer]))
    return op(v, s['det']) if 'det' in s else v


def build(s, name, shared=None, seed=None):
    """The latent variable, possibly put together in several steps after it has been named."""
    import gerabaldi.models as M

    dd = {k: W.mk_dist({**s[k], **({'seed': seed + i} if seed is not None else {})}) for i, k in enumerate(('dev', 'chp', 'lot')) if k in s}
    if s.get('share'):
        dd['lot'] = dd['chp']
    if shared is not None:
        if s['dev'] == shared[0]:
            dd['dev'] = shared[1]
        else:
            shared[:] = [s['dev'], dd['dev']]
    kw = {f'{k}_vrtn_mdl': v for k, v in dd.items()}
    late, new, typ = s['late'], {}, s['type']
    if late in dd:
        new[f'{late}_vrtn_mdl'] = dd[late]
        kw[f'{late}_vrtn_mdl'] = M.Uniform(5, 6) if late == 'dev' else None
    if late == 'type':
        typ = 'offset' if typ == 'scaling' else 'scaling'
        new['vrtn_type'] = s['type']
    lv = M.LatentVar(deter_val=s.get('det'), name='tmp' if late == 'name' else name, vrtn_type=typ, **kw)
    if late == 'name':
        lv.name = name
    for k, v in new.items():
        setattr(lv, k, v)
    return lv


def same_law(x, y, what):
    x, y = np.asarray(x, dtype=float).ravel(), np.asarray(y, dtype=float).ravel()
    need(np.isfinite(x).all(), '{}: exported variable gives {}', what, x[~np.isfinite(x)][:3])
    p = stats.ks_2samp(x, y).pvalue
    need(p > P, '{}: distribution differs from the simulated one (p = {}, mean {} and {}, std {} and {})', what, p,
         x.mean(), y.mean(), x.std(), y.std())


def check_model(c):
    import pymc
    import pyro

    names = [f'v{i}' for i in range(len(c['vars']))]
    shared = [None, None] if c['across'] else None
    if c['across']:
        for s in c['vars'][1:]:
            if 'det' not in s and 'det' not in c['vars'][0]:
                s['dev'] = c['vars'][0]['dev']
    lvs = [build(s, n, shared) for s, n in zip(c['vars'], names)]
    twins = [(build(s, n, seed=100 * i), build(s, n, seed=100 * i)) for i, (s, n) in enumerate(zip(c['vars'], names))]
    rng = np.random.default_rng(c['seed'])
    if c['fw'] == 'pymc':
        n = 1200
        for again in (0, 1):
            with pymc.Model() as m:
                out = [lv.cbi_export() for lv in lvs]
                if again:
                    for a, _ in twins:
                        a.name = 'twin_' + a.name
                        a.cbi_export('pymc')
        for name in names:
            need(name in m.named_vars, 'exported variable {} is not part of the model, which has {}', name, list(m.named_vars))
        sep = pymc.draw([m[x] for x in names] + out, draws=n, random_seed=c['seed'], mode='FAST_COMPILE')
        for i, s in enumerate(c['vars']):
            need(np.array_equal(sep[i], sep[len(names) + i]), 'the variable {} of the model is not the exported one', names[i])
            same_law(sep[i], ref_sample(s, 20000, rng), names[i])
        for i in range(len(names)):
            for j in range(i):
                r = np.corrcoef(sep[i], sep[j])[0, 1]
                need(abs(r) < 8 / np.sqrt(n), 'exported variables {} and {} are correlated ({})', names[j], names[i], r)
    else:
        n = 20000
        pyro.set_rng_seed(c['seed'])

        def model():
            with pyro.plate('p', n):
                return [lv.cbi_export('pyro') for lv in lvs]

        tr = None
        for again in (0, 1):
            tr = pyro.poutine.trace(model).get_trace()
        out = [np.asarray(v, dtype=float) for v in tr.nodes['_RETURN']['value']]
        sites = [k for k, v in tr.nodes.items() if v['type'] == 'sample' and k != 'p']
        layers = sum(sum(k in s for k in ('dev', 'chp', 'lot')) for s in c['vars'])
        need(len(sites) == layers, 'sites {} for {} distributions', sites, layers)
        for a, _ in twins:
            with pyro.plate('q', 3):
                a.cbi_export('pyro')
        for i, s in enumerate(c['vars']):
            need(out[i].shape == (n,), 'samples have shape {}', out[i].shape)
            same_law(out[i], ref_sample(s, n, rng), names[i])
        for i in range(len(names)):
            for j in range(i):
                # Heavy products make sample correlations noisy, ranks do not
                r = stats.spearmanr(out[i], out[j])[0]
                need(abs(r) < 8 / np.sqrt(n), 'exported variables {} and {} are correlated ({})', names[j], names[i], r)
    # What the simulator draws is not affected by exporting
    for (a, b), s in zip(twins, c['vars']):
        x, y = a.gen_latent_vals(40, 3, 3), b.gen_latent_vals(40, 3, 3)
        need(np.array_equal(x, y), 'samples change when the variable is exported: {} and {}', x.ravel()[:3], y.ravel()[:3])
    return ok(len(lvs) > 1 or any(k in c['vars'][0] for k in ('chp', 'lot', 'det')), c['fw'])


# ------------------------------------------------------------------ single distributions, exact densities
@st.composite
def singles(draw):
    d = draw(st.one_of(
        st.builds(lambda a, b: {'d': 'N', 'a': a, 'b': b}, fl(-50.0, 50.0, 3), fl(0.01, 20.0, 2)),
        st.builds(lambda a, b: {'d': 'G', 'a': a, 'b': b}, fl(0.3, 40.0, 3), fl(0.1, 20.0, 3)),
        st.builds(lambda a, b: {'d': 'U', 'a': a, 'b': a + b}, fl(-50.0, 50.0, 3), fl(0.1, 40.0, 2)),
    ))
    return {'d': d, 'at': draw(st.lists(fl(0.02, 0.98, 2), min_size=1, max_size=4)), 'fw': draw(st.sampled_from(['pymc', 'pyro', 'pyro'])),
            'obs': draw(st.booleans()), 'int': draw(st.booleans())}


def check_single(c):
    import pymc
    import pyro
    import torch

    d = dict(c['d'])
    if c['int'] and d['d'] != 'N':
        d = {'d': d['d'], 'a': int(np.ceil(d['a'])), 'b': int(np.ceil(d['b'])) + (1 if d['d'] == 'U' else 0)}
    ref = {'N': lambda: stats.norm(d['a'], d['b']), 'G': lambda: stats.gamma(d['a'], scale=1 / d['b']),
           'U': lambda: stats.uniform(d['a'], d['b'] - d['a'])}[d['d']]()
    x = ref.ppf(c['at'])
    rv = W.mk_dist(d)
    rv.name = 'thing'
    if c['fw'] == 'pymc':
        with pymc.Model() as m:
            v = rv.get_cbi_form(observed=x if c['obs'] else None)
        need('thing' in m.named_vars, 'not registered: {}', list(m.named_vars))
        if c['obs']:
            need([o.name for o in m.observed_RVs] == ['thing'], 'observed: {}', m.observed_RVs)
            need(np.allclose(m.rvs_to_values[m['thing']].eval(), x, rtol=1e-12), 'observed values differ')
            lp = pymc.logp(v, x).eval(mode='FAST_COMPILE')
        else:
            need([o.name for o in m.free_RVs] == ['thing'] and not m.observed_RVs, 'free variables {}', m.free_RVs)
            lp = pymc.logp(v, x).eval(mode='FAST_COMPILE')
        tol = 1e-3
    else:
        obs = x if c['obs'] else None
        tr = pyro.poutine.trace(lambda: rv.get_cbi_form('pyro', observed=obs)).get_trace()
        node = tr.nodes['thing']
        need(node['is_observed'] == c['obs'], 'observed: {}', node['is_observed'])
        if c['obs']:
            need(np.allclose(np.asarray(node['value']), x, rtol=1e-5), 'observed values differ: {}', node['value'])
        lp = node['fn'].log_prob(torch.as_tensor(x)).numpy()
        tol = 2e-3
    need(np.allclose(lp, ref.logpdf(x), rtol=tol, atol=tol), 'log density at {} is {} instead of {}', x, lp, ref.logpdf(x))
    return ok(c['obs'] or len(x) > 1, c['fw'])


# ------------------------------------------------------------------ not exportable
@st.composite
def invalids(draw):
    kind = draw(st.sampled_from(['nodev', 'framework', 'centre', 'deter', 'rv']))
    s = draw(latent())
    c = {'kind': kind, 's': s, 'fw': draw(st.sampled_from(['pymc', 'pyro'])), 'det': draw(st.sampled_from([2.0, -1, 0.3])),
         'name': draw(st.sampled_from(['stan', 'PyMC', '', 'numpy', 'tfp']))}
    c['u'] = draw(st.sampled_from([{'d': 'U', 'a': 0, 'b': 2}, {'d': 'G', 'a': 2, 'b': 2}]))
    return c


def check_invalid(c):
    import gerabaldi.models as M
    import pymc
    from gerabaldi.exceptions import UserConfigError

    k, s = c['kind'], c['s']
    with pymc.Model():
        if k == 'nodev':
            lv = M.LatentVar(deter_val=c['det'], chp_vrtn_mdl=W.mk_dist(s.get('chp')), lot_vrtn_mdl=W.mk_dist(s.get('lot')), name='x')
            raises(UserConfigError, lv.cbi_export, c['fw'])
        elif k == 'framework':
            raises(NotImplementedError, build(s, 'x').cbi_export, c['name'])
        elif k == 'centre':
            lv = M.LatentVar(W.mk_dist(c['u']), deter_val=c['det'], name='x', vrtn_type=s['type'])
            raises(NotImplementedError, lv.cbi_export, c['fw'])
        elif k == 'deter':
            raises(NotImplementedError, M.Deterministic(c['det'], name='x').get_cbi_form, c['fw'])
        else:
            rv = W.mk_dist(s['dev'])
            rv.name = 'x'
            raises(NotImplementedError, rv.get_cbi_form, c['name'])
    return ok(True, k)


SUBS = [
    Sub('model', models(), check_model, 500),
    Sub('single', singles(), check_single, 600),
    Sub('invalid', invalids(), check_invalid, 300),
]
