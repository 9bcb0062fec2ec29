"""C13: random variables sample the distribution they describe, reproducibly when seeded."""
import numpy as np
from base import Sub, fl, logfl, need, ok, raises
from hypothesis import strategies as st
from scipy import stats

RULE = ('Normal, gamma, uniform and deterministic variables with generated parameters and seeds (0 included), changed by '
        'generated sequences of parameter assignments and centre or spread operations; 5000 samples are held against the '
        'analytic distribution by a Kolmogorov-Smirnov test (alarm below p = 1e-9; 300 000 samples in some cases), and equal seeds must give equal '
        'sequences whatever the history. Non-trivial: a random distribution with a parameter change, or a seed comparison.')
ASSUMPTIONS = ['a true sample fails the distribution test with probability below 1e-9; the seeds are part of the case']
N = 5000


@st.composite
def dist(draw):
    k = draw(st.sampled_from(['N', 'N', 'G', 'U', 'D']))
    if k == 'N':
        p = [draw(fl(-100.0, 100.0)), draw(logfl(1e-3, 1e3))]
    elif k == 'G':
        p = [draw(logfl(0.2, 50)), draw(logfl(1e-3, 1e3))]
    elif k == 'U':
        a = draw(fl(-100.0, 100.0))
        p = [a, a + draw(logfl(1e-3, 1e3))]
    else:
        p = [draw(st.one_of(fl(-1e6, 1e6), st.integers(-10**6, 10**6)))]
    return {'k': k, 'p': p}


@st.composite
def cases(draw):
    d = draw(dist())
    ops = []
    for _ in range(draw(st.integers(0, 3))):
        if d['k'] == 'N':
            ops.append(draw(st.one_of(
                st.tuples(st.just('centre'), fl(-100.0, 100.0)), st.tuples(st.just('add'), fl(-10.0, 10.0)),
                st.tuples(st.just('mul'), fl(-3.0, 3.0)), st.tuples(st.just('sub'), fl(-10.0, 10.0)),
                st.tuples(st.just('sigma'), logfl(1e-3, 1e3)))))
        elif d['k'] == 'G':
            ops.append(('set', [draw(logfl(0.2, 50)), draw(logfl(1e-3, 1e3))]))
        elif d['k'] == 'U':
            a = draw(fl(-100.0, 100.0))
            ops.append(('set', [a, a + draw(logfl(1e-3, 1e3))]))
        else:
            ops.append(('set', [draw(fl(-1e6, 1e6))]))
    default = draw(st.integers(0, 9)) == 0
    if default:
        d = {'k': d['k'], 'p': {'N': [0, 1], 'G': [2, 2], 'U': [0, 1], 'D': [0]}[d['k']]}
    return {'d': d, 'default': default, 'ops': [list(o) for o in ops], 'seed': draw(st.integers(0, 2**31)), 'kw': draw(st.booleans()), 'used': draw(st.booleans())}


def mk(d, seed=None, kw=False, name=None, default=False):
    import gerabaldi.models as M

    o = {} if seed is None else {'test_seed': seed}
    if name:
        o['name'] = name
    cls, keys = {'N': (M.Normal, ('mu', 'sigma')), 'G': (M.Gamma, ('alpha', 'beta')), 'U': (M.Uniform, ('start', 'stop')),
                 'D': (M.Deterministic, ('value',))}[d['k']]
    if default:
        return cls(**o)
    return cls(**dict(zip(keys, d['p'])), **o) if kw else cls(*d['p'], **o)


def cdf(d):
    a = d['p']
    return {'N': lambda: stats.norm(a[0], a[1]), 'G': lambda: stats.gamma(a[0], scale=1 / a[1]),
            'U': lambda: stats.uniform(a[0], a[1] - a[0])}[d['k']]()


def apply(v, d, ops, used=False):
    d = {'k': d['k'], 'p': list(d['p'])}
    keys = {'N': ('mu', 'sigma'), 'G': ('alpha', 'beta'), 'U': ('start', 'stop'), 'D': ('value',)}[d['k']]
    for o, x in ops:
        if used:
            v.sample(3)
        if o == 'set':
            for k, y in zip(keys, x):
                setattr(v, k, y)
            d['p'] = list(x)
        elif o == 'centre':
            v.set_centre(x)
            d['p'][0] = x
        elif o == 'sigma':
            v.sigma = x
            d['p'][1] = x
        else:
            f = {'add': np.add, 'mul': np.multiply, 'sub': np.subtract}[o]
            v.set_centre(x, f)
            d['p'][0] = float(f(x, d['p'][0]))
        if d['k'] == 'N':
            need(abs(v.get_centre() - d['p'][0]) <= 1e-12 * abs(d['p'][0]), 'centre {!r}, expected {!r}', v.get_centre(), d['p'][0])
    return d


def check(c):
    v = mk(c['d'], c['seed'], c['kw'], default=c.get('default'))
    d = apply(v, c['d'], c['ops'], c.get('used'))
    one = v.sample()
    need(isinstance(one, np.ndarray) and one.shape == (1,), 'one sample has shape {}', np.shape(one))
    n = c.get('n', N)
    x = v.sample(n)
    need(isinstance(x, np.ndarray) and x.shape == (n,), 'shape {}', np.shape(x))
    need(mk(c['d'], None, c['kw'], 'named').name == 'named', 'given name is lost')
    if d['k'] == 'D':
        need(all(y == d['p'][0] for y in x) and one[0] == d['p'][0], 'deterministic variable sampled {!r}', x[0])
        return ok(bool(c['ops']), 'D')
    ref = cdf(d)
    p = stats.kstest(x, ref.cdf).pvalue
    need(p > 1e-9, 'samples do not follow {}: p = {:.2e}, mean {!r} expected {!r}', d, p, float(np.mean(x)), float(ref.mean()))
    need(not np.array_equal(x[:50], v.sample(50)), 'repeated samples are the same')
    # neighbouring samples are unrelated
    r = stats.spearmanr(x[:-1], x[1:]).statistic
    need(abs(r) < 0.2, 'successive samples are correlated: {}', r)
    return ok(bool(c['ops']), d['k'], f'ops {len(c["ops"])}')


@st.composite
def seed_cases(draw):
    return {'d': draw(dist().filter(lambda x: x['k'] != 'D')), 'seed': draw(st.one_of(st.integers(0, 3), st.integers(0, 2**40))),
            'other': draw(st.integers(0, 2**40)), 'qs': draw(st.lists(st.integers(1, 9), min_size=1, max_size=4))}


def check_seed(c):
    a, b = mk(c['d'], c['seed']), mk(c['d'], c['seed'], True, 'named')
    need(b.name == 'named', 'given name became {!r}', b.name)
    noise = mk(c['d'])
    sa, sb = [], []
    for q in c['qs']:
        sa.append(a.sample(q))
    for q in c['qs']:
        noise.sample(q)
        sb.append(b.sample(q))
    for x, y in zip(sa, sb):
        need(x.shape == y.shape and np.array_equal(x, y), 'equal seeds give different samples: {} {}', x, y)
    n = sum(c['qs'])
    if n >= 2:
        flat = np.concatenate(sa)
        need(len(set(flat)) == len(flat), 'repeated values within a sequence')
        if c['other'] != c['seed']:
            o = mk(c['d'], c['other']).sample(n)
            need(not np.any(o == flat[:len(o)]), 'different seeds give the same samples')
        u, v = mk(c['d']).sample(n), mk(c['d']).sample(n)
        need(not np.any(u == v), 'unseeded variables give the same samples')
    return ok(True, c['d']['k'])


@st.composite
def none_cases(draw):
    return {'k': draw(st.sampled_from(['G', 'U', 'D']))}


def check_none(c):
    """Variables without a centre say so."""
    v = mk({'k': c['k'], 'p': [1, 2] if c['k'] != 'D' else [1]})
    raises(NotImplementedError, v.get_centre)
    raises(NotImplementedError, v.set_centre, 3)
    return ok(True)


SUBS = [Sub('fine', cases().map(lambda c: {**c, 'n': 300000}), check, 48, 400), Sub('dist', cases(), check, 2500), Sub('seed', seed_cases(), check_seed, 1500), Sub('centre', none_cases(), check_none, 24)]
