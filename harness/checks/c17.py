"""C17: the minimiser finds the minimum of each of many problems at once."""
import numpy as np
from base import Sub, fl, logfl, need, ok
from hypothesis import strategies as st

RULE = ('Generated arrays of one-dimensional minimisation problems with known minima (absolute and squared distances, '
        'residues of power, logarithmic, saturating, linear and threshold laws spanning 20 decades of time and 24 of value; minima inside, at and '
        'beyond the bounds), in linear and logarithmic search mode. Every problem\'s result must be at its minimum within '
        'the requested precision and inside the bounds, and the same when solved alone. Non-trivial: at least two '
        'problems with different minima.')
ASSUMPTIONS = ['functions are unimodal; 100 iterations (linear) or 50 iterations (logarithmic, as the simulator uses) are allowed']


@st.composite
def lin_cases(draw):
    lo = draw(fl(-100.0, 100.0, 3))
    hi = lo + draw(logfl(0.1, 1e3))
    n = draw(st.integers(1, 6))
    span = hi - lo
    prob = []
    for _ in range(n):
        c = draw(st.one_of(fl(0.0, 1.0).map(lambda x: lo + x * span), st.sampled_from([lo, hi, lo - span, hi + span])))
        prob.append([c, draw(st.one_of(logfl(1e-3, 1e3), logfl(1e-15, 1e9))), draw(st.sampled_from(['abs', 'sq', 'sq', 'p4', 'asym']))])
    return {'lo': lo, 'hi': hi, 'p': prob, 'prec': draw(st.sampled_from([1e-5, 1e-3, 1e-6])),
            'shape': draw(st.sampled_from(['flat', '3d'])), 'ints': draw(st.integers(0, 3)) == 0}


def f_lin(x, c, k, kind):
    d = x - c
    y = np.where(kind == 0, np.abs(d), d * d)
    y = np.where(kind == 2, d**4, y)
    y = np.where(kind == 3, np.where(d > 0, 3 * d, -d), y)
    return k * y


def check_lin(c):
    from gerabaldi.math import minimize

    ks = {'abs': 0, 'sq': 1, 'p4': 2, 'asym': 3}
    sh = (len(c['p']),) if c['shape'] == 'flat' else (1, len(c['p']), 1)
    C = np.array([round(p[0]) if c['ints'] else p[0] for p in c['p']]).reshape(sh)
    K = np.array([p[1] for p in c['p']]).reshape(sh)
    T = np.array([ks[p[2]] for p in c['p']]).reshape(sh)
    lo, hi = c['lo'], c['hi']

    def solve(C, K, T):
        return minimize(lambda x, c, k, kind: f_lin(x, c, k, kind), {'c': C, 'k': K, 'kind': T}, (lo, hi),
                        precision=c['prec'], maxiter=100)

    x = solve(C, K, T)
    need(np.shape(x) == sh, 'shape {} instead of {}', np.shape(x), sh)
    want = np.clip(C, lo, hi)
    # flat bottoms (fourth power) cannot be located better than the function's own resolution
    tol = 3 * c['prec'] + 1e-7 * np.maximum(1, np.abs(want)) + np.where(T == 2, 2e-4 * (hi - lo) + 1e-3 * np.abs(want), 0.0)
    tol = tol + np.where(T == 1, 1e-6 * (hi - lo), 0.0)
    bad = np.abs(x - want) > tol
    need(not np.any(bad), 'minimum of {} found at {!r}, not {!r}', c['p'], x[bad][:1], want[bad][:1])
    need(np.all(x >= lo - 1e-12 * abs(lo)) and np.all(x <= hi + 1e-12 * abs(hi)), 'outside the bounds')
    for i in range(len(c['p'])):
        s = (slice(i, i + 1),) if c['shape'] == 'flat' else (slice(None), slice(i, i + 1))
        alone = solve(C[s], K[s], T[s])
        need(np.all(np.abs(alone - x[s]) <= 2 * tol[s]), 'problem {} alone gives {!r}, among others {!r}', i, alone, x[s])
    return ok(len({p[0] for p in c['p']}) > 1, c['shape'])


@st.composite
def log_cases(draw):
    n = draw(st.integers(1, 6))
    lo, hi = draw(st.sampled_from([(1e-3, 1e10), (1e-3, 3.6e19), (1e-3, 1e13), (1e-2, 1e4)]))
    prob = []
    for _ in range(n):
        kind = draw(st.sampled_from(['pow', 'log', 'sat', 'lin', 'absl', 'never', 'none']))
        t = 10 ** draw(fl(np.log10(lo) + 0.3, np.log10(hi) - 0.5))
        rel = draw(logfl(1e-6, 50)) if kind == 'log' else draw(logfl(0.02, 3.0))
        prob.append({'k': kind, 't': t, 'r': rel / t, 'a': draw(st.one_of(logfl(1e-3, 1e3), logfl(1e-3, 1e3), logfl(1e-15, 1e9))), 'n': draw(st.sampled_from([0.15, 0.25, 0.5, 1.0, 2.0])),
                     'sign': draw(st.sampled_from([1.0, -1.0])), 'u': draw(st.sampled_from([0.0, 0.0, 1.0]))})
        if not 1e-3 <= prob[-1]['a'] <= 1e3:
            prob[-1]['u'] = 0.0
    return {'lo': lo, 'hi': hi, 'p': prob}


KIND = {'pow': 0, 'log': 1, 'sat': 2, 'lin': 3, 'absl': 4, 'never': 5, 'none': 6}


def law(t, k, r, a, n, sign, u):
    rt = r * t
    s = np.select([k == 0, k == 1, k == 2, k == 3, k >= 4], [rt**n, np.log1p(rt), -np.expm1(-rt), rt, 0.0 * rt])
    return u + sign * a * s


def check_log(c):
    from gerabaldi.math import minimize

    P = c['p']
    sh = (1, 1, len(P))
    A = {k: np.array([p[k] for p in P]).reshape(sh) for k in ('t', 'r', 'a', 'n', 'sign', 'u')}
    K = np.array([KIND[p['k']] for p in P]).reshape(sh)
    goal = law(A['t'], K, A['r'], A['a'], A['n'], A['sign'], A['u'])
    goal = goal + np.where(K == 5, A['a'], 0.0)  # never reached: the law is constant

    def f(time, goal, k, r, a, n, sign, u, t):
        base = np.abs(goal - law(time, k, r, a, n, sign, u))
        return np.where(k == 4, np.abs(np.log(time / t)), base)

    def solve(sel):
        return minimize(f, {'goal': goal[sel], 'k': K[sel], **{q: v[sel] for q, v in A.items()}}, bounds=(c['lo'], c['hi']),
                        maxiter=50, log_gold=True)

    al = (slice(None),) * 3
    x = solve(al)
    need(np.shape(x) == sh, 'shape')
    need(np.all(x >= c['lo'] * (1 - 1e-9)) and np.all(x <= c['hi'] * (1 + 1e-9)), 'outside the bounds: {}', x)
    for i, p in enumerate(P):
        sel = (slice(None), slice(None), slice(i, i + 1))
        y = solve(sel)[0, 0, 0]
        for v, how in ((x[0, 0, i], 'among others'), (y, 'alone')):
            if p['k'] == 'none':
                continue  # zero everywhere: any point is a minimum
            if p['k'] == 'never':
                # the value is not reached at any time, which the upper bound stands for
                need(v > 0.9 * c['hi'], 'constant residue: {!r} instead of the upper bound {!r} ({})', v, c['hi'], how)
                continue
            # values carry rounding errors that blur flat laws
            slope = max(abs(float(law(p['t'] * 1.001, KIND[p['k']], p['r'], p['a'], p['n'], p['sign'], p['u']))
                            - float(law(p['t'] * 0.999, KIND[p['k']], p['r'], p['a'], p['n'], p['sign'], p['u']))) / 0.002, 1e-300)
            blur = 8 * np.finfo(float).eps * (abs(p['u']) + p['a']) / slope if p['k'] not in ('absl',) else 0.0
            need(abs(np.log(v / p['t'])) < 4e-5 + 2 * blur, '{} found at {!r} ({})', p, v, how)
    return ok(len(P) > 1, *{p['k'] for p in P})


SUBS = [Sub('linear', lin_cases(), check_lin, 2000), Sub('log', log_cases(), check_log, 2500)]
