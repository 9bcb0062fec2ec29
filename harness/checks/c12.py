"""C12: instruments add their error, round to significant figures and clip to range, in that order."""
import numbers
from datetime import timedelta

import gerabaldi
import numpy as np
import pandas as pd
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Generated true values (signed, 1e-9 to 1e9, zero, infinite, undefined; single Python and numpy values, arrays, series with odd indices) '
        'measured by instruments with generated error, precision and range, compared with an independent calculation; '
        'errors are coded so that each sample\'s own draw can be recognised. Also whole tests where several parameters '
        'and sensors have different or shared instruments. Non-trivial: at least two of error, precision and range, or '
        'one of them with several samples.')


def mag():
    return st.one_of(
        fl(-1000.0, 1000.0, 7), st.sampled_from([0, 0.0, 1, -1, 10, 100.0, 0.1, 999.5, 0.00995, 1e-9, 12345678, -99.95]),
        st.builds(lambda m, e, s: s * float(f'{m}e{e}'), st.integers(1, 10**7), st.integers(-12, 3), st.sampled_from([1, -1])),
    )


@st.composite
def instrument(draw):
    out = {}
    if draw(st.booleans()):
        out['err'] = draw(st.one_of(fl(-5.0, 5.0, 4).map(lambda v: {'v': v}), st.just({'code': 1})))
    if draw(st.booleans()):
        out['prec'] = draw(st.integers(1, 8))
    if draw(st.booleans()):
        a, b = draw(mag()), draw(mag())
        out['lims'] = draw(st.sampled_from([[min(a, b), max(a, b)]] * 4 + [[a, float('inf')], [float('-inf'), b]]))
    return out


CODE = 4096.0


def mk(s, key='err'):
    import gerabaldi.models as M

    class Coded(M.RandomVar):
        """n-th draw is n * CODE: with a power of two and small true values no digits get lost"""

        def __init__(self):
            self.name, self._dist_type, self.n = None, 'coded', 0

        def sample(self, quantity=1):
            q = int(np.prod(quantity))
            out = CODE * np.arange(self.n + 1, self.n + q + 1)
            self.n += q
            return out.reshape(quantity)

    err = None
    if s.get('err'):
        err = Coded() if 'code' in s['err'] else M.Deterministic(s['err']['v'])
    return M.MeasInstrument(precision=s.get('prec'), error=err, meas_lims=tuple(s['lims']) if s.get('lims') else None)


def expect(s, x):
    """(low, high) of the reading for one true value with fixed error."""
    lo = hi = float(x)
    if s.get('err') and 'v' in s['err']:
        lo = hi = lo + s['err']['v']
    if s.get('prec') and np.isfinite(lo):
        a, b = W.sig_round(lo, s['prec'])
        lo, hi = float(a), float(b)
    if s.get('lims') and not np.isnan(lo):
        lo, hi = (min(max(v, s['lims'][0]), s['lims'][1]) for v in (lo, hi))
    return lo, hi


def good(v, lo, hi, exact=False):
    if np.isnan(lo):  # a value that does not exist cannot be read
        return bool(np.isnan(v))
    if exact:
        return v == lo
    if not np.isfinite(lo) or not np.isfinite(hi):
        return v == lo
    return W.within(v, lo, hi)


def exact(s):
    return not s.get('err') and not s.get('prec')


ONE = ('int', 'float', 'npval')


@st.composite
def cases(draw):
    s = draw(instrument())
    kind = draw(st.sampled_from(['int', 'float', 'npval', 'array', 'array', 'series', 'series', 'iarray']))
    n = 1 if kind in ONE else draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 30)))
    if kind in ('int', 'iarray'):
        vals = draw(st.lists(st.one_of(st.integers(-10**6, 10**6), st.integers(-2**53, 2**53)), min_size=n, max_size=n))
    else:
        vals = draw(st.lists(st.one_of(mag(), st.sampled_from(['inf', '-inf', 'nan']) if draw(st.integers(0, 5)) == 0 else mag()),
                             min_size=n, max_size=n))
    if 'code' in (s.get('err') or {}):
        vals = [draw(fl(-900.0, 900.0, 6)) if kind not in ('int', 'iarray') else draw(st.integers(-900, 900)) for _ in vals]
        s.pop('prec', None)
        s.pop('lims', None)
    idx = None
    if kind == 'series':
        idx = draw(st.sampled_from([None, 'off', 'str', 'rev']))
    out = {'s': s, 'kind': kind, 'vals': vals, 'idx': idx, 'again': draw(st.integers(0, 2))}
    if kind in ('array', 'iarray') and draw(st.booleans()):  # arrays with several dimensions
        cut = [d for d in range(1, n + 1) if n % d == 0]
        a = draw(st.sampled_from(cut))
        b = draw(st.sampled_from([d for d in cut if (n // a) % d == 0]))
        out['shape'] = draw(st.sampled_from([[a, n // a], [a, b, n // a // b]] + ([[]] if n == 1 else [])))
    return out


def check(c):
    s, kind = c['s'], c['kind']
    vals = [float(v) if isinstance(v, str) else v for v in c['vals']]
    n = len(vals)
    idx = {'off': [7 + i for i in range(n)], 'str': [f'r{i}' for i in range(n)], 'rev': list(range(n - 1, -1, -1))}.get(c['idx'])
    if kind == 'int':
        arg = int(vals[0])
    elif kind == 'float':
        arg = float(vals[0])
    elif kind == 'npval':
        arg = np.float64(vals[0])
    elif kind == 'array':
        arg = np.array(vals, dtype=float)
    elif kind == 'iarray':
        arg = np.array(vals, dtype=int)
    else:
        arg = pd.Series(np.array(vals, dtype=float), index=idx)
    if 'shape' in c:
        arg = arg.reshape(c['shape'])
    keep = arg.copy() if kind not in ONE else arg
    ins = mk(s)
    seen = []
    for _ in range(1 + c['again']):
        out = ins.measure(arg)
        if kind in ONE:
            need(isinstance(out, numbers.Real) and not isinstance(out, (pd.Series, np.ndarray)), 'type {}', type(out))
            got = [float(out)]
        elif kind == 'series':
            need(isinstance(out, pd.Series) and list(out.index) == list(keep.index), 'not a series with the same index')
            got = [float(v) for v in out]
            need(arg.equals(keep), 'the true values were modified')
        else:
            need(isinstance(out, np.ndarray) and out.shape == arg.shape, 'type {} of shape {} for {}', type(out), np.shape(out), arg.shape)
            got = [float(v) for v in out.reshape(-1)]
            need(np.array_equal(arg, keep, equal_nan=kind == 'array'), 'the true values were modified')
        if 'code' in (s.get('err') or {}):
            for v, x in zip(got, vals):
                k = round((v - x) / CODE)
                need(k >= 1 and abs(v - x - k * CODE) < 1e-6, 'reading {!r} of {!r} is not offset by one error draw', v, x)
                seen.append(k)
        else:
            for v, x in zip(got, vals):
                lo, hi = expect(s, x)
                # pandas itself turns readings of integers that are within 1e-8 of an integer into that integer
                slack = 1e-7 if s and kind in ('int', 'iarray') else 0.0
                need(good(v, lo, hi, not slack and exact(s)) or abs(v - lo) <= slack, 'reading {!r} of {!r}, expected [{!r}, {!r}]', v, x, lo, hi)
    need(len(set(seen)) == len(seen), 'samples share an error draw: {}', seen)
    parts = sum(k in s for k in ('err', 'prec', 'lims'))
    return ok(parts > 1 or (parts and n > 1), kind, f'{parts} imperfections')


@st.composite
def sim_cases(draw):
    names = ['a', 'temp', *draw(st.sampled_from([['a_2', 'temp_2'], ['a2', 'temp2'], ['A', 'Temp'], ['_a', 'a_temp']]))]  # similar names
    specs = {p: draw(instrument()) for p in names if draw(st.integers(0, 3))}
    shared = draw(st.booleans()) and 'a' in specs and 'temp' in specs
    if shared:
        specs['temp'] = specs['a']
    return {'names': names, 'specs': specs, 'shared': shared, 'aslist': draw(st.booleans()) and not shared,
            'vals': {p: draw(fl(-900.0, 900.0, 6)) for p in names},
            'meas': draw(st.lists(st.lists(st.sampled_from(names), unique=True, min_size=1), min_size=1, max_size=3)),
            'n': draw(st.integers(1, 3)), 'chps': draw(st.integers(1, 2)), 'lots': draw(st.integers(1, 2))}


def check_sim(c):
    import gerabaldi.models as M

    v, (a, temp, a2, circ) = c['vals'], c['names']
    prm = lambda x: M.DegPrmMdl({'m': M.DegMechMdl()}, init_val_mdl=M.InitValMdl(init_val=M.LatentVar(deter_val=x)))
    dev = M.DeviceMdl({a: prm(v[a]), a2: prm(v[a2]), circ: M.CircPrmMdl(lambda a, k: k + 0.0 * a, k=M.LatentVar(deter_val=v[circ]))})
    ins = {p: mk(s) for p, s in c['specs'].items()}
    if c['shared']:
        ins['temp'] = ins['a']
    if c['aslist']:
        for p, i in ins.items():
            i.name = p
        ins = list(ins.values())
    env = M.PhysTestEnv(meas_instms=ins)
    test = M.TestSpec([M.MeasSpec({p: c['n'] for p in ps}, {'temp': v['temp']}) for ps in c['meas']], c['chps'], c['lots'])
    rep = gerabaldi.simulate(test, dev, env)
    rows, conds = W.report_rows(rep)
    seen = {}
    allrows = [(k[1], x) for k, (_, x) in rows.items()] + [(k[1], x) for k, xs in conds.items() for _, x in xs]
    for p, x in allrows:
        s = c['specs'].get(p, {})
        if 'code' in (s.get('err') or {}):
            if 'prec' in s or 'lims' in s:
                continue
            k = round((x - v[p]) / CODE)
            need(k >= 1 and abs(x - v[p] - k * CODE) < 1e-6, '{} reads {!r} for {!r}', p, x, v[p])
            key = 'a' if c['shared'] and p == 'temp' else p
            seen.setdefault(key, []).append(k)
        else:
            lo, hi = expect(s, v[p])
            need(good(x, lo, hi, exact(s)), '{} reads {!r} for {!r}, expected [{!r}, {!r}]', p, x, v[p], lo, hi)
    for p, ks in seen.items():
        need(len(set(ks)) == len(ks), 'measurements of {} share an error draw', p)
    return ok(sum(bool(s) for s in c['specs'].values()) > 1, *(['shared'] if c['shared'] else []))


SUBS = [Sub('measure', cases(), check, 6000), Sub('sim', sim_cases(), check_sim, 800)]
