"""Generated test worlds: JSON description -> gerabaldi objects, and an independent reference for what the simulator
has to report. The reference never calls gerabaldi code: it evaluates the same equations from their description, with the
equivalent stress time in closed form, and carries an interval for the numerical slack that the solver is allowed."""
import functools
import itertools
import json
from datetime import timedelta

import numpy as np
from hypothesis import reject
from hypothesis import strategies as st

from base import fl, logfl, need

# Numerical slack allowed to the equivalent time search: relative, and absolute in the mechanism's own time unit
TIME_RTOL = 4e-5
TIME_FLOOR = 1.05e-3
UNIT_US = {
    'd': 86400e6, 'days': 86400e6, 'h': 3600e6, 'hours': 3600e6, 's': 1e6, 'seconds': 1e6, 'ms': 1e3,
    'milliseconds': 1e3, 'us': 1.0, 'microseconds': 1.0,
}
UNIT_NAMES = sorted(UNIT_US)
H_US = 3600e6

CONDS = {'temp': 350.0, 'vdd': 1.2, 'rh': 60.0, 'bias': 0.5, 'temp_amb': 300.0}  # one name is the start of another
SIGNED = {'bias'}  # may be zero or negative


# ---------------------------------------------------------------- expressions
def render(e):
    op = e[0]
    if op == 'const':
        if isinstance(e[1], int):
            return f'({e[1]})'
        return repr(float(e[1])) if np.isfinite(e[1]) else 'np.nan' if np.isnan(e[1]) else 'np.inf'
    if op == 'var':
        return e[1]
    a = [render(x) for x in e[1:]]
    return {
        'add': '({} + {})', 'sub': '({} - {})', 'mul': '({} * {})', 'div': '({} / {})', 'pow': '({} ** {})',
        'exp': 'np.exp({})', 'max0': 'np.maximum({}, 0.0)', 'log1p': 'np.log1p({})',
    }[op].format(*a)


def evl(e, env):
    op = e[0]
    if op == 'const':
        return float(e[1])
    if op == 'var':
        return np.asarray(env[e[1]], dtype=float)
    a = [evl(x, env) for x in e[1:]]
    if op == 'add':
        return a[0] + a[1]
    if op == 'sub':
        return a[0] - a[1]
    if op == 'mul':
        return a[0] * a[1]
    if op == 'div':
        return a[0] / a[1]
    if op == 'pow':
        return np.power(a[0], a[1])
    if op == 'exp':
        return np.exp(a[0])
    if op == 'max0':
        return np.where(a[0] > 0, a[0], 0.0)
    if op == 'log1p':
        return np.log1p(a[0])
    raise ValueError(op)


def names(e):
    if e[0] == 'var':
        return {e[1]}
    if e[0] == 'const':
        return set()
    return set().union(*(names(x) for x in e[1:]))


def mkfn(args, lines, rot=0):
    """Builds a Python callable with the given argument names (rotated, arguments are passed by name). The tens of 'rot'
    select its form: a plain function, arguments only by name, an argument with a default that nothing provides, a partial
    function, an object that can be called, a bound method."""
    form, rot = divmod(rot, 10)
    args = sorted(args)
    if args:
        rot %= len(args)
    args = args[rot:] + args[:rot]
    sig = ', '.join(args)
    if form == 1 and args:
        sig = '*, ' + sig
    elif form == 2:
        sig, lines = ', '.join([*args, 'unused_option=2.5']), ['assert unused_option == 2.5', *lines]
    elif form == 3:
        sig, lines = ', '.join([*args, 'bound_option']), ['assert bound_option == 1.5', *lines]
    elif form >= 4:
        sig = ', '.join(['self', *args])
    src = f'def eqn({sig}):\n' + ''.join(f'    {ln}\n' for ln in lines)
    ns = {'np': np}
    exec(src, ns)
    fn = ns['eqn']
    if form == 3:
        fn = functools.partial(fn, bound_option=1.5)
    elif form >= 4:
        obj = type('Equation', (), {'__call__' if form == 4 else 'value': fn})()
        fn = obj if form == 4 else obj.value
    return fn


def as_floats(args):
    """Lines after which the arguments are single numbers; whole arrays are refused with a TypeError, as by math.exp."""
    return [f'{x} = np.float64(float({x}))' for x in sorted(args)]


STYLES = ['array'] * 6 + ['scalar'] * 2 + ['float']


def rots(most):
    """Mostly plain functions."""
    return st.one_of(st.integers(0, most), st.integers(0, most), st.tuples(st.integers(1, 5), st.integers(0, most)).map(lambda t: 10 * t[0] + t[1]))


# ---------------------------------------------------------------- SUT objects
def pattern(vals):
    """A random variable that gives the same sequence of values at every call, so that devices differ but steps repeat."""
    import gerabaldi.models as M

    class Pattern(M.RandomVar):
        def __init__(self):
            self.name = None
            self._dist_type = 'pattern'

        def sample(self, quantity=1):
            return np.resize(np.array(vals, dtype=float), quantity)

    return Pattern()


def mk_dist(d):
    import gerabaldi.models as M

    if d is None:
        return None
    k = d['d']
    if k == 'D':
        return M.Deterministic(d['v'])
    if k == 'P':
        return pattern(d['v'])
    kw = {'test_seed': d['seed']} if 'seed' in d else {}
    if k == 'U':
        return M.Uniform(d['a'], d['b'], **kw)
    if k == 'N':
        return M.Normal(d['a'], d['b'], **kw)
    if k == 'G':
        return M.Gamma(d['a'], d['b'], **kw)
    raise ValueError(k)


def mk_lat(s):
    import gerabaldi.models as M

    return M.LatentVar(
        dev_vrtn_mdl=mk_dist(s.get('dev')), chp_vrtn_mdl=mk_dist(s.get('chp')), lot_vrtn_mdl=mk_dist(s.get('lot')),
        deter_val=s.get('det'), vrtn_type=s.get('type', 'scaling'),
    )


def mk_lats(lats):
    return {n: mk_lat(s) for n, s in lats.items()}


def as_type(x, kind):
    """The number as another type, if that type can hold it."""
    if kind is None or x != x:
        return x
    try:
        y = getattr(np, kind)(x)
    except OverflowError:
        return x
    return y if y.item() == x else x


def mech_expr(m):
    """Value of a degradation mechanism as an expression of its arguments."""
    rt = ['mul', m['R'], ['var', 'time']]
    s = {'pow': ['pow', rt, m['n']], 'log': ['log1p', rt],
         'sat': ['sub', ['const', 1.0], ['exp', ['mul', ['const', -1.0], rt]]],
         'hyp': ['div', rt, ['add', ['const', 1.0], rt]], 'exp': ['sub', ['exp', rt], ['const', 1.0]]}[m['shape']]
    return ['add', ['const', m['unit']], ['mul', ['mul', ['const', m['sign']], m['A']], s]]


def mk_mech_fn(m):
    if m['k'] == 'none':
        return None
    if m['k'] == 'fail':
        pred, fv = m['pred'], m['fv']
        args = names(pred) | names(fv)
        if m['style'] == 'array':
            return mkfn(args, [f'return np.where({render(pred)} > 0, {render(fv)}, {m["unit"]!r})'], m['rot'])
        lines = [f'if {render(pred)} > 0:', f'    return {render(fv)}', f'return {m["unit"]!r}']
        return mkfn(args, as_floats(args) + lines if m['style'] == 'float' else lines, m['rot'])
    e = mech_expr(m)
    if m['style'] == 'array':
        return mkfn(names(e), [f'return {render(e)}'], m['rot'])
    if m['style'] == 'float':
        return mkfn(names(e), [*as_floats(names(e)), f'return {render(e)}'], m['rot'])
    return mkfn(names(e), [f'if {render(m["R"])} <= 0:', f'    return {m["unit"]!r}', f'return {render(e)}'], m['rot'])


def mk_mech(m, **kw):
    import gerabaldi.models as M

    cls = M.FailMechMdl if m['k'] == 'fail' else M.DegMechMdl
    if m['k'] == 'none' and m.get('cls') == 'fail':
        cls = M.FailMechMdl
    return cls(mk_mech_fn(m), unitary_val=as_type(m['unit'], m.get('ut')), time_unit=m['tu'], **kw, **mk_lats(m['lat']))


def compute_expr(p):
    """Parameter value as an expression of init, cond, the mechanisms and the parameter's latents (None: default)."""
    c = p['compute']
    fam, ms = c['fam'], list(p['mechs'])
    if fam == 'default':
        e = ['add', ['var', 'init'], ['var', 'cond']]
        for m in ms:
            e = ['add', e, ['var', m]]
        return e
    if fam in ('wsum', 'clamp'):
        e = ['add', ['var', 'init'], ['var', 'cond']]
        for m in ms:
            e = ['add', e, ['mul', c['w'][m], ['var', m]]]
        return e
    if fam == 'usum':
        e = ['add', ['var', 'init'], ['sub', ['var', 'cond'], ['const', c['cu']]]]
        for m in ms:
            e = ['add', e, ['mul', c['w'][m], ['sub', ['var', m], ['const', p['mechs'][m]['unit']]]]]
        return e
    if fam == 'prod':
        e = ['mul', ['var', 'init'], ['var', 'cond']]
        for m in ms:
            e = ['mul', e, ['pow', ['var', m], c['w'][m]]]
        return e
    if fam == 'mix':
        e = ['mul', ['var', 'init'], ['var', ms[0]]]
        e = ['add', e, ['var', 'cond']]
        for m in ms[1:]:
            e = ['add', e, ['mul', c['w'][m], ['var', m]]]
        return e
    raise ValueError(fam)


def mk_deg_prm(p, **kw):
    import gerabaldi.models as M

    c = p['compute']
    e = compute_expr(p)
    fn = None
    if c['fam'] == 'clamp':
        lim = repr(float(c['lim']))
        if c['style'] == 'float':
            fn = mkfn(names(e), [f'return min(float({render(e)}), {lim})'], c['rot'])
        elif c['style'] == 'array':
            fn = mkfn(names(e), [f'return np.minimum({render(e)}, {lim})'], c['rot'])
        else:
            fn = mkfn(names(e), [f'x = {render(e)}', f'return x if x < {lim} else {lim}'], c['rot'])
    elif c['fam'] != 'default':
        if c['style'] == 'float':  # single values only: arrays are refused as arguments
            fn = mkfn(names(e), [*as_floats(names(e)), f'return {render(e)}'], c['rot'])
        elif c['style'] == 'array':
            fn = mkfn(names(e), [f'return {render(e)}'], c['rot'])
        else:
            fn = mkfn(names(e), ['if init != init:', '    return init', f'return {render(e)}'], c['rot'])
    init = None
    if p['init'] is not None:
        i = p['init']
        lats = mk_lats(i['lat'])
        if i['fam'] == 'basic':
            init = M.InitValMdl(**lats)
        else:
            lines = [f'return {render(i["e"])}']
            if i.get('style') == 'scalar' and names(i['e']):
                v = sorted(names(i['e']))[0]
                lines = [f'if {v} != {v}:', '    return 0.0', *lines]
            elif i.get('style') == 'float':
                lines = as_floats(names(i['e'])) + lines
            init = M.InitValMdl(mkfn(names(i['e']), lines, i['rot']), **lats)
    cond = None
    if p['cond'] is not None:
        k = p['cond']
        if k.get('e') is None:
            cond = M.CondShiftMdl(unitary_val=as_type(k['unit'], k.get('ut')))
        elif k['style'] in ('array', 'float'):
            fn2 = mkfn(names(k['e']), [*(as_floats(names(k['e'])) if k['style'] == 'float' else []), f'return {render(k["e"])}'], k['rot'])
            cond = M.CondShiftMdl(fn2, unitary_val=as_type(k['unit'], k.get('ut')), **mk_lats(k['lat']))
        else:
            v = sorted(names(k['e']))[0]
            fn2 = mkfn(names(k['e']), [f'if {v} != {v}:', '    return 0.0', f'return {render(k["e"])}'], k['rot'])
            cond = M.CondShiftMdl(fn2, unitary_val=as_type(k['unit'], k.get('ut')), **mk_lats(k['lat']))
    if p.get('noarr'):
        kw['array_computable'] = False
    mechs = {n: mk_mech(m) for n, m in p['mechs'].items()}
    if p.get('single') and len(mechs) == 1:  # the only mechanism can be given on its own, with its name
        (n, m), = p['mechs'].items()
        mechs = mk_mech(m, mdl_name=n)
    return M.DegPrmMdl(
        mechs, init_val_mdl=init, cond_shift_mdl=cond, compute_eqn=fn,
        time_unit=p['tu'], **kw, **mk_lats(c['lat']),
    )


def mk_circ(p, **kw):
    import gerabaldi.models as M

    e = p['e']
    if p['style'] == 'array':
        fn = mkfn(names(e), [f'return {render(e)}'], p['rot'])
    elif p['style'] == 'float':
        fn = mkfn(names(e), [*as_floats(names(e)), f'return max({render(e)}, {p["lim"]!r})'], p['rot'])
    else:
        fn = mkfn(names(e), [f'x = {render(e)}', f'return x if x > {p["lim"]!r} else {p["lim"]!r}'], p['rot'])
    return M.CircPrmMdl(fn, **kw, **mk_lats(p['lat']))


def build_dev(w):
    import gerabaldi.models as M

    if w.get('single') and len(w['prms']) == 1:  # the only parameter can be given on its own, with its name
        (n, p), = w['prms'].items()
        return M.DeviceMdl(mk_deg_prm(p, prm_name=n), time_unit=w['tu'])
    prms = {n: (mk_circ(p) if p['k'] == 'circ' else mk_deg_prm(p)) for n, p in w['prms'].items()}
    return M.DeviceMdl(prms, time_unit=w['tu'])


def build_env(w):
    import gerabaldi.models as M

    vr = {}
    for c, v in w['env']['vrtn'].items():
        vr[c] = M.EnvVrtnMdl(
            dev_vrtn_mdl=mk_dist(v.get('dev')), chp_vrtn_mdl=mk_dist(v.get('chp')),
            batch_vrtn_mdl=mk_dist(v.get('batch')), vrtn_type=v['type'],
        )
    if w['env'].get('one') and vr:  # one model object for all of the conditions
        vr = dict.fromkeys(vr, next(iter(vr.values())))
    ins = {}
    for n, v in w['env']['instm'].items():
        ins[n] = M.MeasInstrument(
            error=mk_dist(v.get('err')), precision=v.get('prec'),
            meas_lims=tuple(v['lims']) if v.get('lims') else None,
        )
    if w['env'].get('aslist'):
        for c, m in vr.items():
            m.name = c
        for n, m in ins.items():
            m.name = n
        return M.PhysTestEnv(list(vr.values()), list(ins.values()))
    return M.PhysTestEnv(vr, ins)


def build_step(s):
    import gerabaldi.models as M

    nm = {'name': s['name']} if 'name' in s else {}
    if s['t'] == 's':
        return M.StrsSpec(dict(s['conds']), timedelta(microseconds=s['us']), **nm)
    return M.MeasSpec(dict(s['meas']), dict(s['conds']), **nm)


def build_test(w, steps=None):
    import gerabaldi.models as M

    t = w['test']
    objs, made = [], {}
    for s in steps if steps is not None else t['steps']:
        key = json.dumps(s)
        if not w.get('share') or key not in made:
            made[key] = build_step(s)  # equal steps are one object in some of the worlds
        objs.append(made[key])
    return M.TestSpec(objs, t['chps'], t['lots'])


def max_counts(w, steps=None):
    cnt = {}
    for s in steps if steps is not None else w['test']['steps']:
        if s['t'] == 'm':
            for p, n in s['meas'].items():
                cnt[p] = max(cnt.get(p, 0), n)
    return cnt


def state_counts(w, steps=None, extra=None):
    """Device counts to ask for when a state is generated up front."""
    cnt = {p: n for p, n in max_counts(w, steps).items() if p in w['prms']}
    for p, n in (extra if extra is not None else w.get('extra', {})).items():
        cnt[p] = cnt.get(p, 0) + n
    if not cnt:
        cnt = {next(iter(w['prms'])): 1}
    return cnt


def gen_state(w, dev, steps=None, extra=None):
    import gerabaldi

    t = w['test']
    return gerabaldi.gen_init_state(dev, state_counts(w, steps, extra), t['chps'], t['lots'])


# ---------------------------------------------------------------- reference simulator
def const_lat(s):
    """Value of a latent with no random layers."""
    if s.get('type', 'scaling') == 'scaling':
        v = 1.0
        for k in ('dev', 'chp', 'lot'):
            if s.get(k) is not None:
                v = v * s[k]['v']
        return v if s.get('det') is None else v * s['det']
    v = 0.0
    for k in ('dev', 'chp', 'lot'):
        if s.get(k) is not None:
            v = v + s[k]['v']
    return v if s.get('det') is None else v + s['det']


class RefState:
    """Latents and initial values of the population under test, as arrays lot->chip->device."""

    def __init__(self, w, sim_state=None, counts=None):
        self.n, self.init, self.lat = {}, {}, {}
        t = w['test']
        for name, p in w['prms'].items():
            if sim_state is not None:
                lv = sim_state.latent_var_vals[name]
                conv = lambda d: {k: np.array(v, dtype=float) for k, v in d.items() if not isinstance(v, dict)}
                if p['k'] == 'circ':
                    self.lat[name] = conv(lv)
                else:
                    self.init[name] = np.array(sim_state.init_prm_vals[name], dtype=float)
                    self.n[name] = self.init[name].shape[2]
                    self.lat[name] = {'': {k: np.array(lv[k], dtype=float) for k in p['compute']['lat']}}
                    self.lat[name]['cond'] = conv(lv['cond'])
                    for m in p['mechs']:
                        self.lat[name][m] = conv(lv[m])
            else:
                nd = counts[name]
                dims = (t['lots'], t['chps'], nd)
                full = lambda lats: {k: np.full(dims, const_lat(s)) for k, s in lats.items()}
                if p['k'] == 'circ':
                    self.lat[name] = full(p['lat'])
                else:
                    self.n[name] = nd
                    if p['init'] is None:
                        self.init[name] = np.zeros(dims)
                    elif p['init']['fam'] == 'basic':
                        self.init[name] = full(p['init']['lat'])['init_val']
                    else:
                        self.init[name] = np.broadcast_to(evl(p['init']['e'], full(p['init']['lat'])), dims) + 0.0
                    self.lat[name] = {'': full(p['compute']['lat'])}
                    self.lat[name]['cond'] = full(p['cond']['lat'] if p['cond'] else {})
                    for m, ms in p['mechs'].items():
                        self.lat[name][m] = full(ms['lat'])


def apply_env(w, c, base):
    v = w['env']['vrtn'].get(c)
    if v is None:
        return float(base)
    x = float(base)
    for layer in ('batch', 'chp', 'dev'):
        if v.get(layer) is not None:
            if v[layer]['d'] == 'P':
                return None  # differs between the devices
            x = x + v[layer]['v'] if v['type'] == 'offset' else x * v[layer]['v']
    return x


def patterned(w):
    return any(d['d'] == 'P' for v in w['env']['vrtn'].values() for d in v.values() if isinstance(d, dict))


def resolve_unit(w, p, m):
    for u in (m['tu'], p['tu'], w['tu']):
        if u is not None:
            return u
    return 'h'


LIMITED = ('sat', 'hyp')  # laws that approach a limit


class RefMech:
    def __init__(self, w, p, m, dims, lat):
        self.m, self.dims, self.lat = m, dims, lat
        self.unit_us = UNIT_US[resolve_unit(w, p, m)]
        self.tmax = max(1e10, 1e10 * H_US / self.unit_us)
        self.lo = np.zeros(dims)  # magnitude interval of (value - unitary) * sign
        self.hi = np.zeros(dims)
        self.val = np.full(dims, float(m['unit']))  # failure mechanisms
        self.failed_at = np.full(dims, -1)

    def shape(self, r, n, t):
        rt = np.where(r > 0, r, 0.0) * t
        rt = np.where(r > 0, rt, 0.0)
        k = self.m['shape']
        if k == 'pow':
            return np.power(rt, n)
        if k == 'log':
            return np.log1p(rt)
        if k == 'hyp':
            return rt / (1.0 + rt)
        if k == 'exp':
            return np.expm1(rt)
        return -np.expm1(-rt)

    def inv(self, r, n, x):
        """Time at which the shape reaches x under rate r, inf if never."""
        k = self.m['shape']
        x = np.maximum(x, 0.0)
        if k == 'pow':
            t = np.power(x, 1.0 / n)
        elif k == 'log':
            t = np.expm1(np.minimum(x, 700.0))
        elif k == 'hyp':
            t = np.where(x >= 1, np.inf, x / (1.0 - np.minimum(x, 1 - 1e-16)))
        elif k == 'exp':
            t = np.log1p(x)
        else:
            t = np.where(x >= 1, np.inf, -np.log1p(-np.minimum(x, 1.0)))
        return np.where(r > 0, t / np.where(r > 0, r, 1.0), np.inf)

    def stress(self, conds, us, step):
        m, dims = self.m, self.dims
        dt = us / self.unit_us
        env = {**{c: np.full(dims, v) for c, v in conds.items()}, **self.lat, 'time': np.full(dims, dt)}
        if m['k'] == 'none':
            return
        if m['k'] == 'fail':
            p = np.broadcast_to(evl(m['pred'], env), dims)
            if np.any(np.abs(p) < 1e-6):
                reject()
            hit = (self.val == m['unit']) & (p > 0)
            self.val = np.where(hit, np.broadcast_to(evl(m['fv'], env), dims), self.val)
            self.failed_at = np.where(hit, step, self.failed_at)
            return
        A = np.broadcast_to(evl(m['A'], env), dims)
        R = np.broadcast_to(evl(m['R'], env), dims)
        n = np.broadcast_to(evl(m['n'], env), dims)
        w = 16 * np.finfo(float).eps * (np.abs(m['unit']) + A + self.hi)
        tlo = self.inv(R, n, (self.lo - w) / A) * (1 - TIME_RTOL)
        thi = np.maximum(self.inv(R, n, (self.hi + w) / A) * (1 + TIME_RTOL), TIME_FLOOR)
        lo = np.where(np.isfinite(tlo), A * self.shape(R, n, np.where(np.isfinite(tlo), tlo, 0.0) + dt), np.inf)
        hi = np.where(
            np.isfinite(thi), A * self.shape(R, n, np.where(np.isfinite(thi), thi, 0.0) + dt),
            A if m['shape'] in LIMITED else np.inf,
        )
        if m['shape'] == 'exp' and np.any(np.where(np.isfinite(thi), R * (thi + dt), 0.0) > 25):
            reject()  # grows out of bounds
        if m['shape'] in LIMITED and np.any(A * (1 - self.shape(R, n, TIME_FLOOR)) < 1e-13 * (np.abs(m['unit']) + A)):
            reject()  # complete within the shortest time the package considers
        # No stress time exists: nothing changes. Close to the limit of the search either outcome is accepted
        never = ~np.isfinite(tlo)
        unsure = ~never & ~(thi < 0.02 * self.tmax)
        nlo = np.where(never, self.lo, np.where(unsure, np.minimum(self.lo, lo), lo))
        nhi = np.where(never, self.hi, np.where(unsure, np.maximum(self.hi, hi), hi))
        self.lo, self.hi = nlo - w, nhi + w
        self.lo = np.maximum(self.lo, 0.0)

    def interval(self):
        m = self.m
        if m['k'] == 'none':
            u = np.full(self.dims, float(m['unit']))
            return u, u
        if m['k'] == 'fail':
            return self.val, self.val
        a, b = m['unit'] + m['sign'] * self.lo, m['unit'] + m['sign'] * self.hi
        return (a, b) if m['sign'] > 0 else (b, a)


def corners(fn, ivs):
    """Bounds of a function that is monotone in each argument, from the corners of the argument box."""
    lo = hi = None
    keys = list(ivs)
    for pick in itertools.product((0, 1), repeat=len(keys)):
        v = fn({k: ivs[k][i] for k, i in zip(keys, pick)})
        lo = v if lo is None else np.minimum(lo, v)
        hi = v if hi is None else np.maximum(hi, v)
    return lo, hi


def ref_instm(spec, lo, hi):
    """Interval of what the instrument shows for a true value in [lo, hi]."""
    if spec is None:
        return lo, hi
    if spec.get('err') is not None:
        lo, hi = lo + spec['err']['v'], hi + spec['err']['v']
    if spec.get('prec'):
        lo, hi = sig_round(lo, spec['prec'])[0], sig_round(hi, spec['prec'])[1]
    if spec.get('lims'):
        a, b = spec['lims']
        lo, hi = np.clip(lo, a, b), np.clip(hi, a, b)
    return lo, hi


def sig_round(x, prec):
    """(low, high) of x rounded to significant figures; they differ only for (nearly) exact ties."""
    x = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(x)):
        a, b = sig_round(np.where(np.isfinite(x), x, 1.0), prec)
        return np.where(np.isfinite(x), a, x), np.where(np.isfinite(x), b, x)
    mag = np.floor(np.log10(np.where(x == 0, 1.0, np.abs(x))))
    sc = 10.0 ** (prec - 1 - mag)
    y = x * sc
    f = np.floor(y)
    tie = np.abs(y - f - 0.5) < 1e-6
    r = np.rint(y)
    lo, hi = np.where(tie, f, r) / sc, np.where(tie, f + 1, r) / sc
    return np.where(x == 0, 0.0, lo), np.where(x == 0, 0.0, hi)


class RefSim:
    """Runs the description of a test against the reference. rows: (step, param, lot, chip, dev) -> (lo, hi)."""

    def __init__(self, w, rs, elapsed_us=0):
        self.w, self.rs = w, rs
        self.rows, self.cond_rows, self.times, self.summary = {}, {}, {}, []
        self.elapsed = elapsed_us
        self.mechs, self.true = {}, {}
        t = w['test']
        # Which conditions each of the devices gets is up to the environment (the subject of C11)
        self.objs = (build_env(w), build_dev(w)) if patterned(w) else None
        with np.errstate(all='ignore'):
            for n, p in w['prms'].items():
                if p['k'] == 'circ':
                    continue
                dims = (t['lots'], t['chps'], rs.n[n])
                self.mechs[n] = {k: RefMech(w, p, m, dims, rs.lat[n][k]) for k, m in p['mechs'].items()}
                self.true[n] = (rs.init[n], rs.init[n])

    def compute(self, p, name, init, cond, mechs):
        e = compute_expr(p)
        v = evl(e, {'init': init, 'cond': cond, **mechs, **self.rs.lat[name]['']})
        if p['compute']['fam'] == 'clamp':
            v = np.minimum(v, p['compute']['lim'])
        return v

    def unitary_cond(self, p):
        return float(p['cond']['unit']) if p['cond'] else 0.0

    def conds_of(self, s, n, count):
        """Conditions which the devices of parameter n (or the sensors of condition n) are exposed to in a step."""
        out = {c: apply_env(self.w, c, v) for c, v in s['conds'].items()}
        if self.objs:
            env, dev = self.objs
            t = self.w['test']
            got = env.gen_env_cond_vals(dict(s['conds']), {n: count}, None, dev, 'stress' if s['t'] == 's' else 'measure',
                                        t['chps'], t['lots'])[n]
            if n not in self.w['prms']:
                return {n: np.array(got[n], dtype=float).reshape(-1)}
            for c, v in got.items():
                out[c] = np.array(v, dtype=float)
        return {c: v for c, v in out.items() if v is not None}

    def step(self, i, s):
        with np.errstate(all='ignore'):
            self._step(i, s)

    def _step(self, i, s):
        w, t = self.w, self.w['test']
        start = self.elapsed
        if s['t'] == 's':
            for n in self.mechs:
                conds = self.conds_of(s, n, self.rs.n[n])
                p = w['prms'][n]
                for rm in self.mechs[n].values():
                    rm.stress(conds, s['us'], i)
                ivs = {k: rm.interval() for k, rm in self.mechs[n].items()}
                u = self.unitary_cond(p)
                self.true[n] = corners(lambda a: self.compute(p, n, self.rs.init[n], u, a), ivs)
            self.elapsed += s['us']
        else:
            for n, cnt in s['meas'].items():
                conds = self.conds_of(s, n, cnt)
                self.times[i] = self.elapsed
                spec = w['env']['instm'].get(n)
                if n not in w['prms']:
                    lo, hi = ref_instm(spec, np.full(cnt, conds[n]), np.full(cnt, conds[n]))
                    self.cond_rows[(i, n)] = (lo, hi)
                    continue
                p = w['prms'][n]
                if p['k'] == 'circ':
                    lat = {k: v[:, :, :cnt] for k, v in self.rs.lat[n].items()}
                    ivs = {q: tuple(b[:, :, :cnt] for b in self.true[q]) for q in self.true if q in names(p['e'])}
                    dims = (t['lots'], t['chps'], cnt)
                    lo, hi = corners(lambda a: np.broadcast_to(evl(p['e'], {**conds, **lat, **a}), dims), ivs)
                    if p['style'] != 'array':
                        lo, hi = np.maximum(lo, p['lim']), np.maximum(hi, p['lim'])
                else:
                    u = self.unitary_cond(p)
                    k = p['cond']
                    lat = self.rs.lat[n]['cond']
                    more = [(0, 0), (0, 0), (0, self.rs.n[n] - cnt)]  # devices that are not measured are cut off below
                    conds = {c: np.pad(v, more, 'edge') if np.ndim(v) else v for c, v in conds.items()}
                    cv = u if not k or k.get('e') is None else evl(k['e'], {**conds, **lat})
                    units = {m: float(ms['unit']) for m, ms in p['mechs'].items()}
                    lo, hi = corners(lambda a: self.compute(p, n, a['v'], cv, units), {'v': self.true[n]})
                    lo, hi = lo[:, :, :cnt], hi[:, :, :cnt]
                lo, hi = ref_instm(spec, lo, hi)
                for idx in np.ndindex(lo.shape):
                    self.rows[(i, n, *idx)] = (lo[idx], hi[idx])
        self.summary.append({
            'step name': s.get('name', 'unspecified'), 'step type': 'stress' if s['t'] == 's' else 'measure',
            'step number': i, 'duration': s.get('us', 0), 'start time': start, 'end time': self.elapsed,
            'conds': s['conds'],
        })

    def run(self, steps=None):
        for i, s in enumerate(steps if steps is not None else self.w['test']['steps']):
            self.step(i, s)
        return self


# ---------------------------------------------------------------- reading reports
def isnull(x):
    return x is None or x != x


def report_rows(report):
    """Parameter rows as a dict keyed (step, param, lot, chip, dev) and condition rows grouped by (step, param)."""
    rows, conds = {}, {}
    m = report.measurements
    if len(m) == 0:
        return rows, conds
    for prm, step, dev, chp, lot, tm, val in zip(
        m['param'], m['step #'], m['device #'], m['chip #'], m['lot #'], m['time'], m['measured']
    ):
        if isnull(dev):
            need(isnull(chp) and isnull(lot), 'condition row with chip or lot label')
            conds.setdefault((int(step), prm), []).append((tm, float(val)))
        else:
            key = (int(step), prm, int(lot), int(chp), int(dev))
            need(key not in rows, 'duplicate measurement row {}', key)
            rows[key] = (tm, float(val))
    return rows, conds


def to_us(td):
    """Exact microseconds of a timedelta-like."""
    if isinstance(td, timedelta) and not hasattr(td, 'value'):
        return td.days * 86400 * 10**6 + td.seconds * 10**6 + td.microseconds
    return int(round(td.value / 1000)) if hasattr(td, 'value') else int(td)


def within(x, lo, hi, scale=0.0):
    if np.isnan(lo):
        return bool(np.isnan(x))
    tol = 1e-9 * max(abs(lo) if np.isfinite(lo) else 0, abs(hi) if np.isfinite(hi) else 0, scale) + 1e-300
    return lo - tol <= x <= hi + tol


def compare(report, ref, what='rows', keys=None):
    """The report has exactly the reference's rows and every value lies in its interval."""
    rows, conds = report_rows(report)
    if keys is None:
        need(set(rows) == set(ref.rows), '{}: rows differ: missing {}, extra {}', what,
             sorted(set(ref.rows) - set(rows))[:4], sorted(set(rows) - set(ref.rows))[:4])
        need(set(conds) == set(ref.cond_rows), '{}: condition rows differ: {} / {}', what, sorted(conds),
             sorted(ref.cond_rows))
    for k in keys if keys is not None else ref.rows:
        tm, v = rows[k]
        lo, hi = ref.rows[k]
        scale = float(np.max(np.abs(ref.rs.init[k[1]]))) if k[1] in ref.rs.init else 1e-6
        need(within(v, lo, hi, scale), '{}: {} reported {!r}, expected [{!r}, {!r}]', what, k, v, lo, hi)
        need(to_us(tm) == ref.times[k[0]], '{}: {} time {} expected {} us', what, k, tm, ref.times[k[0]])
    if keys is None:
        for k, (lo, hi) in ref.cond_rows.items():
            need(len(conds[k]) == len(lo), '{}: {} has {} rows, expected {}', what, k, len(conds[k]), len(lo))
            for (tm, v), a, b in zip(conds[k], lo, hi):
                need(within(v, a, b), '{}: condition {} reported {!r}, expected [{!r}, {!r}]', what, k, v, a, b)
                need(to_us(tm) == ref.times[k[0]], '{}: {} time {}', what, k, tm)


def simulate(w, dev=None, env=None, steps=None, state='auto', test=None):
    """Runs the real simulator on a world, returns (report, reference)."""
    import gerabaldi

    dev = dev or build_dev(w)
    env = env or build_env(w)
    test = test or build_test(w, steps)
    if state == 'auto':
        state = gen_state(w, dev, steps) if w['mode'] == 'state' else None
    if state is None:
        cnt = fresh_counts(w, steps)
        rs = RefState(w, None, cnt)
    else:
        rs = RefState(w, state)
    ref = RefSim(w, rs).run(steps)
    rep = gerabaldi.simulate(test, dev, env, state) if state is not None else gerabaldi.simulate(test, dev, env)
    return rep, ref


def fresh_counts(w, steps=None):
    cnt = max_counts(w, steps)
    out = {n: cnt.get(n, 0) for n in w['prms']}
    for n, p in w['prms'].items():
        if p['k'] == 'circ':
            for q in names(p['e']):
                if q in out:
                    out[q] = max(out[q], out[n])
    top = max([1, *cnt.values(), *out.values()])
    return {n: (v or top) for n, v in out.items()}


# ---------------------------------------------------------------- strategies
SEEDS = st.integers(1, 10**6)


def u_dist(lo, hi, fresh):
    if fresh:
        return fl(lo, hi).map(lambda v: {'d': 'D', 'v': v})
    return st.one_of(
        st.builds(lambda s: {'d': 'U', 'a': lo, 'b': hi, 'seed': s}, SEEDS),
        st.builds(lambda s: {'d': 'N', 'a': (lo + hi) / 2, 'b': (hi - lo) / 20, 'seed': s}, SEEDS),
    )


@st.composite
def latent(draw, lo=0.5, hi=2.0, fresh=False):
    """A latent variable with values in about [lo, hi] (positive range)."""
    mid = (lo * hi) ** 0.5 if lo > 0 else (lo + hi) / 2
    form = draw(st.sampled_from(['dev', 'dev', 'det', 'layers', 'detlayers', 'offset']))
    if form == 'det':
        return {'det': draw(fl(lo, hi)), 'type': draw(st.sampled_from(['scaling', 'offset']))}
    if form == 'dev':
        return {'dev': draw(u_dist(lo, hi, fresh)), 'type': draw(st.sampled_from(['scaling', 'offset']))}
    if form == 'offset':
        h = (hi - lo) / 8
        out = {'det': mid, 'type': 'offset', 'dev': draw(u_dist(-h, h, fresh))}
        if draw(st.booleans()):
            out['chp'] = draw(u_dist(-h, h, fresh))
        if draw(st.booleans()):
            out['lot'] = draw(u_dist(-h, h, fresh))
        return out
    q = (hi / lo) ** 0.16 if lo > 0 else 1.05
    out = {'type': 'scaling'}
    if form == 'detlayers':
        out['det'] = mid
        if draw(st.booleans()):
            out['dev'] = draw(u_dist(1 / q, q, fresh))
    else:
        out['dev'] = draw(u_dist(mid / q, mid * q, fresh))
    if draw(st.booleans()):
        out['chp'] = draw(u_dist(1 / q, q, fresh))
    if draw(st.booleans()):
        out['lot'] = draw(u_dist(1 / q, q, fresh))
    return out


@st.composite
def cond_factor(draw, conds, lat, fresh, thr_ok=True):
    """Positive (or, with a threshold, non-negative) factor depending on some conditions and latents."""
    e = ['const', 1.0]
    for c in draw(st.lists(st.sampled_from(conds), unique=True, max_size=2)):
        ref = CONDS[c]
        kinds = (['exp', 'exp', 'steep'] if c in SIGNED else ['pow', 'exp', 'latpow', 'steep', 'ipow']) + (['thr'] if thr_ok else [])
        kind = draw(st.sampled_from(kinds))
        x = ['div', ['var', c], ['const', ref]]
        if kind == 'pow':
            f = ['pow', x, ['const', draw(st.sampled_from([1.0, 2.0, -1.0, 0.5, 3.4]))]]
        elif kind == 'ipow':  # whole powers of what may be a whole number, too large or negative for integer arithmetic
            k = draw(st.sampled_from([-3, -2, -1, 2, 8, 9]))
            f = ['mul', ['pow', ['var', c], ['const', k]], ['const', float(ref) ** -k]]
            if k < 0 and draw(st.booleans()):
                nm = draw(st.sampled_from(['al', 'bt']))
                lat.setdefault(nm, {'det': draw(st.sampled_from([1, 2])), 'type': 'scaling'} if draw(st.booleans()) else draw(latent(0.5, 2.0, fresh)))
                f = ['mul', f, ['pow', ['var', nm], ['const', k]]]
        elif kind == 'latpow':
            nm = draw(st.sampled_from(['al', 'bt']))
            if nm not in lat:
                lat[nm] = draw(latent(0.5, 2.0, fresh))
            f = ['pow', x, ['var', nm]]
        elif kind == 'steep':  # changes by many decades, as thermally activated mechanisms do
            f = ['exp', ['mul', ['const', draw(st.sampled_from([-12.0, -7.0, 7.0, 12.0]))], ['sub', x, ['const', 1.0]]]]
        elif kind == 'exp':
            f = ['exp', ['mul', ['const', draw(fl(-3.0, 3.0, 2))], ['sub', x, ['const', 1.0]]]]
        else:
            f = ['max0', ['sub', x, ['const', draw(fl(0.4, 1.6, 3))]]]
        e = ['mul', e, f]
    return e


@st.composite
def deg_mech(draw, conds, T_us, unit, tu_eff, tu, fresh, shapes=('pow', 'pow', 'log', 'sat', 'hyp', 'exp'), thr_ok=True, positive=False, sc=1.0):
    lat = {}
    shape = draw(st.sampled_from(list(shapes)))
    tau = T_us / UNIT_US[tu_eff] * draw(logfl(0.1, 30))
    R = ['div', draw(cond_factor(conds, lat, fresh, thr_ok)), ['const', tau]]
    if draw(st.booleans()):
        lat['k'] = draw(latent(0.5, 2.0, fresh))
        R = ['mul', ['var', 'k'], R]
    n = ['const', 1.0]
    if shape == 'pow':
        if draw(st.booleans()):
            lat['n'] = draw(latent(0.3, 1.1, fresh))
            n = ['var', 'n']
        else:
            n = ['const', draw(st.sampled_from([1.0, 0.5, 0.2, 2.0]))]
    sign = 1.0
    if unit == 0 and not positive:
        sign = draw(st.sampled_from([1.0, 1.0, -1.0]))
        amp = draw(logfl(1e-4, 1e3)) * sc
    else:
        if shape in LIMITED:
            sign = draw(st.sampled_from([1.0, -1.0]))
        amp = draw(logfl(1e-2, 0.6))
    A = ['const', amp]
    if sign > 0 and draw(st.integers(0, 3)) == 0:
        A = ['mul', A, draw(cond_factor(conds, lat, fresh, False))]
    if sign > 0 and draw(st.booleans()):
        lat['a0'] = draw(latent(0.5, 1.5, fresh))
        A = ['mul', ['var', 'a0'], A]
    return {'k': 'deg', 'unit': unit, 'sign': sign, 'A': A, 'R': R, 'n': n, 'shape': shape,
            'style': draw(st.sampled_from(STYLES)), 'tu': tu, 'lat': lat,
            'rot': draw(rots(3))}


@st.composite
def fail_mech(draw, conds, T_us, unit, tu_eff, tu, fresh, inf=False, sc=1.0):
    lat = {}
    thr = T_us / UNIT_US[tu_eff] * draw(logfl(0.1, 10))
    kind = draw(st.sampled_from(['time', 'time', 'timecond', 'cond']))
    c = draw(st.sampled_from(conds))
    x = ['div', ['var', c], ['const', CONDS[c]]]
    if kind == 'cond':
        pred = ['sub', x, ['const', draw(fl(0.6, 1.5, 3)) + 0.000517]]
        if draw(st.booleans()):
            lat['k'] = draw(latent(0.7, 1.4, fresh))
            pred = ['sub', ['mul', x, ['var', 'k']], ['const', 1.000317]]
    else:
        e = ['div', ['var', 'time'], ['const', thr]]
        if kind == 'timecond':
            e = ['mul', e, draw(cond_factor(conds, lat, fresh))]
        if draw(st.booleans()):
            lat['k'] = draw(latent(0.3, 3.0, fresh))
            e = ['mul', e, ['var', 'k']]
        pred = ['sub', e, ['const', 1.000317]]
    # Failed values far from and close to the neutral value, on either side of it
    if unit == 0:
        base = draw(st.one_of(fl(1.5, 9.0, 3), fl(1.5, 9.0, 3), st.sampled_from([-1.5, -4.0, 0.001, -0.002, 1e-5, 250.0]))) * sc
    else:
        base = draw(st.sampled_from([0.25, 0.5, 2.0, 4.0, 1.001, 0.9995]))
    fv = ['const', base]
    if inf and draw(st.integers(0, 3)) == 0:
        fv = ['const', float(draw(st.sampled_from(['inf', 'nan'])) if inf == 'nan' else 'inf')]
    elif unit == 0 and c not in SIGNED and draw(st.booleans()):
        fv = ['mul', fv, ['add', ['const', 1.0], x]]
    return {'k': 'fail', 'unit': unit, 'pred': pred, 'fv': fv, 'style': draw(st.sampled_from(STYLES)),
            'tu': tu, 'lat': lat, 'rot': draw(rots(3))}


def unit_choices(T_us):
    return [u for u in UNIT_NAMES if T_us / UNIT_US[u] >= 0.5] or ['us']


@st.composite
def time_units(draw, T_us, wtu, ptu):
    """(effective unit, unit given on the mechanism)."""
    if draw(st.integers(0, 2)) == 0:
        eff = ptu or wtu or 'h'
        return eff, None
    u = draw(st.sampled_from(unit_choices(T_us)))
    return u, u


@st.composite
def deg_prm(draw, conds, T_us, wtu, fresh, opts):
    ptu = draw(st.sampled_from([None, None] + unit_choices(T_us)))
    fam = draw(st.sampled_from(opts.get('fams', ['default', 'default', 'wsum', 'prod', 'mix', 'clamp', 'usum'])))
    nm = draw(st.integers(1, opts.get('max_mechs', 3)))
    # Size of the values: parameters may be currents of picoamperes as well as frequencies
    sc = draw(st.sampled_from([1.0] * 5 + [1e-12, 1e-9, 1e-6, 1e6])) if fam != 'usum' and opts.get('scale', True) else 1.0
    mechs, w, plat = {}, {}, {}
    mnames = draw(st.permutations(['nbti', 'hci', 'tddb', 'em', 'nbti_p', 'nbti2', 'NBTI']))[:nm]
    for i, m in enumerate(mnames):
        unit = 1 if fam == 'prod' or (fam == 'mix' and i == 0) else 0
        if fam == 'usum':
            unit = draw(st.sampled_from([0, 1, -1, 0.5, -2.5, 7, 100.0, 0.1, 1e-3]))
        eff, tu = draw(time_units(T_us, wtu, ptu))
        kinds = opts.get('kinds', ['deg', 'deg', 'deg', 'fail', 'none'])
        kind = draw(st.sampled_from(kinds))
        if kind == 'deg':
            mechs[m] = draw(deg_mech(conds, T_us, unit, eff, tu, fresh, thr_ok=opts.get('thr', True),
                                     shapes=opts.get('shapes', ('pow', 'pow', 'log', 'sat', 'hyp', 'exp')), sc=sc))
        elif kind == 'fail':
            mechs[m] = draw(fail_mech(conds, T_us, unit, eff, tu, fresh, opts.get('inf') and {'default': 'nan', 'clamp': True}.get(fam, False), sc=sc))
        else:
            mechs[m] = {'k': 'none', 'cls': draw(st.sampled_from(['deg', 'fail'])), 'unit': unit, 'tu': tu, 'lat': {}}
        if fam == 'wsum' and draw(st.booleans()):
            g = draw(st.sampled_from(['g', 'w2']))
            if g not in plat:
                plat[g] = draw(latent(0.5, 2.0, fresh))
            w[m] = ['var', g]
        elif fam in ('wsum', 'usum'):
            w[m] = ['const', draw(fl(-3.0, 3.0, 2))]
        elif fam == 'prod' and draw(st.booleans()):
            if 'g' not in plat:
                plat['g'] = draw(latent(0.5, 2.0, fresh))
            w[m] = ['var', 'g']
        else:
            w[m] = ['const', 1.0]
    init = None
    if fam in ('prod', 'mix') or draw(st.booleans()):
        lo, hi = (x * sc for x in draw(st.sampled_from([(0.5, 2.0), (50.0, 200.0), (0.01, 0.02)])))
        kind = draw(st.sampled_from(['basic', 'basic', 'eqn', 'eqn', 'const']))
        if kind == 'basic':
            init = {'fam': 'basic', 'lat': {'init_val': draw(latent(lo, hi, fresh))}}
        elif kind == 'const':  # an equation without arguments
            init = {'fam': 'e', 'rot': draw(rots(2)), 'lat': {}, 'e': ['const', draw(fl(lo, hi))]}
        else:
            init = {'fam': 'e', 'rot': draw(rots(2)), 'style': draw(st.sampled_from(STYLES)), 'lat': {'b0': draw(latent(lo, hi, fresh)),
                    'b1': draw(latent(0.5, 2.0, fresh))}, 'e': ['mul', ['var', 'b0'], ['add', ['var', 'b1'], ['const', 0.1]]]}
    cond = None
    cunit = 1 if fam == 'prod' else 0
    if fam == 'usum':
        cunit = draw(st.sampled_from([0, 1, 0.5, -3, 0.3]))
    if cunit != 0 or opts.get('cond') or draw(st.booleans()):
        if not opts.get('cond') and draw(st.integers(0, 3)) == 0:
            cond = {'e': None, 'unit': cunit, 'lat': {}}
        else:
            clat = {}
            c = draw(st.sampled_from([k for k in conds if k not in SIGNED] if cunit and fam != 'usum' else conds))
            x = ['div', ['var', c], ['const', CONDS[c]]]
            if fam == 'usum':
                clat['k'] = draw(latent(0.5, 2.0, fresh))
                e = ['add', ['const', cunit], ['mul', ['var', 'k'], ['sub', x, ['const', 1.0]]]]
            elif cunit == 0:
                clat['k'] = draw(latent(0.5, 2.0, fresh))
                e = ['mul', ['var', 'k'], ['mul', ['const', draw(fl(-2.0, 2.0, 2)) * sc], ['sub', x, ['const', 1.0]]]]
            else:
                clat['al'] = draw(latent(0.5, 2.0, fresh))
                e = ['pow', x, ['var', 'al']]
            if cunit == 0 and draw(st.integers(0, 3)) == 0:
                clat['k2'] = draw(latent(0.5, 2.0, fresh))
                e = ['mul', e, ['var', 'k2']]
            cond = {'e': e, 'unit': cunit, 'lat': clat, 'rot': draw(rots(2)),
                    'style': draw(st.sampled_from(STYLES))}
    for part in [*mechs.values(), *([cond] if cond else [])]:  # neutral values of numpy's number types
        ut = draw(st.sampled_from([None] * 9 + ['int64', 'float64', 'int32']))
        if ut:
            part['ut'] = ut
    comp = {'fam': fam, 'lat': plat, 'w': w, 'rot': draw(rots(4)),
            'style': draw(st.sampled_from(STYLES))}
    if fam == 'usum':
        comp['cu'] = cunit
    if fam == 'clamp':
        comp['lim'] = draw(fl(0.5, 50.0, 2)) * sc
    out = {'k': 'deg', 'tu': ptu, 'mechs': mechs, 'init': init, 'cond': cond, 'compute': comp}
    if sc != 1.0:
        out['sc'] = sc
    if draw(st.integers(0, 5)) == 0:
        out['noarr'] = True
        if fam != 'default' and draw(st.booleans()):
            comp['style'] = 'float'
    if nm == 1 and draw(st.booleans()):
        out['single'] = True
    return out


@st.composite
def circ_prm(draw, conds, deg_names, fresh):
    lat = {}
    qs = draw(st.lists(st.sampled_from(deg_names), unique=True, min_size=1, max_size=2))
    e = ['mul', ['const', draw(fl(-2.0, 2.0, 2))], ['var', qs[0]]]
    if len(qs) == 2:
        e = ['add', e, ['mul', ['const', draw(fl(0.2, 2.0, 2))], ['var', qs[1]]]]
    if draw(st.booleans()):
        lat['g'] = draw(latent(0.5, 2.0, fresh))
        e = ['mul', ['var', 'g'], e]
    if draw(st.booleans()):
        c = draw(st.sampled_from(conds))
        e = ['add', e, ['div', ['var', c], ['const', CONDS[c]]]]
    if draw(st.booleans()):
        lat['h'] = draw(latent(0.5, 2.0, fresh))
        e = ['add', e, ['var', 'h']]
    return {'k': 'circ', 'e': e, 'lat': lat, 'style': draw(st.sampled_from(STYLES)),
            'lim': draw(fl(-1.0, 1.0, 2)), 'rot': draw(rots(3))}


def level(c):
    r = CONDS[c]
    if c in SIGNED:
        return st.one_of(st.sampled_from([0, 0.0, -1]), fl(-1.5 * r, 1.9 * r, 4))
    return st.one_of(fl(0.4 * r, 1.9 * r, 4), st.integers(max(1, int(0.5 * r)), max(2, int(1.8 * r))))


@st.composite
def det_layers(draw, c, vary=False):
    typ = draw(st.sampled_from(['offset', 'scaling']))
    out = {'type': typ}
    for layer in draw(st.lists(st.sampled_from(['dev', 'chp', 'batch']), unique=True, min_size=0, max_size=3)):
        v = draw(fl(-0.05, 0.05, 2)) * CONDS[c] if typ == 'offset' else draw(fl(0.9, 1.1, 3))
        out[layer] = {'d': 'D', 'v': v}
        if vary and layer != 'batch':
            d = 0.1 * CONDS[c] if typ == 'offset' else 0.15
            out[layer] = {'d': 'P', 'v': [v, *(v + d * k for k in draw(st.lists(fl(-1.0, 1.0, 2), min_size=1, max_size=6)))]}
    return out


@st.composite
def instm(draw, exact=False):
    if exact:
        return {}
    out = {}
    if draw(st.booleans()):
        out['err'] = {'d': 'D', 'v': draw(fl(-0.5, 0.5, 2))}
    if draw(st.booleans()):
        out['prec'] = draw(st.integers(2, 6))
    if draw(st.integers(0, 2)) == 0:
        a, b = draw(fl(-300.0, 1.0, 2)), draw(fl(2.0, 500.0, 2))
        out['lims'] = [a, b]
    return out


def needed_conds(prms, s):
    """Conditions which a step has to specify."""
    out = set()
    for n, p in prms.items():
        if s['t'] == 's' and p['k'] == 'deg':
            for m in p['mechs'].values():
                for e in ([m['pred'], m['fv']] if m['k'] == 'fail' else [mech_expr(m)] if m['k'] == 'deg' else []):
                    out |= names(e)
        elif s['t'] == 'm' and n in s['meas']:
            e = p['e'] if p['k'] == 'circ' else (p['cond'] or {}).get('e')
            out |= names(e) if e else set()
    return (out | set(s.get('meas', ()))) & set(CONDS)


@st.composite
def world(draw, **o):
    """o: prms (max number of degraded parameters), circ, mode, env, instm, kinds, fams, shapes, thr, max_mechs,
    max_steps, dims, sensors, names"""
    fresh = draw(st.sampled_from(o.get('mode', ['state', 'state', 'fresh']))) == 'fresh'
    conds = draw(st.lists(st.sampled_from(sorted(set(CONDS) - SIGNED)), unique=True, min_size=1, max_size=3))
    if draw(st.integers(0, 2)) == 0:
        conds.insert(draw(st.integers(0, len(conds))), 'bias')
    T_us = draw(st.sampled_from(o.get('T', [0.01, 1.0, 24.0, 1000.0, 8760.0]))) * H_US
    wtu = draw(st.sampled_from([None, None] + unit_choices(T_us)))
    if wtu is None and T_us < 0.5 * H_US:
        wtu = 's'  # the default unit of hours would leave only the resolution limit of the solver to look at
    prms = {}
    np_ = draw(st.integers(1, o.get('prms', 2)))
    pn = draw(st.permutations(['vth', 'idss', 'r_on', 'gm', 'vth_sat', 'vth2', 'Vth']))[:np_]
    for n in pn:
        prms[n] = draw(deg_prm(conds, T_us, wtu, fresh, o))
    if o.get('circ', True) == 'always' or (o.get('circ', True) and draw(st.integers(0, 2)) == 0):
        for n in draw(st.permutations(['f_osc', 'p_dyn']))[: draw(st.integers(1, 2))]:
            prms[n] = draw(circ_prm(conds, pn, fresh))
    if len(prms) > 1:
        prms = {n: prms[n] for n in draw(st.permutations(sorted(prms)))}
    big = o.get('dims', 3)
    chps, lots = draw(st.integers(1, big)), draw(st.integers(1, big))
    devs = st.integers(1, big)
    # Now and then one dimension is much larger than the others
    wide = draw(st.sampled_from([None] * 15 + ['chps', 'lots', 'devs'])) if o.get('wide', True) else None
    if wide == 'chps':
        chps = draw(st.integers(big + 1, 11))
    elif wide == 'lots':
        lots = draw(st.integers(big + 1, 11))
    elif wide == 'devs':
        devs = st.integers(1, 12)
    env = {'vrtn': {}, 'instm': {}}
    if o.get('env', True):
        vary = o.get('vary') and draw(st.booleans())
        for c in conds:
            if draw(st.integers(0, 2)) < 1 + bool(vary):
                env['vrtn'][c] = draw(det_layers(c, vary))
    if o.get('instm', True):
        for n in [*prms, *conds]:
            if draw(st.integers(0, 3)) == 0:
                env['instm'][n] = draw(instm())
                if prms.get(n, {}).get('sc'):  # errors and limits are in the range of ordinary values
                    env['instm'][n] = {'prec': draw(st.integers(2, 6))}
    env['aslist'] = draw(st.booleans())
    levels = {c: draw(st.lists(level(c), min_size=2, max_size=3)) for c in conds}

    def pick():
        return {c: draw(st.sampled_from(levels[c])) for c in conds}

    nm = max(1, draw(st.integers(1, o.get('max_steps', 6))))
    steps = []
    measurable = [*prms] + (list(conds) if o.get('sensors', True) else [])
    for i in range(nm):
        if draw(st.integers(0, 2)) > 0:
            steps.append({'t': 's', 'conds': pick(), 'us': max(1, round(T_us * draw(logfl(0.1, 5))))})
        else:
            steps.append({'t': 'm', 'conds': pick(), 'meas': {}})
    steps.append({'t': 'm', 'conds': pick(), 'meas': {}})
    for s in steps:
        if draw(st.integers(0, 4)) == 0:
            s['name'] = draw(st.sampled_from(['burn in', 'Relax', 'x', '2', '']))
        if s['t'] == 'm':
            mp = draw(st.lists(st.sampled_from(measurable), unique=True, min_size=1, max_size=len(measurable)))
            s['meas'] = {p: draw(devs) for p in mp}
    if o.get('repeat', True) and len(steps) <= 4 and draw(st.integers(0, 7)) == 0:
        steps = [dict(s) for s in steps * 2]
    w = {'mode': 'fresh' if fresh else 'state', 'share': draw(st.booleans()), 'tu': wtu, 'prms': prms, 'env': env,
         'test': {'chps': chps, 'lots': lots, 'steps': steps}, 'extra': {}, 'T': T_us}
    if len(prms) == 1 and draw(st.booleans()):
        w['single'] = True
    if not fresh and draw(st.integers(0, 3)) == 0:
        w['extra'] = {draw(st.sampled_from(pn)): draw(st.integers(1, 2))}
    if not any(p in prms for s in steps if s['t'] == 'm' for p in s['meas']):
        steps[-1]['meas'] = {**steps[-1]['meas'], next(iter(prms)): draw(devs)}
    if o.get('partial', True):  # conditions that nothing in a step depends on may be left out of it
        for s in steps:
            if draw(st.integers(0, 3)) == 0:
                keep = needed_conds(prms, s) | set(draw(st.lists(st.sampled_from(conds), unique=True)))
                s['conds'] = {c: v for c, v in s['conds'].items() if c in keep}
    return w


def n_stress(w):
    return sum(s['t'] == 's' for s in w['test']['steps'])


def world_labels(w):
    ks = [m['k'] for p in w['prms'].values() if p['k'] == 'deg' for m in p['mechs'].values()]
    out = [f'stress phases: {min(n_stress(w), 4)}', f'mode: {w["mode"]}', f'mechanisms: {min(len(ks), 4)}']
    if 'fail' in ks:
        out.append('with failure mechanism')
    if any(p['k'] == 'circ' for p in w['prms'].values()):
        out.append('with circuit parameter')
    if patterned(w):
        out.append('conditions differ between devices')
    if any(m.get('style') == 'scalar' for p in w['prms'].values() if p['k'] == 'deg' for m in p['mechs'].values()):
        out.append('with single-value equation')
    return out
