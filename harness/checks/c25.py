"""C25: the initial population has the requested devices, all fresh, and serves every parameter the test needs."""
import copy
from datetime import timedelta

import gerabaldi
import numpy as np
import stubs as S
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Initial states generated for generated device models (degraded and circuit parameters in any order), device counts '
        'for any subset of parameters (given directly or through a report of a test), chips, lots and elapsed times. '
        'Requested parameters get exactly the requested devices (more only if a circuit parameter needs them), all others '
        'enough for the circuit parameters; mechanisms start at their neutral value, parameters at their initial value, '
        'every latent has one value per device; separate states share nothing; a test started from the state shows the '
        'initial values at its start time. Non-trivial: a circuit parameter, an unlisted parameter or several lots.')


@st.composite
def cases(draw):
    w = draw(W.world(partial=False, circ=draw(st.sampled_from([True, 'always'])), max_steps=3, max_mechs=2, instm=False, sensors=False))
    prms = list(w['prms'])
    sub = draw(st.lists(st.sampled_from(prms), unique=True, min_size=1))
    return {'w': w, 'counts': {p: draw(st.integers(1, 5)) for p in sub}, 'chps': draw(st.integers(1, 4)), 'lots': draw(st.integers(1, 4)),
            'elapsed': draw(st.one_of(st.none(), st.just(0), st.integers(1, 10**11), fl(0.0, 1e5, 4), st.integers(0, 4).map(lambda n: [n]))),
            'via': draw(st.sampled_from(['counts', 'counts', 'report', 'both'])), 'conds': draw(st.booleans())}


def needed(w, counts):
    """Fewest devices that each parameter needs."""
    out = {}
    for n, p in w['prms'].items():
        out[n] = counts.get(n, 1)
    for n, p in w['prms'].items():
        if p['k'] == 'circ' and n in counts:
            for q in W.names(p['e']):
                if q in out:
                    out[q] = max(out[q], counts[n])
    return out


def check(c):
    import gerabaldi.models as M

    w, counts = c['w'], dict(c['counts'])
    dev = W.build_dev(w)
    lots, chps = c['lots'], c['chps']
    kw, us = {}, 0
    if isinstance(c['elapsed'], int):
        us = c['elapsed']
        kw['elapsed_time'] = timedelta(microseconds=us)
    elif c['elapsed'] is not None:
        hours = c['elapsed'][0] if isinstance(c['elapsed'], list) else c['elapsed']
        us = W.to_us(timedelta(hours=hours))
        kw['elapsed_time'] = hours
    conds = dict(w['test']['steps'][-1]['conds'])
    ask = dict(counts)
    if c['conds']:
        ask[next(iter(conds))] = 7  # sensors for a condition among the things to measure
    spec = M.TestSpec([M.MeasSpec({p: n}, conds) for p, n in ask.items()], chps, lots)
    rep = M.SimReport(spec)

    def gen():
        if c['via'] == 'counts':
            return gerabaldi.gen_init_state(dev, dict(ask), **S.sizes([lots, chps]), **kw)
        if c['via'] == 'both':  # the counts take precedence, along with their chips and lots
            other = M.SimReport(M.TestSpec([M.MeasSpec({p: n + 3 for p, n in ask.items()}, conds)], chps + 2, lots + 1))
            return gerabaldi.gen_init_state(dev, dict(ask), chps, lots, quantity_info=other, **kw)
        return gerabaldi.gen_init_state(dev, quantity_info=rep, **kw)

    s = gen()
    least = needed(w, counts)
    degs = [n for n, p in w['prms'].items() if p['k'] == 'deg']
    need(set(s.curr_prm_vals) == set(degs), 'parameters {} instead of {}', list(s.curr_prm_vals), degs)
    need(set(s.latent_var_vals) == set(w['prms']), 'latents of {}', list(s.latent_var_vals))
    need(W.to_us(s.elapsed) == us, 'elapsed {} instead of {} us', s.elapsed, us)
    ns = {}
    for n in degs:
        v = np.asarray(s.curr_prm_vals[n])
        need(v.ndim == 3 and v.shape[:2] == (lots, chps), '{} has shape {} for {} lots and {} chips', n, v.shape, lots, chps)
        ns[n] = v.shape[2]
        if n in counts:
            need(v.shape[2] == least[n], '{} has {} devices per chip instead of {}', n, v.shape[2], least[n])
        need(v.shape[2] >= least[n], '{} has {} devices per chip but {} are needed', n, v.shape[2], least[n])
        need(np.array_equal(v, s.init_prm_vals[n]), '{} does not start at its initial value', n)
        p = w['prms'][n]
        need(set(s.curr_deg_mech_vals[n]) == set(p['mechs']), '{} mechanisms {}', n, list(s.curr_deg_mech_vals[n]))
        for m, ms in p['mechs'].items():
            for part in (s.curr_deg_mech_vals, s.init_deg_mech_vals):
                x = np.asarray(part[n][m])
                need(x.shape == v.shape and (x.astype(float) == np.float64(ms['unit'])).all(), '{} of {} starts at {}', m, n, x)
        init = p['init']
        if init is None:
            need((v == 0).all(), '{} starts at {} instead of zero', n, v)
        elif w['mode'] == 'fresh':
            lat = {k: W.const_lat(x) for k, x in init['lat'].items()}
            e = lat['init_val'] if init['fam'] == 'basic' else float(W.evl(init['e'], lat))
            need(np.allclose(v, e, rtol=1e-12, atol=0), '{} starts at {} instead of {}', n, v, e)
        elif any((x.get('dev') or {}).get('d') == 'U' and x['dev']['b'] > x['dev']['a'] for x in init['lat'].values()):
            need(np.unique(v).size == v.size, 'devices of {} share an initial value', n)

    def walk(x, n, path):
        for k, y in x.items():
            if isinstance(y, dict):
                walk(y, n, (*path, k))
            else:
                shape = np.shape(y)
                need(len(shape) == 3 and shape[:2] == (lots, chps) and shape[2] == ns.get(n, shape[2]) and shape[2] >= least[n],
                     'latent {} of {} has shape {}', (*path, k), n, shape)

    for n, x in s.latent_var_vals.items():
        walk(x, n, ())
    if c['via'] == 'report':
        for n in counts:
            need(rep.dev_counts[n] == (ns.get(n, counts[n])), 'report says {} devices of {}', rep.dev_counts[n], n)
    # Separate states are separate
    s2 = gen()
    keep = {n: v.copy() for n, v in s.curr_prm_vals.items()}
    for n in degs:
        s2.curr_prm_vals[n] += 5
        s2.init_prm_vals[n] += 5
        for m in s2.curr_deg_mech_vals[n]:
            s2.curr_deg_mech_vals[n][m][...] = 9
        need(np.array_equal(s.curr_prm_vals[n], keep[n]) and np.array_equal(s.init_prm_vals[n], keep[n]), 'states share their values')
        for m, ms in w['prms'][n]['mechs'].items():
            need((s.curr_deg_mech_vals[n][m] == ms['unit']).all() and (s2.init_deg_mech_vals[n][m] == ms['unit']).all(), 'states share their mechanisms')
    def leaves(x):
        for y in x.values():
            yield from leaves(y) if isinstance(y, dict) else [y]

    before = [np.array(y, dtype=float) for y in leaves(s.latent_var_vals)]
    for y in leaves(s2.latent_var_vals):
        y[...] = -7
    need(all(np.array_equal(a, b) for a, b in zip(before, leaves(s.latent_var_vals))), 'states share their latents')
    # The same from the device model alone
    d = dev.gen_init_state(dict(counts), **S.sizes([lots, chps]))
    need(set(d.curr_prm_vals) == set(degs) and set(d.latent_var_vals) == set(w['prms']), 'device state for {}', list(d.curr_prm_vals))
    need(W.to_us(d.elapsed) == 0, 'device state starts at {}', d.elapsed)
    for n in degs:
        shape = np.shape(d.curr_prm_vals[n])
        need(shape[:2] == (lots, chps) and (shape[2] == counts[n] if n in counts else shape[2] >= least[n]),
             'device state of {} has shape {}', n, shape)
        need(np.array_equal(d.curr_prm_vals[n], d.init_prm_vals[n]), 'device state of {} is not fresh', n)
        for m, ms in w['prms'][n]['mechs'].items():
            x = np.asarray(d.curr_deg_mech_vals[n][m])
            need(x.shape == shape and (x.astype(float) == np.float64(ms['unit'])).all(), '{} of {} starts at {}', m, n, x)
    # And from each parameter model alone
    for n in degs:
        p, m, k = w['prms'][n], dev.prm_mdl(n), counts.get(n, 1)
        sz = S.sizes([lots, chps, k])
        x = m.gen_init_mech_vals(**sz)
        need(set(x) == set(p['mechs']), 'mechanisms {} of {}', sorted(x), n)
        for q, ms in p['mechs'].items():
            need(np.shape(x[q]) == (lots, chps, k) and (np.asarray(x[q], dtype=float) == np.float64(ms['unit'])).all(), '{} of {} starts at {}', q, n, x[q])
        need(np.shape(m.init_mdl.gen_init_vals(**sz)) == (lots, chps, k), 'initial values of {} do not have one value per device', n)
        x = m.gen_latent_vals(**sz)
        for q, lat in [('cond', (p['cond'] or {'lat': {}})['lat']), *((q, ms['lat']) for q, ms in p['mechs'].items())]:
            need(set(x[q]) == set(lat), 'latents {} of {} {}', sorted(x[q]), n, q)
            need(all(np.shape(v) == (lots, chps, k) for v in x[q].values()), 'latents of {} {} do not have one value per device', n, q)
        for q in p['compute']['lat']:
            need(np.shape(x[q]) == (lots, chps, k), 'latent {} of {} does not have one value per device', q, n)
    # States built by hand from the same values
    parts = [{n: np.array(v) for n, v in d.init_prm_vals.items()},
             {n: {m: np.array(x) for m, x in v.items()} for n, v in d.init_deg_mech_vals.items()}]
    h1, h2 = (M.SimState(parts[0], parts[1], d.latent_var_vals, timedelta(microseconds=us)) for _ in range(2))
    for n in degs:
        for h in (h1, h2):
            need(np.array_equal(h.curr_prm_vals[n], d.init_prm_vals[n]) and np.array_equal(h.init_prm_vals[n], d.init_prm_vals[n]),
                 'state built by hand has other values of {}', n)
        h1.curr_prm_vals[n] += 5
        for m in h1.curr_deg_mech_vals[n]:
            h1.curr_deg_mech_vals[n][m] += 5
        for x in (h2.curr_prm_vals, h2.init_prm_vals, h1.init_prm_vals, parts[0]):
            need(np.array_equal(x[n], d.init_prm_vals[n]), 'states built from the same values share them')
        for x in (h2.curr_deg_mech_vals, h2.init_deg_mech_vals, h1.init_deg_mech_vals, parts[1]):
            for m, ms in w['prms'][n]['mechs'].items():
                need((x[n][m] == ms['unit']).all(), 'states built from the same values share their mechanisms')
    need(W.to_us(h1.elapsed) == us, 'state built by hand starts at {}', h1.elapsed)
    # What a test sees at its start
    rs = W.RefState({**w, 'test': {'chps': chps, 'lots': lots, 'steps': []}}, s)
    steps = [{'t': 'm', 'conds': conds, 'meas': dict(counts)}]
    w2 = copy.deepcopy(w)
    w2['test'] = {'chps': chps, 'lots': lots, 'steps': steps}
    ref = W.RefSim(w2, rs, us).run()
    W.compare(gerabaldi.simulate(W.build_test(w2), dev, W.build_env(w2), s), ref)
    circ = any(p['k'] == 'circ' for n, p in w['prms'].items() if n in counts)
    return ok(circ or set(counts) != set(w['prms']) or lots > 1, 'circuit parameter' if circ else 'no circuit parameter', c['via'])


SUBS = [Sub('state', cases(), check, 900)]
