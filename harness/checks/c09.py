"""C09: simulating leaves its inputs alone and is repeatable."""
import copy
import json
import os
import subprocess
import sys
import tempfile
from datetime import timedelta

import gerabaldi
import numpy as np
import world as W
from base import Sub, fl, need, ok
from hypothesis import strategies as st

RULE = ('Generated worlds with seeded random latents, environment variation and instrument noise are simulated repeatedly '
        'and in generated interleavings from shared models, specifications and initial states. Runs without remaining '
        'randomness repeat exactly; models rebuilt with the same seeds repeat exactly; specifications, device counts, '
        'conditions, initial states and earlier reports stay as they were; reports and states handed out are independent '
        'of one another; batches of seeded worlds, with distributions and variation models shared between variables and '
        'conditions, give the same reports in processes with different hashing of names. Non-trivial: at least two runs that include a stress phase.')


def same(a, b):
    """Frames equal: values to 1e-12, everything else exactly."""
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    for c in a.columns:
        for x, y in zip(a[c], b[c]):
            if W.isnull(x) and W.isnull(y):
                continue
            if x != y and not (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-12 * max(abs(x), abs(y))):
                return False
    return True


def same_report(a, b):
    return same(a.measurements, b.measurements) and same(a.test_summary, b.test_summary) and \
        (a.test_name, a.num_chps, a.num_lots) == (b.test_name, b.num_chps, b.num_lots)


def arrays(state):
    out = {}

    def walk(path, x):
        if isinstance(x, dict):
            for k, v in x.items():
                walk((*path, k), v)
        else:
            out[path] = np.array(x, copy=True)

    for part in ('curr_prm_vals', 'init_prm_vals', 'curr_deg_mech_vals', 'init_deg_mech_vals', 'latent_var_vals'):
        walk((part,), getattr(state, part))
    out[('elapsed',)] = np.array(W.to_us(state.elapsed))
    return out


def same_arrays(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a)


def spec_of(test):
    out = [(test.num_chps, test.num_lots, test.name, test.description)]
    for s in list(test.steps):
        out.append((type(s).__name__, s.name, copy.deepcopy(s.conditions), copy.deepcopy(getattr(s, 'duration', None)),
                    copy.deepcopy(getattr(s, 'measurements', None)), id(s)))
    return out


@st.composite
def cases(draw):
    w = draw(W.world(mode=['state'], max_steps=4, circ=True))
    others = []
    for _ in range(draw(st.integers(1, 3))):
        others.append(draw(st.sampled_from(['same', 'fresh', 'prefix', 'env', 'newstate', 'mutate'])))
    return {'w': w, 'others': others}


def check(c):
    import gerabaldi.models as M

    w = c['w']
    dev, env, test = W.build_dev(w), W.build_env(w), W.build_test(w)
    counts = W.state_counts(w)
    keep_counts = dict(counts)
    state = gerabaldi.gen_init_state(dev, counts, w['test']['chps'], w['test']['lots'])
    need(counts == keep_counts, 'device counts handed in were modified: {}', counts)
    s0, t0 = arrays(state), spec_of(test)
    first = gerabaldi.simulate(test, dev, env, state)
    keep = copy.deepcopy((first.measurements, first.test_summary))
    reports = [first]
    for o in c['others']:
        if o == 'same':
            reports.append(gerabaldi.simulate(test, dev, env, state))
            need(same_report(reports[-1], first), 'second run from the same initial state differs')
        elif o == 'fresh':
            r = gerabaldi.simulate(test, dev, env)
            need(len(r.measurements) == len(first.measurements), 'fresh run has other rows')
        elif o == 'prefix':
            steps = list(test.steps)[:-1]
            if any(isinstance(s, M.MeasSpec) for s in steps):
                gerabaldi.simulate(M.TestSpec(steps, test.num_chps, test.num_lots), dev, env, state)
        elif o == 'env':
            gerabaldi.simulate(test, dev, M.PhysTestEnv({'temp': M.EnvVrtnMdl(M.Normal(0, 1.0))}), state)
        elif o == 'newstate':
            other = gerabaldi.gen_init_state(dev, W.state_counts(w), w['test']['chps'], w['test']['lots'])
            gerabaldi.simulate(test, dev, env, other)
        else:  # a caller changes a report that was handed out
            r = gerabaldi.simulate(test, dev, env, state)
            r.measurements['measured'] = -1.0
            r.dev_counts['extra'] = 99
            r.convert_report_time('s')
        need(same_arrays(arrays(state), s0), 'initial state was modified by {}', o)
        need(spec_of(test) == t0, 'test specification was modified by {}', o)
        need(same(first.measurements, keep[0]) and same(first.test_summary, keep[1]), 'an earlier report was modified by {}', o)
    again = gerabaldi.simulate(test, dev, env, state)
    need(same_report(again, first), 'last run from the same initial state differs')
    return ok(W.n_stress(w), *c['others'])


@st.composite
def seeded_cases(draw):
    w = draw(W.world(mode=['state'], max_steps=4, circ=True, env=False, instm=False))
    seeds = st.integers(0, 10**6)
    env = {}
    for k in W.CONDS:
        if draw(st.booleans()):
            typ = draw(st.sampled_from(['offset', 'scaling']))
            v = {'type': typ}
            for layer in draw(st.lists(st.sampled_from(['dev', 'chp', 'batch']), unique=True, min_size=1)):
                v[layer] = {'d': 'N', 'a': 0.0 if typ == 'offset' else 1.0, 'b': 0.001 * (W.CONDS[k] if typ == 'offset' else 1.0), 'seed': draw(seeds)}
            env[k] = v
    ins = {p: {'err': {'d': 'N', 'a': 0.0, 'b': 0.01, 'seed': draw(seeds)}} for p in w['prms'] if draw(st.booleans())}
    w['env'] = {'vrtn': env, 'instm': ins, 'aslist': False}
    return {'w': w, 'fresh': draw(st.booleans()), 'between': draw(st.booleans())}


def check_seeded(c):
    """Models rebuilt with the same seeds give the same report, whatever ran in between."""
    w = c['w']
    reps = []
    for i in range(2):
        dev, env, test = W.build_dev(w), W.build_env(w), W.build_test(w)
        if i and c['between']:
            np.random.seed(5)
            np.random.random(7)
            gerabaldi.simulate(W.build_test(w), W.build_dev(w), W.build_env(w))
        state = None if c['fresh'] else W.gen_state(w, dev)
        reps.append(gerabaldi.simulate(test, dev, env, state))
    need(same_report(*reps), 'same seeds give different reports')
    return ok(W.n_stress(w) and (w['env']['vrtn'] or w['env']['instm']), 'fresh' if c['fresh'] else 'state')


@st.composite
def process_case(draw):
    c = draw(seeded_cases())
    w = c['w']
    w['env']['one'] = draw(st.booleans())
    if w['env']['one']:
        v = {'type': 'scaling', 'dev': {'d': 'N', 'a': 1.0, 'b': 0.001, 'seed': draw(st.integers(0, 10**6))}}
        w['env']['vrtn'] = dict.fromkeys(W.CONDS, v)
    return {'w': w, 'fresh': c['fresh'], 'onedist': draw(st.booleans())}


def run_child(path, hashseed):
    here = os.path.dirname(os.path.abspath(W.__file__))
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(here, 'child.py'), path], capture_output=True, text=True,
                       env={**os.environ, 'PYTHONHASHSEED': str(hashseed)}, timeout=200)
    need(p.returncode == 0, 'simulation in a process of its own failed: {}', p.stderr[-500:])
    return json.loads(p.stdout)


def check_process(c):
    """Equal seeds give equal reports in different processes, whatever the random hashing of names in them."""
    with tempfile.TemporaryDirectory(prefix='vp-') as tmp:
        path = os.path.join(tmp, 'batch.json')
        with open(path, 'w') as f:
            json.dump(c['batch'], f)
        res = [run_child(path, h) for h in c['hash']]
    for b, x, y in zip(c['batch'], *res, strict=True):
        need(x == y, 'same seeds give different reports in two processes: {}', json.dumps(b)[:1500])
    return ok(any(W.n_stress(b['w']) for b in c['batch']), 'shared' if any(b['w']['env']['one'] for b in c['batch']) else 'own')


PROCESS = st.fixed_dictionaries({
    'batch': st.lists(process_case(), min_size=8, max_size=16), 'hash': st.lists(st.integers(0, 10**6), min_size=2, max_size=2, unique=True)})


@st.composite
def state_cases(draw):
    w = draw(W.world(mode=['state'], max_steps=3, circ=True, prms=2))
    return {'w': w, 'us': draw(st.integers(0, 10**12))}


def check_state(c):
    """States own their arrays; a state object built from plain dictionaries does not follow or change them."""
    import gerabaldi.models as M

    w = c['w']
    dev = W.build_dev(w)
    a = W.gen_state(w, dev)
    el = timedelta(microseconds=c['us'])
    b = M.SimState(a.init_prm_vals, a.init_deg_mech_vals, a.latent_var_vals, el)
    sa, sb = arrays(a), arrays(b)
    for k in sa:
        if k != ('elapsed',):
            need(np.array_equal(sa[k], sb[k]), 'state differs from what it was built of at {}', k)
    need(b.elapsed == el, 'elapsed time {}', b.elapsed)
    test, env = W.build_test(w), W.build_env(w)
    r0 = gerabaldi.simulate(test, dev, env, b)
    # change every array of the first state in place
    def wreck(x):
        for v in x.values():
            wreck(v) if isinstance(v, dict) else np.asarray(v).fill(7)
    for part in ('curr_prm_vals', 'init_prm_vals', 'curr_deg_mech_vals', 'init_deg_mech_vals', 'latent_var_vals'):
        wreck(getattr(a, part))
    need(same_arrays(arrays(b), sb), 'states share arrays')
    need(same_report(gerabaldi.simulate(test, dev, env, b), r0), 'outcome depends on another state')
    # within one state, current and initial values are separate
    for p in b.curr_prm_vals:
        keep = np.array(b.init_prm_vals[p], copy=True)
        b.curr_prm_vals[p] += 1
        need(np.array_equal(b.init_prm_vals[p], keep), 'current and initial values share an array')
    return ok(W.n_stress(w))


SUBS = [Sub('pure', cases(), check, 450), Sub('seeded', seeded_cases(), check_seeded, 350), Sub('states', state_cases(), check_state, 300),
        Sub('process', PROCESS, check_process, 8, 120)]
