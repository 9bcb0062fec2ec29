"""C28: optional packages matter only where they are used, and public names can be imported."""
import importlib
import logging
import sys

import numpy as np
import world as W
from base import Sub, need, ok
from hypothesis import strategies as st

RULE = ('The package is imported anew with generated subsets of the optional packages unavailable (not installed, or failing '
        'to load in several ways), followed by generated sequences of operations: importing all public names, simulating a '
        'generated world against the reference, sampling, exporting variables to each framework, and loading generated '
        'modules on demand. What needs a missing package must fail with an import error that names the package to '
        'install, everything else must work as if nothing was missing. Non-trivial: a package is missing and at least '
        'two operations follow.')
OPTIONAL = {'pymc': 'pymc', 'pyro': 'pyro-ppl', 'torch': 'torch'}
ERRORS = {'missing': ModuleNotFoundError, 'import': ImportError, 'system': SystemError}
STAR = ['gerabaldi', 'gerabaldi.models', 'gerabaldi.cookbook', 'gerabaldi.sim', 'gerabaldi.math', 'gerabaldi.exceptions',
        *(f'gerabaldi.models.{m}' for m in ('devices', 'phys_envs', 'random_vars', 'reports', 'states', 'test_specs')),
        *(f'gerabaldi.cookbook.{m}' for m in ('test_specs', 'test_envs', 'mech_mdls'))]
DEMAND = [('json', None), ('xml.dom', None), ('no_such_module_vp', None), ('no_such_module_vp', 'vp-tools'), ('json.vp', 'vp-json'),
          ('matplotlib.vp', None)]

op = st.one_of(
    st.tuples(st.just('star'), st.sampled_from(STAR)),
    st.tuples(st.just('export'), st.sampled_from(['var', 'latent', 'model']), st.sampled_from(['pymc', 'pyro'])),
    st.tuples(st.just('demand'), st.integers(0, len(DEMAND) - 1)),
    st.tuples(st.just('sample')), st.tuples(st.just('sim'))).map(list)


@st.composite
def cases(draw):
    miss = {p: draw(st.sampled_from(sorted(ERRORS))) for p in OPTIONAL if draw(st.booleans())}
    if 'torch' in miss:
        miss['pyro'] = miss['torch']  # pyro is built upon torch
    return {'miss': miss, 'ops': draw(st.lists(op, min_size=1, max_size=5)),
            'w': draw(W.world(max_steps=3, prms=1, max_mechs=2, dims=2, circ=False))}


class Block:
    """Import hook under which packages cannot be loaded."""

    def __init__(self, miss):
        self.miss = miss

    def find_spec(self, name, path=None, target=None):
        if name.partition('.')[0] in self.miss:
            raise ERRORS[self.miss[name.partition('.')[0]]](f'cannot load {name}')
        return None


def check(c):
    miss = c['miss']
    drop = {'gerabaldi', *miss}
    saved = {k: m for k, m in sys.modules.items() if k.partition('.')[0] in drop}
    log = logging.getLogger('gerabaldi')
    handlers, level = list(log.handlers), log.level
    hook = Block(miss)
    for k in saved:
        del sys.modules[k]
    sys.meta_path.insert(0, hook)
    try:
        return body(c, miss)
    finally:
        sys.meta_path.remove(hook)
        for k in [k for k in sys.modules if k.partition('.')[0] in drop]:
            del sys.modules[k]
        sys.modules.update(saved)
        for h in list(log.handlers):
            log.removeHandler(h)
        for h in handlers:
            log.addHandler(h)
        log.setLevel(level)


def message(m):
    try:
        m.anything
    except ImportError as e:
        return str(e)
    return None


def hinted(fn, names, what):
    """Fails with an import error that tells which of the packages to install."""
    try:
        got = fn()
    except ImportError as e:
        need(any(OPTIONAL.get(n, n) in str(e) for n in names), '{}: import error does not name {}: {}', what, names, e)
        return
    except Exception as e:
        got = f'{type(e).__name__}'
    need(False, '{} gave {!r} although {} cannot be loaded', what, got, names)


def body(c, miss):
    import gerabaldi
    import gerabaldi.models as M

    logging.getLogger('gerabaldi').setLevel(logging.CRITICAL)
    for o in c['ops']:
        if o[0] == 'star':
            ns = {}
            exec(f'from {o[1]} import *', ns)
            for n in getattr(importlib.import_module(o[1]), '__all__'):
                need(n in ns, '{} is not imported from {}', n, o[1])
            if o[1] == 'gerabaldi':
                for n in ('simulate', 'gen_init_state', 'TestSpec', 'PhysTestEnv', 'DeviceMdl', 'htol', 'ideal_env'):
                    need(n in ns, '{} is not imported from {}', n, o[1])
        elif o[0] == 'sim':
            rep, ref = W.simulate(c['w'])
            W.compare(rep, ref)
        elif o[0] == 'sample':
            v = M.LatentVar(M.Normal(3, 0.1), M.Uniform(1, 2), M.Gamma(2, 3)).gen_latent_vals(2, 3, 4)
            need(np.shape(v) == (4, 3, 2) and np.isfinite(v).all(), 'samples {}', v)
        elif o[0] == 'demand':
            import gerabaldi.helpers as H

            _on_demand_import = getattr(H, '_on_demand_import', None)  # the demos use it, but it is not public
            if _on_demand_import is None:
                continue
            mod, pkg = DEMAND[o[1]]
            m = _on_demand_import(mod) if pkg is None else _on_demand_import(mod, pkg)
            try:
                real = importlib.import_module(mod)
            except ImportError:
                hinted(lambda: m.anything, [pkg or mod], f'using {mod}')
                hinted(lambda: m.Other('x'), [pkg or mod], f'using {mod} again')
                if pkg is None:
                    a, b = message(m), message(_on_demand_import(mod, mod))
                    need(a == b, 'using {} without a package name says {!r}, with the name {!r}', mod, a, b)
            else:
                need(m is real, 'loading {} on demand gave {!r}', mod, m)
        else:
            export(o[1], o[2], miss)
    kinds = {o[0] for o in c['ops']}
    return ok(miss and len(c['ops']) > 1, *(f'no {p}' for p in sorted(miss)), *sorted(kinds))


def export(kind, fw, miss):
    import gerabaldi.models as M

    def make():
        if kind == 'var':
            v = M.Normal(1.0, 0.5, name='x')
            return v.get_cbi_form(fw)
        if kind == 'latent':
            return M.LatentVar(M.Normal(1.0, 0.5), chp_vrtn_mdl=M.Uniform(1, 2), name='x').cbi_export(fw)
        y = [1.0, 2.0]
        if fw == 'pyro' and 'torch' not in miss:
            import torch

            y = torch.tensor(y)
        else:
            y = np.array(y)
        m = M.CondShiftMdl(lambda k, temp: k * temp, 'out', k=M.LatentVar(M.Normal(1.0, 0.5)))
        return m.export_to_cbi(fw, {'temp': y, 'out': y})

    need_ = ['pymc'] if fw == 'pymc' else [p for p in ('pyro', 'torch') if p in miss] or ['pyro']
    what = f'exporting a {kind} to {fw}'
    if fw in miss:
        hinted(make, need_, what)
    elif fw == 'pymc':
        import pymc

        with pymc.Model() as m:
            make()
        need(set(m.named_vars) >= {'k' if kind == 'model' else 'x'}, '{}: the model has {}', what, list(m.named_vars))
    else:
        import pyro

        tr = pyro.poutine.trace(make).get_trace()
        need(any(v['type'] == 'sample' for v in tr.nodes.values()), '{}: nothing was exported', what)


SUBS = [Sub('optional', cases(), check, 500)]
