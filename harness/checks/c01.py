"""C01: accumulated degradation follows the equivalent-time principle."""
import world as W
from base import Sub, ok

RULE = ('Generated device models (1-2 parameters, 1-3 mechanisms each: power, logarithmic, exponential, saturating, hyperbolic '
        'and threshold laws, values from 1e-12 to 1e6, with condition-dependent rate and amplitude, per-lot/chip/device latents), environments with fixed offsets or conditions that differ between devices, and '
        'tests of 1-7 steps, simulated and compared row by row with a closed-form reference. Non-trivial: at least two '
        'stress phases, at least one of which has different conditions from an earlier one.')
ASSUMPTIONS = ['equivalent time may be off by 4e-5 relative or 1e-3 of the mechanism time unit',
               'mechanism laws are monotone in time, grow by at most e^25 and do not reach their limit within 1e-3 time units']


def check(w):
    rep, ref = W.simulate(w)
    W.compare(rep, ref)
    st = [s for s in w['test']['steps'] if s['t'] == 's']
    return ok(len(st) >= 2 and any(s['conds'] != st[0]['conds'] for s in st), *W.world_labels(w))


SUBS = [
    Sub('general', W.world(vary=True), check, 900),
    Sub('deep', W.world(prms=1, circ=False, kinds=['deg'], instm=False, env=False, max_steps=12, dims=2,
                        max_mechs=2), check, 700),
]
