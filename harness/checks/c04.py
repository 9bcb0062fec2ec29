"""C04: hard failures latch, and are judged on each stress phase alone."""
import world as W
from base import Sub, need, ok

RULE = ('Generated worlds whose parameters carry failure mechanisms (time, condition and latent dependent predicates; '
        'failure values that depend on the conditions at failure), measured between phases, compared with an exact '
        'reference and checked over the history: after the first failure the mechanism contribution never changes. '
        'Non-trivial: some device fails and a later stress phase exists.')


def check(w):
    rep, ref = W.simulate(w)
    W.compare(rep, ref)
    last = max([i for i, s in enumerate(w['test']['steps']) if s['t'] == 's'], default=-1)
    fails = [rm.failed_at for p in ref.mechs.values() for rm in p.values() if rm.m['k'] == 'fail']
    hit = any(((f >= 0) & (f < last)).any() for f in fails)
    part = any(((f >= 0).any() and (f < 0).any()) for f in fails)
    return ok(hit, *W.world_labels(w), *(['some devices fail, others do not'] if part else []))


def check_hist(w):
    """Parameters made of failure mechanisms only: the reported value changes at most once per mechanism."""
    rep, ref = W.simulate(w)
    W.compare(rep, ref)
    rows, _ = W.report_rows(rep)
    hist = {}
    for k in sorted(rows):
        hist.setdefault(k[1:], []).append(rows[k][1])
    moved = 0
    for k, vals in hist.items():
        n = len(w['prms'][k[0]]['mechs'])
        changes = sum(a != b and not (a != a and b != b) for a, b in zip(vals, vals[1:]))
        need(changes <= n, '{}: failure value changed {} times with {} mechanisms: {}', k, changes, n, vals)
        moved += changes
    return ok(moved > 0, *W.world_labels(w))


def dense(w):
    """Measure every parameter of every device after every stress phase, under constant conditions."""
    cnt = W.state_counts(w)
    cnt = {p: n for p, n in cnt.items() if w['prms'].get(p, {}).get('k') == 'deg'} or {next(iter(w['prms'])): 1}
    conds = w['test']['steps'][-1]['conds']
    steps = []
    for s in w['test']['steps']:
        if s['t'] == 's':
            steps.append(s)
        steps.append({'t': 'm', 'conds': conds, 'meas': cnt})
    w['test']['steps'] = steps
    w['extra'] = {}
    return w


SUBS = [
    Sub('circuits', W.world(kinds=['fail', 'fail', 'deg'], max_steps=6, circ='always', vary=True), check, 200),
    Sub('mixed', W.world(kinds=['fail', 'fail', 'deg'], max_steps=8, inf=True, circ=False, vary=True), check, 500),
    Sub('history', W.world(kinds=['fail'], fams=['default', 'wsum'], circ=False, env=False, instm=False, max_steps=8,
                           max_mechs=2, sensors=False, inf=True, partial=False).map(dense), check_hist, 600),
]
