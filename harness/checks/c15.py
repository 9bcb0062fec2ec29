"""C15: a test specification is exactly the sequence of steps it was built from."""
import math
from datetime import timedelta

import numpy as np
import world as W
from base import Sub, fl, known, need, ok, raises
from hypothesis import strategies as st

RULE = ('Generated sequences of operations on several test specifications (created from lists, single steps and lists '
        'appended, lists looped for a duration that is or is not a whole number of passes, invalid loops, iteration '
        'complete or abandoned, sample counting) against a plain list model, checking every specification and every list '
        'handed in after each operation. Non-trivial: a loop append or at least three operations.')


@st.composite
def step(draw):
    if draw(st.booleans()):
        return ['s', draw(st.sampled_from([1, 3600, 1800, 7200, 86400, 250, 10**6 + 1]))]  # seconds
    return ['m', {p: draw(st.integers(1, 9)) for p in draw(st.lists(st.sampled_from('abc'), unique=True, min_size=1))}]


@st.composite
def cases(draw):
    pool = draw(st.lists(step(), min_size=1, max_size=5))
    pick = st.lists(st.integers(0, len(pool) - 1), max_size=4)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('new'), st.one_of(st.none(), pick)),
        st.tuples(st.just('one'), st.integers(0, 3), st.integers(0, len(pool) - 1)),
        st.tuples(st.just('many'), st.integers(0, 3), pick),
        st.tuples(st.just('loop'), st.integers(0, 3), st.one_of(pick, st.integers(0, len(pool) - 1)),
                  st.one_of(st.integers(1, 6).map(lambda k: ['x', k]), fl(0.2, 5.0, 3).map(lambda k: ['f', k])),
                  st.sampled_from(['td', 's', 'h', 'seconds', 'd', 'ms'])),
        st.tuples(st.just('zero'), st.integers(0, 3), pick, st.sampled_from(['td', 's', None])),
        st.tuples(st.just('iter'), st.integers(0, 3)),
        st.tuples(st.just('part'), st.integers(0, 3), st.integers(0, 4)),
        st.tuples(st.just('both'), st.integers(0, 3), st.lists(st.booleans(), max_size=8)),
        st.tuples(st.just('own'), st.integers(0, 3)),
    ).map(list), min_size=1, max_size=8))
    return {'pool': pool, 'ops': ops, 'chps': draw(st.integers(1, 5)), 'lots': draw(st.integers(1, 5))}


def check(c):
    import gerabaldi.models as M
    from gerabaldi.exceptions import UserConfigError

    pool = [M.StrsSpec({'temp': 300 + i}, timedelta(seconds=s[1])) if s[0] == 's' else M.MeasSpec(dict(s[1]), {'temp': 300 + i})
            for i, s in enumerate(c['pool'])]
    secs = [s[1] if s[0] == 's' else 0 for s in c['pool']]
    specs, models, given = [], [], []
    loops = 0

    def new(ids):
        if ids is None:
            specs.append(M.TestSpec(num_chps=c['chps'], num_lots=c['lots']))
            models.append([])
        else:
            lst = [pool[i] for i in ids]
            given.append((lst, list(lst), len(specs)))
            specs.append(M.TestSpec(lst, c['chps'], c['lots'], 'nm', 'ds'))
            models.append(list(ids))

    def verify():
        for lst, orig, owner in given:
            if len(lst) == len(orig) and all(x is y for x, y in zip(lst, orig)):
                continue
            m = models[owner] if owner is not None else []
            need(len(lst) == len(m) and all(x is pool[i] for x, i in zip(lst, m)), 'a list handed in was modified')
            known('constructor-list')  # the list given at creation grew by exactly the steps appended to that test
        for s, m in zip(specs, models):
            got = list(s.steps)
            need(len(got) == len(m) and all(x is pool[i] for x, i in zip(got, m)), '{} steps instead of {}',
                 len(got), len(m))
            need((s.num_chps, s.num_lots) == (c['chps'], c['lots']), 'quantities')
        for p, d in zip(pool, c['pool']):
            if d[0] == 's':
                need(p.duration == timedelta(seconds=d[1]), 'a stress step was modified')
            else:
                need(p.measurements == d[1], 'a measurement step was modified')

    new(None)
    for op in c['ops']:
        if op[0] == 'new':
            if len(specs) < 4:
                new(op[1])
            verify()
            continue
        s, m = specs[op[1] % len(specs)], models[op[1] % len(specs)]
        if op[0] == 'one':
            s.append_steps(pool[op[2]])
            m.append(op[2])
        elif op[0] == 'many':
            lst = [pool[i] for i in op[2]]
            given.append((lst, list(lst), None))
            s.append_steps(lst)
            m.extend(op[2])
        elif op[0] == 'own':
            if len(m) <= 40:
                s.append_steps(list(s.steps))
                m.extend(list(m))
        elif op[0] == 'zero':
            lst = [pool[i] for i in op[2]]
            z = timedelta() if op[3] == 'td' else 0
            raises(UserConfigError, s.append_steps, lst, z, **({'time_unit': 's'} if op[3] == 's' else {}))
        elif op[0] == 'loop':
            ids = op[2] if isinstance(op[2], list) else [op[2]]
            per = sum(secs[i] for i in ids)
            arg = [pool[i] for i in ids] if isinstance(op[2], list) else pool[op[2]]
            unit = None if op[4] == 'td' else op[4]
            total = max(1, round((per or 3600) * op[3][1]))  # whole seconds
            if unit:
                total = {'h': 3600, 'd': 86400}.get(unit, 1) * max(1, round(total / {'h': 3600, 'd': 86400}.get(unit, 1)))
                dur = total / (W.UNIT_US[unit] / 1e6)
                dur = int(dur) if dur == int(dur) else dur
            else:
                dur = timedelta(seconds=total)
            if per == 0:
                raises(UserConfigError, s.append_steps, arg, dur, **({'time_unit': unit} if unit else {}))
                verify()
                continue
            n = -(-total // per)
            if n * len(ids) > 300:
                continue
            loops += 1
            warned = False
            try:
                s.append_steps(arg, dur, **({'time_unit': unit} if unit else {}))
            except UserWarning:
                warned = True
            m.extend(ids * n)
            if (n * per) % total:
                need(warned, 'no warning although {} s is not a whole number of {} s passes', total, per)
            elif n * per == total:
                need(not warned, 'warning although {} s is {} passes of {} s', total, n, per)
        elif op[0] == 'iter':
            seen = list(s)
            need(len(seen) == len(m) and all(x is pool[i] for x, i in zip(seen, m)), 'iteration yields other steps')
            seen = [x for x in s]
            need(len(seen) == len(m), 'second iteration yields {} of {} steps', len(seen), len(m))
        elif op[0] == 'part':
            for k, x in enumerate(s):
                need(x is pool[m[k]], 'iteration yields other steps')
                if k >= op[2]:
                    break
        elif op[0] == 'both':
            # two iterations at once, each has to give all steps
            its, seen = [iter(s), iter(s)], [[], []]
            try:
                for k in [*map(int, op[2]), *[0] * len(m), *[1] * len(m)]:
                    if len(seen[k]) < len(m):
                        seen[k].append(next(its[k]))
            except (StopIteration, AttributeError):
                pass
            if not all(len(g) == len(m) and all(x is pool[i] for x, i in zip(g, m)) for g in seen):
                need(its[0] is its[1], 'iterations at once yield {} of {} steps', [len(g) for g in seen], len(m))
                known('two-iterations')
        need_ = {}
        for i in m:
            if c['pool'][i][0] == 'm':
                for p, q in c['pool'][i][1].items():
                    need_[p] = max(need_.get(p, 0), q)
        need(s.calc_samples_needed() == need_, 'samples needed {} instead of {}', s.calc_samples_needed(), need_)
        verify()
    return ok(loops or len(c['ops']) >= 3, *(['loop'] if loops else []), f'ops {len(c["ops"])}')


SUBS = [Sub('ops', cases(), check, 4000)]
