"""C23: logger configuration replaces handlers of the same kind and nothing else."""
import io
import logging
import logging.handlers
import os
import shutil
import sys
import tempfile

import base
from base import Sub, need, ok
from hypothesis import strategies as st

RULE = ('Generated sequences of logger configuration calls (level, stream handler and file handler in any combination, '
        'plain and derived handler classes, handlers with their own level, handlers passed again) interleaved with logged '
        'messages of generated severity and simulated tests, starting from the default set-up, against a model holding one '
        'stream handler, one file handler and a level; after each operation every handler ever used holds exactly the '
        'messages that the model says. Non-trivial: at least one handler is replaced.')

LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
handler = st.fixed_dictionaries({'sub': st.booleans(), 'level': st.sampled_from([0, *LEVELS]), 'again': st.booleans()})
op = st.one_of(
    st.fixed_dictionaries({'op': st.just('conf'), 'level': st.one_of(st.none(), st.sampled_from([*LEVELS, 15])),
                           'stream': st.one_of(st.none(), handler), 'file': st.one_of(st.none(), handler)}),
    st.fixed_dictionaries({'op': st.just('log'), 'level': st.sampled_from(LEVELS)}),
    st.just({'op': 'sim'}),
)

class Other(logging.Handler):
    """Neither a stream nor a file handler."""

    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


CASES = st.fixed_dictionaries({'other': st.booleans(), 'ops': st.lists(op, min_size=1, max_size=9), 'nofile': st.booleans()})


def check(c):
    import gerabaldi
    import gerabaldi.models as M
    from gerabaldi.helpers import configure_logger
    from datetime import timedelta

    log = logging.getLogger('gerabaldi')
    saved, saved_level, saved_err, saved_prop = list(log.handlers), log.level, sys.stderr, log.propagate
    tmp = tempfile.mkdtemp(prefix='vp-')
    sys.stderr = err = io.StringIO()
    made = []
    try:
        log.setLevel(logging.DEBUG)
        log.propagate = False
        need(base.INITIAL_LEVEL <= logging.DEBUG, 'without configuration messages up to level {} are lost', base.INITIAL_LEVEL - 1)
        need(len(saved) == 1 and isinstance(saved[0], logging.StreamHandler) and saved[0].level == logging.INFO,
             'default set-up is not a single stream handler at level INFO: {}', saved)
        # Model: (handler, how to read it, messages expected)
        default = {'h': saved[0], 'level': logging.INFO, 'read': err.getvalue, 'msgs': [], 'kind': 'stream'}
        cur, known = {'stream': default, 'file': None}, [default]
        level, count, replaced = logging.DEBUG, 0, 0
        dev = M.DeviceMdl(M.DegPrmMdl({'m': M.DegMechMdl(time_unit='h')}, prm_name='p'))
        test = M.TestSpec([M.StrsSpec({'temp': 300}, timedelta(hours=1)), M.MeasSpec({'p': 1}, {'temp': 300})], name='SimT')

        if c['other']:  # a handler of another kind, added by the user, is none of the configuration's business
            h = Other()
            log.addHandler(h)
            made.append(h)
            cur['other'] = {'h': h, 'level': 0, 'read': lambda: '\n'.join(h.got), 'msgs': [], 'kind': 'other'}
            known.append(cur['other'])

        def new(kind, s):
            if s['again'] and [e for e in known if e['kind'] == kind and e is not default]:
                return [e for e in known if e['kind'] == kind and e is not default][-1]
            if kind == 'stream':
                buf = io.StringIO()
                cls = type('Mine', (logging.StreamHandler,), {}) if s['sub'] else logging.StreamHandler
                h, read = cls(buf), buf.getvalue
            else:
                path = os.path.join(tmp, f'{len(known)}.log')
                h = logging.handlers.RotatingFileHandler(path) if s['sub'] else logging.FileHandler(path)

                def read(path=path, h=h):
                    h.flush()
                    with open(path) as f:
                        return f.read()
            h.setLevel(s['level'])
            made.append(h)
            known.append({'h': h, 'level': s['level'], 'read': read, 'msgs': [], 'kind': kind})
            return known[-1]

        def emit(text, lv):
            if lv < level:
                return
            for e in cur.values():
                if e and lv >= e['level']:
                    e['msgs'].append(text)

        for o in c['ops']:
            if o['op'] == 'conf':
                kw = {}
                if o['level'] is not None:
                    kw['logging_level'] = level = o['level']
                for kind in ('stream', 'file'):
                    if o[kind] is not None and not (kind == 'file' and c['nofile']):
                        e = new(kind, o[kind])
                        replaced += cur[kind] is not None and cur[kind] is not e
                        cur[kind] = e
                        kw[f'{kind}_handler'] = e['h']
                need(configure_logger(**kw) is None, 'configuring returned something')
            elif o['op'] == 'log':
                text = f'message-{count}-end'
                count += 1
                log.log(o['level'], text)
                emit(text, o['level'])
            else:
                before = [len(e['read']()) for e in known]
                gerabaldi.simulate(test, dev, M.PhysTestEnv())
                for e, n in zip(known, before):
                    on = any(e is x for x in cur.values()) and logging.INFO >= max(level, e['level'])
                    need((len(e['read']()) > n) == on, 'simulation progress {} reported to a {} handler',
                         'not' if on else 'wrongly', e['kind'])
            want = [e['h'] for e in cur.values() if e]
            need(len(log.handlers) == len(want) and all(h in log.handlers for h in want), 'handlers {} instead of {}',
                 log.handlers, want)
            need(log.level == level, 'level {} instead of {}', log.level, level)
            for e in known:
                need(e['h'].level == e['level'], 'level of a handler changed')
                lines = [ln for ln in e['read']().splitlines() if 'message-' in ln]
                need(len(lines) == len(e['msgs']) and all(m in ln for m, ln in zip(e['msgs'], lines)),
                     '{} handler holds {} instead of {}', e['kind'], lines, e['msgs'])
        return ok(replaced > 0)
    finally:
        for h in list(log.handlers):
            log.removeHandler(h)
        for h in saved:
            log.addHandler(h)
        for h in made:
            h.close()
        log.setLevel(saved_level)
        log.propagate = saved_prop
        sys.stderr = saved_err
        shutil.rmtree(tmp)


SUBS = [Sub('ops', CASES, check, 1500)]
