#!/usr/bin/env python
"""Runs the check of one property: generated-case search with Hypothesis over forked workers.

usage: run.py <PROPERTY> [--replay FILE] [--sub NAME] [--scale X] [--workers N] [--shrink SECONDS] [--evidence DIR]
       run.py --setup
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), VERIF_REPO (default /repo).
Exit 0: no violation on anything generated; 1: violation (a VIOLATION line is printed); 2: error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = {
    'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore', 'COLUMNS': '120',
}
if __name__ == '__main__' and any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, '-W', 'ignore', *sys.argv])

import argparse
import hashlib
import importlib
import json
import re
import resource
import signal
import tempfile
import time
import traceback
import zipfile

W_DEFAULT = max(1, min(8, os.cpu_count() or 1))
CASE_CPU_S = 60.0
SHRINK_S = 40.0
MEM_BYTES = 3 << 30  # per worker, so that runaway code under test cannot exhaust the machine


def deps():
    """Makes the vendored Hypothesis importable, unpacking it if setup has not been run."""
    target = os.path.join(ROOT, '.deps')
    if not os.path.exists(os.path.join(target, '.complete')):
        os.makedirs(target, exist_ok=True)
        for whl in sorted(os.listdir(os.path.join(ROOT, 'vendor'))):
            if whl.endswith('.whl'):
                with zipfile.ZipFile(os.path.join(ROOT, 'vendor', whl)) as z:
                    z.extractall(target)
        open(os.path.join(target, '.complete'), 'w').close()
    sys.path.insert(0, target)


class CaseTimeout(Exception):
    pass


class StopRun(BaseException):
    pass


def _on_cpu_limit(signum, frame):
    raise CaseTimeout(f'case used more than {CASE_CPU_S} s of CPU time')


def norm(case):
    return json.loads(json.dumps(case))


def call(fn, case):
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return fn(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def describe(e, n):
    """The last lines of a traceback, and whether the exception could be printed at all."""
    try:
        return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-n:]), True
    except Exception:
        return ''.join(traceback.format_tb(e.__traceback__)[-n:]) + type(e).__name__, False


def run_sub(prop, sub, seed, examples, t_end):
    from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
    from hypothesis.errors import UnsatisfiedAssumption

    out = {'sub': sub.name, 'evals': 0, 'discards': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'fail': None}
    shrink_end = [None]

    def body(case):
        case = norm(case)
        now = time.monotonic()
        if out['fail'] is None and now > t_end:
            raise StopRun
        if shrink_end[0] is not None and now > shrink_end[0]:
            raise StopRun
        try:
            info = call(sub.fn, case) or {}
        except UnsatisfiedAssumption:
            out['discards'] += 1
            raise
        except Exception as e:
            if shrink_end[0] is None:
                shrink_end[0] = time.monotonic() + SHRINK_S
            text, plain = describe(e, 6)
            try:
                msg = f'{type(e).__name__}: {e}'
            except Exception:
                msg, plain = type(e).__name__, False
            out['fail'] = {'case': case, 'error': msg[:3000], 'trace': text[-4000:]}
            if not plain:  # an exception that cannot be printed would take the runner down as well
                raise AssertionError(msg[:3000]) from None
            raise
        if out['fail'] is None:
            out['evals'] += 1
            for lab in info.get('labels', ()):
                out['labels'][lab] = out['labels'].get(lab, 0) + 1
            if info.get('nontrivial', True):
                txt = json.dumps(case, sort_keys=True)
                h = hashlib.sha1(txt.encode()).hexdigest()[:16]
                if h not in out['nontrivial']:
                    out['nontrivial'].add(h)
                    if len(out['samples']) < 1 and len(txt) < 6000 and 'NaN' not in txt and 'Infinity' not in txt:
                        out['samples'].append({'sub': sub.name, 'case': case})

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=examples, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False, print_blob=False,
    )(test)
    test = hyp_seed(seed)(test)
    try:
        test()
    except StopRun:
        pass
    except Exception:
        if out['fail'] is None:
            raise
    return out


def worker(prop, mod, subs, wid, nworkers, seed, tier, scale, t_end, path):
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    resource.setrlimit(resource.RLIMIT_DATA, (MEM_BYTES, MEM_BYTES))
    sys.stdout.flush()
    import base

    res = {'outs': [], 'error': None, 'known': []}
    try:
        for sub in subs:
            total = int(sub.counts[tier] * scale)
            n = total // nworkers + (1 if wid < total % nworkers else 0)
            if n == 0:
                continue
            s = int.from_bytes(hashlib.sha256(f'{seed}/{prop}/{sub.name}/{wid}'.encode()).digest()[:8], 'big')
            o = run_sub(prop, sub, s, n, t_end)
            o['nontrivial'] = sorted(o['nontrivial'])
            res['outs'].append(o)
            if o['fail']:
                break
    except BaseException as e:
        res['error'] = describe(e, 12)[0]
    res['known'] = sorted(base.SEEN)
    with open(path, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def load(prop):
    deps()
    sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    os.chdir(tempfile.gettempdir())
    devnull = open(os.devnull, 'w')
    err, sys.stderr = sys.stderr, devnull
    try:
        import gerabaldi
    finally:
        sys.stderr = err
    import logging
    where = os.path.dirname(os.path.dirname(os.path.abspath(gerabaldi.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError(f'gerabaldi was imported from {where}, not {REPO}')
    level = logging.getLogger('gerabaldi').getEffectiveLevel()
    logging.getLogger('gerabaldi').setLevel(logging.CRITICAL)
    mod = importlib.import_module(f'checks.{prop.lower()}')
    import base

    base.INITIAL_LEVEL = level
    with open(os.path.join(ROOT, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                base.KNOWN[m.group(2)] = m.group(3)
    return mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--workers', type=int, default=W_DEFAULT)
    ap.add_argument('--shrink', type=float, default=SHRINK_S)
    ap.add_argument('--evidence', default=os.path.join(ROOT, 'evidence'))
    args = ap.parse_args()
    globals()['SHRINK_S'] = args.shrink
    ev_dir, args.replay = os.path.abspath(args.evidence), args.replay and os.path.abspath(args.replay)
    if args.setup:
        deps()
        import hypothesis
        print('hypothesis', hypothesis.__version__)
        return 0
    t0 = time.monotonic()
    prop = args.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    mod = load(prop)
    subs = [s for s in mod.SUBS if not args.sub or s.name == args.sub]

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        sub = next(s for s in mod.SUBS if s.name == rep['sub'])
        signal.signal(signal.SIGVTALRM, _on_cpu_limit)
        try:
            call(sub.fn, rep['case'])
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print(f'VIOLATION property={prop} replay={os.path.abspath(args.replay)}')
            return 1
        print('no violation with this case')
        return 0

    t_end = t0 + (420 if tier == 'quick' else 800)
    tmp = tempfile.mkdtemp(prefix='vp-')
    pids = []
    for wid in range(args.workers):
        path = os.path.join(tmp, f'{wid}.json')
        pid = os.fork()
        if pid == 0:
            worker(prop, mod, subs, wid, args.workers, seed, tier, args.scale, t_end, path)
        pids.append((pid, path))
    results, errors, seen = [], [], set()
    for pid, path in pids:
        os.waitpid(pid, 0)
        if os.path.exists(path):
            with open(path) as f:
                r = json.load(f)
            os.remove(path)
            results += r['outs']
            seen.update(r['known'])
            if r['error']:
                errors.append(r['error'])
        else:
            errors.append('worker died without a result')
    os.rmdir(tmp)

    nontrivial, evals, discards, labels, samples, per_sub = set(), 0, 0, {}, {}, {}
    for o in results:
        evals += o['evals']
        discards += o['discards']
        per_sub[o['sub']] = per_sub.get(o['sub'], 0) + o['evals']
        nontrivial.update(o['sub'] + h for h in o['nontrivial'])
        for k, v in o['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for s in o['samples']:
            samples.setdefault(s['sub'], s)
    fails = sorted((o for o in results if o['fail']), key=lambda o: len(json.dumps(o['fail']['case'])))

    os.makedirs(ev_dir, exist_ok=True)
    replay = None
    if fails:
        os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
        replay = os.path.join(ev_dir, 'replay', f'{prop}.json')
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'sub': fails[0]['sub'], **fails[0]['fail']}, f, indent=1)
    wall = round(time.monotonic() - t0, 2)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nontrivial), 'rule': mod.RULE,
            'samples': list(samples.values())[:6], 'evaluations_per_subcheck': per_sub, 'discarded': discards,
            'labels': dict(sorted(labels.items())),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'known_findings_met': sorted(seen), 'wall_s': wall, 'violations': len(fails),
    }
    with open(os.path.join(ev_dir, f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    print(f'{prop} {tier} seed={seed}: {evals} cases, {len(nontrivial)} distinct non-trivial, {discards} discarded, '
          f'{wall} s; ' + ', '.join(f'{k}={v}' for k, v in per_sub.items()))
    import base

    for key in sorted(seen):
        print(f'KNOWN-FINDING: property={prop} {base.KNOWN[key]}')
    if fails:
        f = fails[0]
        print(f'failing sub-check: {f["sub"]}\n{f["fail"]["trace"]}\ncase: {json.dumps(f["fail"]["case"])[:3000]}')
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    if errors:
        print('error of the check:\n' + errors[0])
        return 2
    if evals == 0:
        print('error of the check: nothing was evaluated')
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
