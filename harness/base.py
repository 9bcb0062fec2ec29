"""Shared pieces of the checks."""
from hypothesis import reject
from hypothesis import strategies as st


KNOWN = {}  # key -> text of the listed (recorded, unrepaired) findings of the property being checked
INITIAL_LEVEL = None  # level of the package's logger right after import
SEEN = set()  # keys of the listed findings that were met


def known(key):
    """Called where exactly the described unrepaired defect shows: a violation unless known-findings.txt lists it."""
    if key not in KNOWN:
        raise AssertionError(f'unlisted finding: {key}')
    SEEN.add(key)


class Sub:
    """One executable sub-check: cases are drawn from 'strategy' and judged by 'fn' (raises on a violation)."""

    def __init__(self, name, strategy, fn, quick, thorough=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.counts = {'quick': quick, 'thorough': quick * 12 if thorough is None else thorough}


def ok(nontrivial=True, *labels):
    return {'nontrivial': bool(nontrivial), 'labels': labels}


def need(cond, msg='', *args):
    if not cond:
        raise AssertionError(msg.format(*args) if args else msg)


def raises(exc, fn, *a, **k):
    """The call has to raise one of the given exception types."""
    try:
        r = fn(*a, **k)
    except exc:
        return
    raise AssertionError(f'expected {exc}, got result {r!r:.200}')


def fl(lo, hi, digits=4):
    """Floats with few significant digits, shrink towards simple values; vanishing ones are snapped to zero."""
    tiny = 1e-6 * max(abs(lo), abs(hi)) if lo <= 0 <= hi else 0.0

    def shape(x):
        x = min(hi, max(lo, float(f'%.{digits}g' % x)))
        return 0.0 if abs(x) < tiny else x

    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(shape)


def logfl(lo, hi, digits=3):
    import math

    a, b = math.log10(lo), math.log10(hi)
    return st.floats(a, b).map(lambda x: min(hi, max(lo, float(f'%.{digits}g' % 10**x))))
