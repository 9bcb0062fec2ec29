"""Random variables that hand out recognisable codes instead of random draws, so that it can be read off a composed value
which draw of which layer went into it, and reference values for layered variation models.

Offset models: a layer's n-th draw is n * BASE[layer], and sums of one draw per layer are decoded by digit position.
Scaling models: a layer's draws are distinct primes from disjoint ranges, and products are decoded by factorisation."""
import numpy as np
from hypothesis import reject

from base import need

LAYERS = ('dev', 'chp', 'top')  # top: lot for latents, batch for environmental conditions
BASE = {'top': 1, 'chp': 2**11, 'dev': 2**22}
LIMIT = 2**11


def _primes(n):
    sieve = np.ones(n, dtype=bool)
    sieve[:3] = False
    sieve[4::2] = False
    for i in range(3, int(n**0.5) + 1, 2):
        if sieve[i]:
            sieve[i * i::2 * i] = False
    return [int(p) for p in np.flatnonzero(sieve)]


PRIMES = _primes(20000)  # odd primes only, so that powers of two may be used as base values
RANGES = {'top': (0, 400), 'chp': (400, 1000), 'dev': (1000, 2200)}


def coded(layer, kind, skip=0):
    """A random variable whose draws are the layer's codes; 'skip' sets where in the code list it starts."""
    import gerabaldi.models as M

    class Coded(M.RandomVar):
        def __init__(self):
            self.name = None
            self._dist_type = 'coded'
            self.pos = skip

        def sample(self, quantity=1):
            n = int(np.prod(quantity))
            first = self.pos
            self.pos += n
            if kind == 'offset':
                if self.pos >= LIMIT - 1:
                    reject()  # out of codes
                out = BASE[layer] * np.arange(first + 1, first + n + 1, dtype=float)
            else:
                a, b = RANGES[layer]
                if a + self.pos > b:
                    reject()
                out = np.array(PRIMES[a + first:a + self.pos], dtype=float)
            return out.reshape(quantity)

    return Coded()


_WHERE = {p: (layer, i - a) for layer, (a, b) in RANGES.items() for i, p in enumerate(PRIMES[:b]) if i >= a}


def decode(v, base, kind):
    """Composed value -> {layer: draw number or None if the layer did not contribute}."""
    out = {k: None for k in LAYERS}
    if kind == 'offset':
        r = float(v) - base
        n = int(round(r))
        need(abs(r - n) < 1e-3 and 0 <= n < 2**33, 'value {!r} is not a sum of base {!r} and one draw per layer', v, base)
        for layer in LAYERS:
            d = n // BASE[layer] % LIMIT
            out[layer] = d if d else None
        return out
    r = float(v) / base
    n = int(round(r))
    need(abs(r - n) < 1e-6 * max(1, n) and n >= 1, 'value {!r} is not a product of base {!r} and one draw per layer', v, base)
    for p in factor(n):
        need(p in _WHERE, 'value {!r} is not a product of base {!r} and one draw per layer', v, base)
        layer, i = _WHERE[p]
        need(out[layer] is None, 'value {!r} holds two draws of the {} layer', v, layer)
        out[layer] = i + 1
    return out


def factor(n):
    out, i = [], 2
    for p in [2, *PRIMES]:
        if p * p > n:
            break
        while n % p == 0:
            out.append(p)
            n //= p
    if n > 1:
        out.append(n)
    return out


def check_layers(arr, base, kind, present, shape):
    """A lot x chip x device array holds one draw per lot (batch: one draw in total), chip and device from the given
    layers, shared by everything below it and by nothing else. Returns the draws per layer keyed by position."""
    arr = np.asarray(arr)
    need(arr.shape == tuple(shape), 'shape {} instead of {}', arr.shape, tuple(shape))
    seen = {k: {} for k in LAYERS}
    for idx in np.ndindex(arr.shape):
        d = decode(arr[idx], base, kind)
        for layer in LAYERS:
            need((d[layer] is not None) == (layer in present), 'sample {}: {} layer {} in value {!r}', idx, layer,
                 'missing' if layer in present else 'unexpected', arr[idx])
        seen['dev'][idx] = d['dev']
        for layer, key in (('chp', idx[:2]), ('top', idx[:1])):
            need(seen[layer].setdefault(key, d[layer]) == d[layer], 'samples of {} {} do not share one {} draw',
                 'lot and chip' if layer == 'chp' else 'lot', key, layer)
    return seen


def distinct(draws, what):
    draws = list(draws)
    need(len(set(draws)) == len(draws), '{} share a draw: {}', what, sorted(draws))


def sizes(d, keys=('num_lots', 'num_chps', 'num_devs')):
    """Population sizes as arguments; a size of one is the default and can be left out."""
    return {k: n for k, n in zip(keys, d) if n != 1}
