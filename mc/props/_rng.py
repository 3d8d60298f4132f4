"""Puts the global random functions of numpy under the control of a chooser."""
import contextlib
import itertools
import math

import numpy as np


def _size(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


class Control:
    """choice: with replacement every index tuple, without replacement every subset in
    ascending and descending order; uniform: the lower end, two inner points and a point
    just below the upper end."""
    def __init__(self, chooser, orders=True):
        self.ch, self.orders, self.calls = chooser, orders, 0

    def choice(self, a, size=None, replace=True, p=None):
        self.calls += 1
        pool = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
        n = len(pool)
        sh = _size(size)
        k = 1 if sh is None else int(np.prod(sh))
        if replace:
            ind = [(j + self.ch.choose(n, 'draw')) % n for j in range(k)]      # default: every index once
        else:
            if k > n:
                raise ValueError('Cannot take a larger sample than population when replace is False')
            if math.comb(n, k) > 50:
                c = self.ch.choose(2, 'subset')
                ind = list(range(k)) if c == 0 else list(range(n - k, n))[::-1]
            else:
                subs = list(itertools.combinations(range(n), k))
                ind = list(subs[self.ch.choose(len(subs), 'subset')])
            if self.orders and k > 1 and self.ch.choose(2, 'order'):
                ind = ind[::-1]
        out = pool[ind]
        return out[0] if sh is None else out.reshape(sh + pool.shape[1:])

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls += 1
        fr = [0.5, 0.0, 0.11, 1.0 - 2.0 ** -53]
        lo, hi = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        sh = _size(size)
        if sh is None and lo.ndim == 0 and hi.ndim == 0:
            return float(lo + (hi - lo) * fr[self.ch.choose(4, 'uniform')])
        shape = np.broadcast_shapes(lo.shape, hi.shape) if sh is None else sh
        f = np.array([fr[self.ch.choose(4, 'uniform')] for _ in range(int(np.prod(shape)))]).reshape(shape)
        return lo + (hi - lo) * f

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        sh = _size(size)
        k = 1 if sh is None else int(np.prod(sh))
        v = [int(low) + self.ch.choose(int(high) - int(low), 'draw') for _ in range(k)]
        return v[0] if sh is None else np.array(v, dtype=dtype).reshape(sh)

    def permutation(self, x):
        pool = np.arange(int(x)) if np.ndim(x) == 0 else np.asarray(x)
        return pool[::-1].copy() if self.ch.choose(2, 'order') else pool.copy()


@contextlib.contextmanager
def controlled(chooser, orders=True):
    c = Control(chooser, orders)
    names = ['choice', 'uniform', 'rand', 'randint', 'permutation']
    old = {n: getattr(np.random, n) for n in names}
    try:
        for n in names:
            setattr(np.random, n, getattr(c, n))
        yield c
    finally:
        for n in names:
            setattr(np.random, n, old[n])
