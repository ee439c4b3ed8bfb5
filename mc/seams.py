"""Observation points in the code under test (public names only)."""
import contextlib

import numpy as np

from runlmc.approx.iterative import Iterative


class Recorder:
    def __init__(self):
        self.rhs = []

    def probes(self, n):
        return [r for r in self.rhs if r.shape == (n,) and np.all(np.abs(r) == 1)]


@contextlib.contextmanager
def recorded_solves():
    """Record the right-hand sides handed to the iterative solver (in this process)."""
    rec = Recorder()
    orig = Iterative.__dict__.get('solve')
    call = Iterative.solve

    def solve(K, y, *a, **kw):
        rec.rhs.append(np.array(y, float))
        return call(K, y, *a, **kw)
    Iterative.solve = staticmethod(solve)
    try:
        yield rec
    finally:
        Iterative.solve = orig


@contextlib.contextmanager
def all_probes():
    """Every draw of fair coins of shape (2^n, n) returns all 2^n patterns."""
    used = []
    orig = np.random.randint

    def randint(low, high=None, size=None, dtype=int, **kw):
        if isinstance(size, tuple) and len(size) == 2 and size[0] == 2 ** size[1] and (low, high) in ((0, 2), (2, None)):
            used.append(size)
            n = size[1]
            return np.array([[(i >> j) & 1 for j in range(n)] for i in range(2 ** n)], dtype=dtype)
        return orig(low, high, size, dtype, **kw)
    np.random.randint = randint
    try:
        yield used
    finally:
        np.random.randint = orig
