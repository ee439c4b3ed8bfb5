"""C11: the iterative solver solves, terminates and reports honestly."""
import itertools
import logging

import numpy as np

from mc import models
from runlmc.approx.iterative import Iterative
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.toeplitz import Toeplitz

ID = 'C11'
BOUNDS = ('every multiset of eigenvalues of size 1..4 (5 thorough) over {1e-7, 0.4, 1, 7, 900} in a diagonal and a rotated basis, every '
          'order in {99,100,101,150,200,201,260} for the early termination points with four spectra, a well-conditioned one of order 400 needing more than 100 iterations; Toeplitz and model covariances; '
          'indefinite, singular and non-symmetric operators as faults; right-hand sides {zero, unit vectors, ones, eigenvector, huge, tiny, '
          'integer, read-only, non-contiguous}; both methods; tolerances {1e-1,1e-2,1e-4,1e-8,1e-12}; verbose or not; each solve repeated '
          'after all others')
ASSUMPTIONS = ['solved-to-tolerance is required for condition numbers up to 1e4 and tolerances no finer than 1e-4 of the right-hand side']


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(logging.CRITICAL)
        self.n = 0

    def emit(self, record):
        self.n += 1


def rotation(n):
    v = np.sin(1.3 * np.arange(n) + 0.4) + 1.1
    v /= np.sqrt(v.dot(v))
    return np.eye(n) - 2 * np.outer(v, v)


def dense_of(case):
    k = case['op']
    if k == 'eig':
        w = np.array(case['eig'], float)
        if case.get('rot'):
            Q = rotation(len(w))
            A = (Q * w).dot(Q.T)
            return (A + A.T) / 2
        return np.diag(w)
    if k == 'spec':
        n = case['n']
        t = np.arange(n) / (n - 1.0)
        w = {'lin': 1 + 99 * t, 'geo': 10.0 ** (4 * t), 'hard': 10.0 ** (9 * t - 5), 'two': np.where(t < .5, 1.0, 50.0),
             'mid': 400.0 ** t}[case['sp']]
        Q = rotation(n)
        A = (Q * w).dot(Q.T)
        return (A + A.T) / 2
    if k == 'kms':
        i = np.arange(case['n'])
        return 0.6 ** np.abs(i[:, None] - i[None, :])
    if k == 'nonsym':
        A = np.diag(np.arange(1.0, case['n'] + 1))
        A[0, -1] += 5
        return A
    raise KeyError(k)


def rhs_of(kind, A):
    n = len(A)
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'ones':
        return np.ones(n)
    if kind == 'first':
        return np.eye(n)[0]
    if kind == 'last':
        return np.eye(n)[-1]
    if kind == 'wave':
        return np.cos(1.1 * np.arange(n)) + 0.3
    if kind == 'eig':
        return A.dot(np.ones(n))
    if kind == 'big':
        return 100 * (np.cos(1.1 * np.arange(n)) + 0.3)
    if kind == 'huge':
        return 1e6 * (np.cos(1.7 * np.arange(n)) + 0.2)
    if kind == 'tiny':
        return 1e-9 * (np.cos(1.7 * np.arange(n)) + 0.2)
    if kind == 'int':
        return (np.arange(n) % 3 - 1).astype(int) * 2 + 1
    if kind == 'ro':
        y = np.sin(np.arange(n) + 1.0)
        y.flags.writeable = False
        return y
    if kind == 'strided':
        return np.repeat(np.sin(np.arange(n) + 1.0), 2)[::2]
    raise KeyError(kind)


def one(x, case, A, K, y, method, tol, count, what):
    catch = Catch()
    root = logging.getLogger()
    root.addHandler(catch)
    n = len(A)
    y0 = np.array(y)
    try:
        count[0] = 0
        x.op()
        r = Iterative.solve(K, y, verbose=True, minres=method, tol=tol)
        mv = count[0]
        crit = catch.n
        catch.n = 0
        plain = Iterative.solve(K, y, minres=method, tol=tol)
        crit2 = catch.n
    finally:
        root.removeHandler(catch)
    x.check(len(r) == 3, what + ': verbose form')
    s, it, err = r
    s = np.asarray(s)
    x.check(s.shape == (n,), lambda: '%s: shape %s' % (what, s.shape))
    x.check(np.array_equal(y, y0) and y.dtype == y0.dtype, what + ': right-hand side changed')
    x.check(np.array_equal(np.asarray(plain), s), what + ': verbose and plain solutions differ')
    res = np.sqrt(((y0 - A.dot(s)) ** 2).sum())
    slack = 1e-12 * (np.abs(A).max() * np.abs(s).sum() + np.abs(y0).max())
    x.check(abs(res - err) <= slack + 1e-6 * res, lambda: '%s: reports residual %g, true residual %g' % (what, err, res))
    x.check(it == int(it) and 0 <= it <= n, lambda: '%s: %s iterations for order %d' % (what, it, n))
    if mv:
        x.check(mv <= n + n // 100 + 4, lambda: '%s: %d products for order %d' % (what, mv, n))
        x.check(it - 3 <= mv <= it + it // 100 + 4, lambda: '%s: %d iterations but %d products' % (what, it, mv))
    if res > tol + slack:
        x.check(crit > 0, lambda: '%s: residual %g above tolerance %g not reported' % (what, res, tol))
        x.check(crit2 > 0, lambda: '%s: residual above tolerance not reported (plain form)' % what)
    if case.get('spd', True):
        w = np.linalg.eigvalsh(A)
        cond = w[-1] / w[0]
        good = case.get('easy', n <= 8 and cond <= 1e4) and (
            tol >= 1e-4 * max(1.0, np.abs(y0).max()) or case.get('easy') and tol >= 1e-9 * cond * np.sqrt((y0 ** 2.0).sum()))
        if good:
            x.check(res <= tol, lambda: '%s: residual %g exceeds %g (condition %.3g)' % (what, res, tol, cond))
        if not np.any(y0):
            x.check(not np.any(s), what + ': nonzero solution of a zero system')
        # an iterate never does worse than no solution at all
        x.check(res <= 1.000001 * np.sqrt((y0 ** 2.0).sum()) * (1 if method else np.sqrt(cond)) + slack,
                lambda: '%s: residual %g larger than that of zero' % (what, res))
    x.state(what, case)
    x.outcome(it, s)
    return s


def run(case, x):
    if case['op'] == 'model':
        spec = case['spec']
        model = models.make_model(spec)
        K = model.kernel.K
        A = np.asarray(K.as_numpy(), float)
        count = [0]
        plan_K = K
    else:
        A = dense_of(case)
        count = [0]
        B = A.copy()

        def mvp(v):
            count[0] += 1
            return B.dot(v)
        plan_K = Toeplitz(A[0].copy()) if case['op'] == 'kms' and case.get('real') else Matrix.wrap(A.shape, mvp)
    first = {}
    jobs = []
    for rk, method, tol in itertools.product(case['rhs'], (True, False), case['tol']):
        if not method and not case.get('spd', True):
            continue
        jobs.append((rk, method, tol))
    for rnd in range(2):
        for rk, method, tol in jobs if not rnd else jobs[::-3]:
            y = rhs_of(rk, A)
            what = '%s rhs=%s %s tol=%g' % (case['op'], rk, 'minres' if method else 'cg', tol)
            s = one(x, case, A, plan_K, y, method, tol, count, what)
            if rnd:
                x.check(np.array_equal(s, first[rk, method, tol]), what + ': answer depends on earlier solves')
            else:
                first[rk, method, tol] = s
    if case.get('defaults'):
        y = rhs_of('wave', A)
        s = Iterative.solve(plan_K, y)
        t = Iterative.solve(plan_K, y, minres=True, tol=1e-4)
        x.check(np.array_equal(s, t), 'defaults are MINRES with tolerance 1e-4')


RHS = ['zero', 'ones', 'first', 'last', 'wave', 'eig', 'huge', 'tiny', 'int', 'ro', 'strided']
TOL = [1e-2, 1e-4, 1e-8, 1e-12]


def cases(tier, engine):
    th = tier == 'thorough'
    vals = (1e-7, 0.4, 1.0, 7.0, 900.0)
    for n in range(1, 6 if th else 5):
        for i, eig in enumerate(itertools.combinations_with_replacement(vals, n)):
            for rot in (False, True):
                yield dict(op='eig', eig=list(eig), rot=rot, rhs=RHS if th or n < 4 else RHS[i % 2::2], tol=TOL if th else TOL[i % 2::2] + [1e-4],
                           defaults=True)
    for n in (8, 20) if not th else (8, 20, 60):
        yield dict(op='kms', n=n, rhs=RHS, tol=TOL, easy=True)
        yield dict(op='kms', n=n, rhs=RHS, tol=TOL, real=True, easy=True)
    for n in (99, 100, 101, 150, 200, 201, 260):
        for sp in ('lin', 'geo', 'hard', 'two'):
            yield dict(op='spec', n=n, sp=sp, rhs=['ones', 'wave', 'huge', 'zero'] if th else ['wave', 'zero'],
                       tol=[1e-1, 1e-2, 1e-4, 1e-8] if th else [1e-1, 1e-4], easy=sp in ('lin', 'two'))
    for n in (300, 400, 450) if th else (400,):
        # well-conditioned, but takes more than 100 iterations
        yield dict(op='spec', n=n, sp='mid', rhs=['wave', 'big', 'ones'], tol=[1e-1, 1e-2, 1e-4], easy=True)
    # faults: operators the method is not made for must still be reported honestly
    for n in (2, 3, 5):
        yield dict(op='nonsym', n=n, spd=False, rhs=RHS, tol=TOL)
        for eig in itertools.product((-1.0, 0.0, 2.0), repeat=n) if n < 5 else []:
            yield dict(op='eig', eig=list(eig), rot=True, spd=False, rhs=['ones', 'wave', 'zero'], tol=TOL[:2])
    base = dict(D=2, P=1, lmc=[['rbf', 1, None]], slfm=[['matern32', None]], indep=[], idx=None, lens=[6, 4], m=6, par=0, data='gen')
    yield dict(op='model', spec=base, rhs=RHS, tol=TOL, easy=True)
    yield dict(op='model', spec=dict(base, lmc=[], indep=[['rbf', None]], idx=[1]), rhs=RHS, tol=TOL, easy=True)
