"""C16: spectral helpers bound and factor correctly."""
import itertools

import numpy as np
import scipy.linalg as la

from runlmc.approx.interpolation import interp_cubic, interp_bicubic
from runlmc.approx.ski import SKI
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.shur import shur
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.util.numpy_convenience import smallest_eig

ID = 'C16'
BOUNDS = ('every symmetric Toeplitz top row over a 7-letter alphabet up to length 5 (quick: 4 beyond a 5-letter alphabet) plus decaying, '
          'alternating and near-singular rows up to length 33; every pair/triple of a pool of positive semidefinite parts under Kronecker, '
          'sum, block (with every sign pattern of the off-diagonal blocks that keeps the matrix positive semidefinite), interpolation by '
          'every small sample set, and two levels of nesting; a ladder of up to 12 summands, 8 x 8 blocks, orders up to 129 (257) in units 1e-9, 1, 1e9; orders 260-600 (1000) with correlations as long as the grid')
ASSUMPTIONS = ['off-diagonal blocks of a block matrix are scaled Toeplitz, identity or nonnegative diagonal matrices',
               'bounds are compared up to 1e-9 relative rounding; factors of matrices with smallest eigenvalue above 1e-6 of the largest']


def top_of(row):
    return np.array([float(v) for v in row])


def check_bound(x, what, M, dense=None):
    A = M.as_numpy() if dense is None else dense
    e = la.eigvalsh((A + A.T) / 2)
    if e[0] < -1e-9 * abs(e[-1]):
        return
    x.op()
    b = M.upper_eig_bound()
    x.check(np.ndim(b) == 0 and np.isfinite(b), what + ': bound is a finite number')
    x.check(b >= e[-1] - 1e-9 * abs(e[-1]) - 1e-15, lambda: '%s: bound %r below the largest eigenvalue %r' % (what, b, e[-1]))
    again = M.upper_eig_bound()
    x.check(again == b, what + ': bound differs when asked twice')


def toep(case, x):
    for row in case['rows']:
        top = top_of(row)
        keep = top.copy()
        A = np.array([[top[abs(i - j)] for j in range(len(top))] for i in range(len(top))])
        e = np.linalg.eigvalsh(A)
        scale = max(abs(e[0]), abs(e[-1]), 1e-300)
        what = 'Toeplitz %s' % (row,)
        x.op()
        x.close(what + ': smallest eigenvalue', smallest_eig(top), e[0], 1e-9, 1e-10 * scale)
        x.check(np.array_equal(top, keep), what + ': argument changed')
        if e[0] >= -1e-12 * scale:
            check_bound(x, what, Toeplitz(top), A)
        if e[0] > 1e-6 * scale:
            C = shur(top)
            x.op()
            x.check(np.shape(C) == A.shape and not np.any(np.tril(C, -1)), what + ': factor is upper triangular')
            x.close(what + ': factor', np.dot(C.T, C), A, 1e-9, 1e-9 * scale)
            x.check(np.array_equal(top, keep), what + ': argument changed by factoring')
        x.state(row)


def parts():
    ps = {}
    for i, t in enumerate(([1.], [2., 1.], [1., -1.], [1., 0., 0.], [3., 2., 1.], [2., -1., 0.], [1., .5, .25, .125], [4., 0., -2., 0.],
                           [0., 0.])):
        ps['T%d' % i] = (Toeplitz(top_of(t)), la.toeplitz(t))
    for i, d in enumerate(([2.], [1., 3.], [0., 0.], [3., 0., 1.], [1., 2., 3., .5])):
        ps['D%d' % i] = (Diag(np.array(d)), np.diag(d))
    for n in (1, 2, 3, 4):
        ps['I%d' % n] = (Identity(n), np.eye(n))
    return ps


def combos(ps):
    """Every pair/triple of parts under every combinator."""
    names = sorted(ps)
    for a, b in itertools.product(names, repeat=2):
        A, B = ps[a], ps[b]
        yield 'kron(%s,%s)' % (a, b), Kronecker(A[0], B[0]), np.kron(A[1], B[1])
    for n in (1, 2, 3):
        for t in itertools.product(names, repeat=n):
            if len({ps[k][1].shape for k in t}) == 1:
                yield 'sum%s' % (t,), SumMatrix([ps[k][0] for k in t]), sum(ps[k][1] for k in t)
    for t in itertools.combinations_with_replacement(names, 2):
        if len({ps[k][1].shape for k in t}) == 1:
            for o in names:
                if ps[o][1].shape == ps[t[0]][1].shape:
                    yield ('block(%s,%s;%s)' % (t + (o,)), SymmSquareBlockMatrix(np.array([[ps[t[0]][0], ps[o][0]], [ps[o][0], ps[t[1]][0]]])),
                           np.block([[ps[t[0]][1], ps[o][1]], [ps[o][1], ps[t[1]][1]]]))
    for a in names:
        yield 'block(%s)' % a, SymmSquareBlockMatrix(np.array([[ps[a][0]]])), ps[a][1]


def nest(case, x):
    ps = parts()
    for what, M, A in combos(ps):
        check_bound(x, what, M, A)
        x.state(what)


def nest2(case, x):
    """Combinators of combinators."""
    ps = parts()
    level1 = [c for c in combos({k: ps[k] for k in case['names']})]
    for i, (w, M, A) in enumerate(level1):
        for k in case['names']:
            check_bound(x, 'kron(%s,%s)' % (w, k), Kronecker(M, ps[k][0]), np.kron(A, ps[k][1]))
        for w2, M2, A2 in level1[:i + 1]:
            if A2.shape == A.shape:
                check_bound(x, 'sum(%s,%s)' % (w, w2), SumMatrix([M, M2]), A + A2)
        check_bound(x, 'block(%s)' % w, SymmSquareBlockMatrix(np.array([[SumMatrix([M, M]), M], [M, M]])), np.block([[2 * A, A], [A, A]]))
        x.state(w)


def blocks(case, x):
    """The shape used by coregionalized kernels: B[i,j] times a Toeplitz matrix, with entries of either sign."""
    t = top_of(case['top'])
    T = la.toeplitz(t)
    for a in itertools.product(case['alpha'], repeat=case['D']):
        a = np.array(a)
        for kappa in (0., 1.):
            B = np.outer(a, a) + kappa * np.eye(len(a))
            M = SymmSquareBlockMatrix(np.array([[Toeplitz(B[i, j] * t) for j in range(len(a))] for i in range(len(a))]))
            check_bound(x, 'block %s kappa %s' % (a, kappa), M, np.kron(B, T))
            x.state(case, list(a), kappa)


def ski(case, x):
    n = case['n']
    grid = np.linspace(0, 1, n)
    inner = dict(toep=lambda: Toeplitz(np.exp(-np.arange(n) / case['ls'])),
                 neg=lambda: Toeplitz(np.where(np.arange(n) == 0, 1., np.where(np.arange(n) == 1, -.5, 0.))),
                 one=lambda: Toeplitz(np.ones(n)), diag=lambda: Diag(np.arange(n) + 1.), id=lambda: Identity(n),
                 sum=lambda: SumMatrix([Toeplitz(np.ones(n)), Identity(n)]))
    for kind in sorted(inner):
        K = inner[kind]()
        for s in case['samples']:
            W = interp_cubic(grid, np.array(s))
            x.op()
            M = SKI(K, W, W.transpose().tocsr())
            Wd = W.toarray()
            check_bound(x, 'interpolated %s at %s' % (kind, s), M, Wd.dot(K.as_numpy()).dot(Wd.T))
            # sums and products built on the interpolated matrix
            check_bound(x, 'noise + interpolated %s at %s' % (kind, s), SumMatrix([M, Diag(np.full(len(s), .25))]),
                        Wd.dot(K.as_numpy()).dot(Wd.T) + .25 * np.eye(len(s)))
            x.state(n, kind, s)


def ski2(case, x):
    gx, gy = np.linspace(0, 1, 4), np.linspace(0, 2, 5)
    pts = list(itertools.product((0., .4, 1.1), (-.1, 1.3)))
    K = Kronecker(Toeplitz(np.array([2., 1., .5, .25])), Toeplitz(np.array([1., .9, .8, .7, .6])))
    for r in range(1, 5):
        for s in itertools.combinations(pts, r):
            W = interp_bicubic(gx, gy, np.array(s))
            Wd = W.toarray()
            check_bound(x, 'bicubic interpolated at %s' % (s,), SKI(K, W, W.transpose().tocsr()), Wd.dot(K.as_numpy()).dot(Wd.T))
            x.state(s)


def big(case, x):
    """Orders, numbers of parts and units beyond the exhaustive pools."""
    u = case['u']

    def t(n, k):
        i = np.arange(n)
        return u * [np.exp(-i / 4.), np.where(i == 0, 2., (-1.) ** i * np.exp(-i / 2.)), np.ones(n), np.where(i == 0, 1., np.where(i == 1, -.5, 0))][k % 4]
    if case['what'] == 'diag':
        for n in (5, 7, 8, 16, 33, 64, 100):
            for j in range(n):
                d = u * (0.1 + 0.01 * np.cos(np.arange(n)))
                d[j] = 3 * u
                check_bound(x, 'diagonal of order %d, largest at %d' % (n, j), Diag(d), np.diag(d))
            x.state(n, u)
    elif case['what'] == 'sum':
        for n in range(1, 13):
            for o in (1, 2, 6, 9):
                for k in range(4):
                    tops = [t(o, k + (j if k % 2 else 0)) * (1 + j) for j in range(n)]
                    check_bound(x, 'sum of %d Toeplitz of order %d' % (n, o), SumMatrix([Toeplitz(v) for v in tops]), la.toeplitz(sum(tops)))
                    check_bound(x, 'sum of %d mixed of order %d' % (n, o), SumMatrix([Toeplitz(v) if j % 2 else Diag(v.copy() ** 2 / u)
                                                                                      for j, v in enumerate(tops)]),
                                sum(la.toeplitz(v) if j % 2 else np.diag(v ** 2 / u) for j, v in enumerate(tops)))
            x.state(n, u)
    elif case['what'] == 'block':
        for D in (3, 4, 5, 6, 8):
            for o in (1, 3, 5):
                for k in range(4):
                    top = t(o, k)
                    for a in (np.ones(D), np.cos(np.arange(D) * 2.), np.where(np.arange(D) == D - 1, 3., .1), -np.ones(D)):
                        for kap in (0., .5):
                            B = np.outer(a, a) + kap * np.eye(D)
                            M = SymmSquareBlockMatrix(np.array([[Toeplitz(B[i, j] * top) for j in range(D)] for i in range(D)]))
                            check_bound(x, 'block %d of order %d' % (D, o), M, np.kron(B, la.toeplitz(top)))
            x.state(D, u)
    elif case['what'] == 'kron':
        for a, b, k, l in itertools.product((1, 2, 5, 12, 20), (1, 3, 8, 17), range(4), range(4)):
            A, B = t(a, k), t(b, l) / u
            check_bound(x, 'Kronecker product of orders %d, %d' % (a, b), Kronecker(Toeplitz(A), Toeplitz(B)), np.kron(la.toeplitz(A), la.toeplitz(B)))
            M = Kronecker(Kronecker(Toeplitz(A), Diag(np.array([.5, 2.]))), Toeplitz(B))
            if a * b < 80:
                check_bound(x, 'triple Kronecker product', M, np.kron(np.kron(la.toeplitz(A), np.diag([.5, 2.])), la.toeplitz(B)))
            x.state(a, b, k, l, u)
    else:
        for m, n in itertools.product((9, 16, 33), (1, 8, 13, 40)):
            g = np.linspace(0, 1, m)
            for s in (np.linspace(-.1, 1.1, n), np.full(n, .37), g[np.arange(n) % m]):
                W = interp_cubic(g, np.array(s))
                Wd = W.toarray()
                for k in range(4):
                    K = Toeplitz(t(m, k))
                    check_bound(x, 'interpolated %d at %d points' % (m, n), SKI(K, W, W.transpose().tocsr()), Wd.dot(K.as_numpy()).dot(Wd.T))
            x.state(m, n, u)


def long(case, x):
    n = case['n']
    i = np.arange(n)
    l = n / case['div']
    top = dict(exp=np.exp(-i / l), gauss=np.exp(-.5 * (i / l) ** 2), one=1. * (i < 1) + 1., alt=(-1.) ** i * np.exp(-i / l))[case['top']]
    what = 'Toeplitz %s of order %d' % (case['top'], n)
    A = la.toeplitz(top)
    check_bound(x, what, Toeplitz(top), A)
    if case['div'] == 4:
        d = np.where(i == n - 3, 5., .1)
        check_bound(x, what + ' plus diagonal', SumMatrix([Toeplitz(top), Diag(d)]), A + np.diag(d))
        x.close(what + ': smallest eigenvalue', smallest_eig(top), np.linalg.eigvalsh(A)[0], 1e-9, 1e-10 * n)
    x.state(case)


def run(case, x):
    dict(long=long, big=big, toep=toep, nest=nest, nest2=nest2, blocks=blocks, ski=ski, ski2=ski2)[case['kind']](case, x)


def chunk(it, n):
    it = list(it)
    for i in range(0, len(it), n):
        yield it[i:i + n]


def cases(tier, engine):
    th = tier == 'thorough'
    A7 = (0., .25, -.25, .5, -.5, 1., -1.)
    A5 = (0., .25, -.5, .75, -1.)
    for head in (1., 3.) if th else (1.,):
        rows = [[head] + list(r) for n in range(4) for r in itertools.product(A7, repeat=n)]
        rows += [[head] + list(r) for n in ((4, 5) if th else (4,)) for r in itertools.product(A7 if th and n == 4 else A5, repeat=n)]
        for c in chunk(rows, 64):
            yield dict(kind='toep', rows=c)
    rows = [[0.], [0., 0.], [-1.], [-1., .5], [0., 1.], [1e-8, 1e-9], [1e8, 1e7, 1e6], [2., 1.999]]
    for n in range(2, 34 if th else 20):
        i = np.arange(n)
        rows += [list(np.exp(-i / 3.)), list(np.where(i == 0, 2., (-1.) ** i * np.exp(-i / 2.))), list(np.exp(-.5 * (i / .7) ** 2)),
                 list(np.where(i == n - 1, .9, i == 0)), list(1. / (1 + i)), list(np.cos(i) + (i == 0))]
    for c in chunk(rows, 16):
        yield dict(kind='toep', rows=c)
    yield dict(kind='nest')
    names = sorted(parts())
    for t in itertools.combinations(names, 3 if th else 2):
        yield dict(kind='nest2', names=list(t))
    for D in (1, 2, 3):
        for top in ([1.], [1., -.5], [1., .8, .6], [2., -1., 0., 0.], [1., 1., 1.]):
            yield dict(kind='blocks', D=D, top=top, alpha=[0., 1., -1., 2., -.5] if D < 3 or th else [0., 1., -2.])
    pts = (-.3, 0., .1, .34, .5, .5, .97, 1., 1.2)
    for n in (4, 5, 6):
        sets = [list(s) for r in range(1, 5 if th else 4) for s in itertools.combinations(pts, r)] + [[.4] * 7, [.11, .12, .13, .14, .15, .16]]
        for ls in (.5, 3.) if th else (3.,):
            for c in chunk(sets, 24):
                yield dict(kind='ski', n=n, ls=ls, samples=c)
    yield dict(kind='ski2')
    for u in (1., 1e-9, 1e9):
        for what in ('diag', 'sum', 'block', 'kron', 'ski'):
            yield dict(kind='big', what=what, u=u)
    rows = []
    for n in (40, 64, 65, 100, 129) + ((200, 257) if th else ()):
        i = np.arange(n)
        for u in (1., 1e-9, 1e9):
            rows += [list(u * np.exp(-i / 3.)), list(u * np.where(i == 0, 2., (-1.) ** i * np.exp(-i / 2.))), list(u / (1 + i)),
                     list(u * np.where(i == n - 1, .9, i == 0)), list(u * (np.cos(i) + (i == 0)))]
    for c in chunk(rows, 6):
        yield dict(kind='toep', rows=c)
    for n in (260, 400, 600) + ((1000,) if th else ()):      # correlations as long as the grid
        for div in (1, 4, 16):
            for kind in ('exp', 'gauss', 'one', 'alt'):
                yield dict(kind='long', n=n, div=div, top=kind)
