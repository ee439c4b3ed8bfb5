"""C01: structured matrices are the dense matrices their arguments define."""
import itertools
import pickle

import numpy as np
import scipy.sparse

from runlmc.approx.ski import SKI
from runlmc.linalg.block_diag import BlockDiag
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.composition import Composition
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.kronecker import Kronecker
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz

ID = 'C01'
BOUNDS = ('leaves: Toeplitz n=1..17 and around powers of two up to 257 (1025 thorough), BTTB grids of 1..3 axes '
          'with axis sizes from {1,2,3,4,5,7,8}, five value patterns; a ladder of large ones (order to 1025, five axes, 17 parts, 70 columns); every expression of depth<=2 over the leaf alphabet '
          '(depth 3 over a reduced one in thorough); full basis of operands plus ten operand layouts; all call sequences '
          'of length 3 (4) over {matvec, matmat, dense, operator, pickle}')
ASSUMPTIONS = ['products are linear in the operand, so agreement on a basis and on generic vectors decides them',
               'floating point agreement to 1e-9 relative', 'values drawn from five fixed patterns']


def vals(n, pat, off=0.0):
    i = np.arange(n)
    if pat == 'gen':
        return np.sin(1.3 * i + 0.7 + off) + 0.1 * i / (1 + i)
    if pat == 'psd':
        return np.exp(-0.37 * i) * (1 + off)
    if pat == 'int':
        return ((i * 7 + 3 + int(10 * off)) % 11 - 5).astype(np.int64)
    if pat == 'sparse':
        v = np.zeros(n)
        v[-1] = 2.5 + off
        return v
    if pat == 'big':
        return 1e7 * np.cos(2.1 * i + 0.3 + off)
    if pat == 'f32':
        return vals(n, 'gen', off).astype(np.float32)
    raise KeyError(pat)


def toep(top):
    top = np.asarray(top, float)
    n = len(top)
    return np.array([[top[abs(i - j)] for j in range(n)] for i in range(n)]).reshape(n, n)


def bttb(top, sizes):
    top = np.asarray(top, float).reshape(sizes)
    idx = np.array(list(itertools.product(*[range(s) for s in sizes])))
    diff = np.abs(idx[:, None, :] - idx[None, :, :])
    return top[tuple(diff[..., k] for k in range(len(sizes)))]


class Keep:
    """Arrays handed to constructors, to be compared afterwards."""

    def __init__(self):
        self.a = []

    def __call__(self, arr):
        self.a.append((arr, arr.copy()))
        return arr

    def intact(self, x):
        for arr, was in self.a:
            x.check(np.array_equal(np.asarray(arr), was), 'constructor argument was modified')


class MulBy:
    def __init__(self, A):
        self.A = A

    def __call__(self, v):
        return self.A.dot(v)


def build(s, keep, off=0.0):
    """spec -> (Matrix, dense array)"""
    k = s[0]
    if k == 'toep':
        top = keep(vals(s[1], s[2], off))
        return Toeplitz(top), toep(top)
    if k == 'bttb':
        sizes = tuple(s[1])
        top = keep(vals(int(np.prod(sizes)), s[2], off))
        arg = {'t': sizes, 'l': list(sizes), 'a': np.array(sizes)}[s[3] if len(s) > 3 else 't']
        return BTTB(top, arg), bttb(top, sizes)
    if k == 'diag':
        v = keep(vals(s[1], s[2], off))
        return Diag(v), np.diag(np.asarray(v, float))
    if k == 'eye':
        return Identity(s[1]), np.eye(s[1])
    if k == 'dense':
        A = vals(s[1] * s[2], s[3], off).reshape(s[1], s[2])
        if len(s) > 4 and s[4] == 'F':
            A = np.asfortranarray(A)
        elif len(s) > 4 and s[4] == 'T':
            A = np.ascontiguousarray(A.T).T
        keep(A)
        return NumpyMatrix(A), np.array(A, float)
    if k == 'wrap':
        A = vals(s[1] * s[2], 'gen', off).reshape(s[1], s[2])
        return Matrix.wrap((s[1], s[2]), MulBy(A)), A
    if k == 'kron':
        (a, A), (b, B) = build(s[1], keep, off), build(s[2], keep, off + 0.2)
        D = np.zeros((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]))
        for i in range(A.shape[0]):
            for j in range(A.shape[1]):
                D[i * B.shape[0]:(i + 1) * B.shape[0], j * B.shape[1]:(j + 1) * B.shape[1]] = A[i, j] * B
        return Kronecker(a, b), D
    if k == 'sum':
        parts = [build(e, keep, off + 0.3 * i) for i, e in enumerate(s[1:])]
        D = np.zeros(parts[0][1].shape)
        for _, d in parts:
            D = D + d
        return SumMatrix([p for p, _ in parts]), D
    if k == 'comp':
        parts = [build(e, keep, off + 0.4 * i) for i, e in enumerate(s[1:])]
        D = parts[0][1]
        for _, d in parts[1:]:
            D = D.dot(d)
        return Composition([p for p, _ in parts]), D
    if k == 'bdiag':
        parts = [build(e, keep, off + 0.5 * i) for i, e in enumerate(s[1:])]
        D = np.zeros((sum(d.shape[0] for _, d in parts), sum(d.shape[1] for _, d in parts)))
        r = c = 0
        for _, d in parts:
            D[r:r + d.shape[0], c:c + d.shape[1]] = d
            r += d.shape[0]
            c += d.shape[1]
        return BlockDiag([p for p, _ in parts]), D
    if k == 'block':
        n, e = s[1], s[2]
        obj = np.empty((n, n), dtype=object)
        den = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                m, d = build(e, keep, off + 0.1 * (i + n * j))
                obj[i, j] = obj[j, i] = m
                den[i][j] = den[j][i] = d
        return SymmSquareBlockMatrix(obj), np.vstack([np.hstack(r) for r in den])
    if k == 'same':
        # one object in several places
        m, d = build(s[3], keep, off)
        c, n = s[1], s[2]
        if c == 'sum':
            return SumMatrix([m] * n), n * d
        if c == 'comp':
            return Composition([m] * n), np.linalg.matrix_power(d, n)
        if c == 'bdiag':
            return BlockDiag([m] * n), np.kron(np.eye(n), d)
        if c == 'kron':
            return Kronecker(m, m), np.kron(d, d)
        obj = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                obj[i, j] = m
        return SymmSquareBlockMatrix(obj), np.kron(np.ones((n, n)), d)
    if k == 'ski':
        m, d = build(s[1], keep, off)
        n = d.shape[0]
        rows = s[2]
        W = np.zeros((rows, n))
        for i in range(rows):
            for t in range(min(3, n)):
                W[i, (2 * i + t) % n] += 0.5 + 0.25 * t - 0.1 * i
        Ws = scipy.sparse.csr_matrix(W)
        return SKI(m, Ws, Ws.transpose().tocsr()), W.dot(d).dot(W.T)
    raise KeyError(k)


def operands(m):
    g = np.cos(0.9 * np.arange(m) + 0.2) + 0.3
    wide = np.zeros(2 * m)
    wide[::2] = g
    ro = g.copy()
    ro.setflags(write=False)
    two = np.outer(g, np.array([1.0, -2.0, 0.5]))
    yield 'float', g
    yield 'strided', wide[::2]
    yield 'reversed', g[::-1]
    yield 'readonly', ro
    yield 'int', ((np.arange(m) * 5 + 2) % 7 - 3)
    yield 'sign', (np.arange(m) % 2) * 2 - 1
    yield 'int8', ((np.arange(m) % 2) * 2 - 1).astype(np.int8)
    yield 'float32', g.astype(np.float32)
    yield 'zero', np.zeros(m)
    yield 'column-view', two[:, 1]
    yield 'row-view', np.asfortranarray(two.T)[1]


def mats(m):
    g = np.sin(0.61 * np.arange(m * 3) + 0.4).reshape(m, 3)
    yield 'wide', g
    yield 'one', g[:, :1]
    yield 'fortran', np.asfortranarray(g)
    yield 'transposed', np.ascontiguousarray(g.T).T
    yield 'int', ((np.arange(m * 2) * 3) % 5 - 2).reshape(m, 2)
    yield 'strided', np.repeat(g, 2, axis=1)[:, ::2]
    yield 'no columns', g[:, :0]


def many(m):
    if m <= 16:
        yield 'many', np.sin(0.37 * np.arange(m * 70) + 0.4).reshape(m, 70)


def tol(D, v):
    return 1e-10 * (1 + np.abs(D).max() * max(1.0, np.abs(np.asarray(v, float)).sum()))


def same(x, what, got, D, v):
    x.op()
    single = np.asarray(v).dtype == np.float32   # may legitimately be carried out in single precision
    x.close(what, got, D.dot(np.asarray(v, float)), rtol=1e-9, atol=tol(D, v) * (1e5 if single else 1))


def run(case, x):
    keep = Keep()
    spec = case['e']
    M, D = build(spec, keep)
    x.state('expr', spec)
    x.op()
    n, m = D.shape
    x.check(tuple(M.shape) == (n, m), 'shape %s expected %s' % (M.shape, (n, m)))
    x.check(M.is_square() == (n == m), 'is_square')
    mode = case['m']
    if mode == 'big':
        for name, v in list(operands(m))[:5]:
            same(x, 'matvec(%s)' % name, M.matvec(v), D, v)
        for j in sorted({0, 1, m // 3, m // 2, m - 2, m - 1}):
            e = np.zeros(m)
            e[j] = 1
            same(x, 'matvec(e%d)' % j, M.matvec(e), D, e)
        cols = m + 3 if m <= 100 else 9
        V = np.sin(0.61 * np.arange(m * cols) + 0.4).reshape(m, cols)
        same(x, 'matmat', M.matmat(V), D, V)
        same(x, 'operator', M.as_linear_operator().matvec(V[:, 2]), D, V[:, 2])
        keep.intact(x)
        return
    if mode == 'full':
        x.close('dense form', M.as_numpy(), D, rtol=1e-9, atol=1e-11)
        same(x, 'matmat(identity)', M.matmat(np.identity(m)), D, np.identity(m))
        for j in range(m) if m <= 40 else sorted({0, 1, 2, m // 2, m - 2, m - 1}):
            e = np.zeros(m)
            e[j] = 1
            same(x, 'matvec(e%d)' % j, M.matvec(e), D, e)
        op = M.as_linear_operator()
        x.check(tuple(op.shape) == (n, m), 'operator shape')
        for name, v in operands(m):
            was = np.array(v, copy=True)
            same(x, 'matvec(%s)' % name, M.matvec(v), D, was)
            x.check(np.array_equal(v, was), 'matvec changed its operand (%s)' % name)
            same(x, 'operator(%s)' % name, op.matvec(v), D, was)
            x.check(np.array_equal(v, was), 'operator changed its operand (%s)' % name)
        for name, V in itertools.chain(mats(m), many(m)):
            was = np.array(V, copy=True)
            same(x, 'matmat(%s)' % name, M.matmat(V), D, was)
            same(x, 'operator.matmat(%s)' % name, op.matmat(V), D, was)
            x.check(np.array_equal(V, was), 'matmat changed its operand (%s)' % name)
        # the same work arrays with new contents
        w, W = np.cos(0.9 * np.arange(m) + 0.2), np.sin(0.4 * np.arange(2 * m)).reshape(m, 2)
        for f in (1, -2.5):
            w *= f
            w[m // 2] += f
            W *= f
            W[0] -= f
            same(x, 'matvec of a reused array', M.matvec(w), D, w.copy())
            same(x, 'matmat of a reused array', M.matmat(W), D, W.copy())
            same(x, 'operator on a reused array', op.matvec(w), D, w.copy())
        x.close('dense form again', M.as_numpy(), D, rtol=1e-9, atol=1e-11)
        str(M)
        keep.intact(x)
        return
    # call sequences
    g = [v for _, v in operands(m)][:3]
    big = [v for _, v in mats(m)][:1]
    held = []

    def hold(what, got, v):
        same(x, what, got, D, v)
        held.append((what, got, v))
    for step, a in enumerate(case['h']):
        x.state('hist', spec, case['h'][:step + 1])
        if a == 'v':
            v = g[step % 3]
            hold('matvec after %s' % case['h'][:step], M.matvec(v), v)
        elif a == 'm':
            hold('matmat after %s' % case['h'][:step], M.matmat(big[0]), big[0])
        elif a == 'd':
            d = M.as_numpy()
            hold('dense after %s' % case['h'][:step], d, np.identity(m))
        elif a == 'o':
            v = g[(step + 1) % 3]
            hold('operator after %s' % case['h'][:step], M.as_linear_operator().matvec(v), v)
        elif a == 'p':
            x.op()
            M = pickle.loads(pickle.dumps(M))
    same(x, 'final matvec', M.matvec(g[0]), D, g[0])
    same(x, 'final operator', M.as_linear_operator().matvec(g[0]), D, g[0])
    for what, got, v in held:
        same(x, 'result held since: ' + what, got, D, v)
    keep.intact(x)


PATS = ['gen', 'psd', 'int', 'sparse', 'big', 'f32']


def square_leaves(n):
    """Square leaves of order n for the expression grammar."""
    out = [['toep', n, 'gen'], ['diag', n, 'gen'], ['eye', n], ['dense', n, n, 'gen']]
    if n in (4, 6):
        out.append(['bttb', [2, n // 2], 'gen'])
    elif n > 1:
        out.append(['bttb', [n], 'gen'])
    return out


RECT = [['dense', 2, 3, 'gen'], ['dense', 3, 2, 'int'], ['dense', 1, 3, 'gen'], ['dense', 3, 1, 'gen'], ['wrap', 2, 3]]


def shape(s):
    k = s[0]
    if k in ('toep', 'diag', 'eye'):
        return (s[1], s[1])
    if k == 'bttb':
        return (int(np.prod(s[1])),) * 2
    if k in ('dense', 'wrap'):
        return (s[1], s[2])
    if k == 'kron':
        a, b = shape(s[1]), shape(s[2])
        return (a[0] * b[0], a[1] * b[1])
    if k == 'sum':
        return shape(s[1])
    if k == 'comp':
        return (shape(s[1])[0], shape(s[-1])[1])
    if k == 'bdiag':
        sh = [shape(e) for e in s[1:]]
        return (sum(a for a, _ in sh), sum(b for _, b in sh))
    if k == 'block':
        n = shape(s[2])[0]
        return (s[1] * n,) * 2
    if k == 'same':
        a, b = shape(s[3])
        return {'sum': (a, b), 'comp': (a, b), 'bdiag': (a * s[2], b * s[2]), 'kron': (a * a, b * b), 'block': (a * s[2], b * s[2])}[s[1]]
    if k == 'ski':
        return (s[2], s[2])
    raise KeyError(k)


def grow(pool, small):
    """All one-step compositions of expressions in pool with those in small."""
    for a in pool:
        for b in small:
            yield ['kron', a, b]
            yield ['kron', b, a]
            sa, sb = shape(a), shape(b)
            if sa == sb:
                yield ['sum', a, b]
            if sa[1] == sb[0]:
                yield ['comp', a, b]
            if sb[1] == sa[0]:
                yield ['comp', b, a]
            yield ['bdiag', a, b]
            yield ['bdiag', b, a]
        yield ['sum', a]
        yield ['comp', a]
        yield ['bdiag', a]
        yield ['bdiag', a, a, a]
        yield ['sum', a, a, a]
        sa = shape(a)
        if sa[0] == sa[1]:
            for D in (1, 2, 3):
                yield ['block', D, a]
            for rows in (1, 2, 5):
                yield ['ski', a, rows]
            yield ['comp', a, a, a]


def cases(tier, engine):
    thorough = tier == 'thorough'
    sizes = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]
    if thorough:
        sizes = list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025]
    for n in sizes:
        for p in PATS if n <= 33 or thorough else ['gen', 'int']:
            if n <= 300 or p == 'gen':
                yield {'m': 'full', 'e': ['toep', n, p]}
            if n <= 300:
                yield {'m': 'full', 'e': ['bttb', [n], p]}
    for n in (300, 512, 513, 1000, 1024, 1025, 2049):
        yield {'m': 'big', 'e': ['toep', n, 'gen']}
    for sizes in ([20, 33], [1, 400], [64, 8], [9, 8, 10], [33, 1, 16], [3, 2, 4, 5], [2, 1, 3, 2, 2], [1, 1, 1, 7], [1100], [34, 40], [3, 400], [300, 4]):
        yield {'m': 'big', 'e': ['bttb', sizes, 'gen']}
    for n in (5, 6, 9, 12, 16):
        yield {'m': 'full', 'e': ['dense', n, n, 'gen']}
    for n in (40, 100, 600):
        yield {'m': 'big', 'e': ['dense', n, n, 'gen']}
    for n in (70, 300):
        for e in (['diag', n, 'gen'], ['eye', n], ['dense', n, 3, 'gen'], ['dense', 5, n, 'gen'],
                  ['block', 2, ['toep', n // 2, 'gen']], ['block', 6, ['toep', n // 10, 'gen']],
                  ['ski', ['toep', n, 'gen'], 2 * n], ['ski', ['kron', ['dense', 3, 3, 'gen'], ['bttb', [5, n // 10], 'gen']], n]):
            yield {'m': 'big', 'e': e}
    for k in (4, 5, 6, 9, 17):
        yield {'m': 'full', 'e': ['bdiag'] + [['dense', 1 + i % 3, 2, 'gen'] for i in range(k)]}
        yield {'m': 'full', 'e': ['sum'] + [['toep', 5, 'gen'] if i % 2 else ['dense', 5, 5, 'gen'] for i in range(k)]}
        yield {'m': 'full', 'e': ['comp'] + [['toep', 4, 'psd'] if i % 2 else ['dense', 4, 4, 'psd'] for i in range(k)]}
        yield {'m': 'full', 'e': ['block', k, ['diag', 2, 'gen']]}
    e = ['dense', 2, 2, 'gen']
    for k in range(4):
        e = ['kron', e, ['toep', 2 + k % 2, 'gen']] if k % 2 else ['kron', ['dense', 2, 3, 'gen'], e]
        yield {'m': 'full' if k < 3 else 'big', 'e': e}
    ax = [1, 2, 3, 4, 5, 7, 8] + ([6, 9, 16, 17] if thorough else [])
    for a, b in itertools.product(ax, ax):
        for p in (PATS if a * b <= 20 or thorough else ['gen']):
            if a * b <= 150:
                yield {'m': 'full', 'e': ['bttb', [a, b], p]}
    ax3 = [1, 2, 3, 5] + ([4, 6] if thorough else [])
    for t in itertools.product(ax3, repeat=3):
        for p in ['gen', 'int']:
            yield {'m': 'full', 'e': ['bttb', list(t), p, 'l' if p == 'gen' else 'a']}
    if thorough:
        for t in itertools.product([1, 2, 3], repeat=4):
            yield {'m': 'full', 'e': ['bttb', list(t), 'gen']}
    for n in (1, 2, 3, 4, 7, 12):
        yield {'m': 'full', 'e': ['eye', n]}
        for p in PATS:
            if p != 'f32':   # a float32 diagonal legitimately multiplies in float32
                yield {'m': 'full', 'e': ['diag', n, p]}
            for k in (1, 2, 3, 5):
                for lay in ('C', 'F', 'T'):
                    yield {'m': 'full', 'e': ['dense', n, k, p, lay]}
                yield {'m': 'full', 'e': ['wrap', n, k]}
    leaves = square_leaves(1) + square_leaves(2) + square_leaves(3) + RECT
    if thorough:
        leaves += square_leaves(4)
    d1 = list(grow(leaves, leaves))
    for e in d1:
        yield {'m': 'full', 'e': e}
    # depth 2: combine one representative of every constructor with a few leaves
    reps = [['kron', ['dense', 2, 2, 'gen'], ['toep', 3, 'gen']],
            ['kron', ['dense', 2, 3, 'gen'], ['dense', 3, 2, 'gen']],
            ['sum', ['toep', 3, 'gen'], ['diag', 3, 'gen']],
            ['sum', ['dense', 2, 3, 'gen'], ['wrap', 2, 3]],
            ['comp', ['dense', 2, 3, 'gen'], ['toep', 3, 'gen'], ['dense', 3, 2, 'gen']],
            ['comp', ['dense', 3, 2, 'gen'], ['dense', 2, 3, 'gen']],
            ['bdiag', ['toep', 2, 'gen'], ['dense', 1, 3, 'gen'], ['eye', 1]],
            ['bdiag', ['toep', 2, 'gen'], ['toep', 3, 'int']],
            ['block', 2, ['toep', 3, 'gen']], ['block', 3, ['bttb', [2, 1], 'gen']],
            ['ski', ['toep', 4, 'gen'], 3], ['ski', ['kron', ['dense', 2, 2, 'gen'], ['eye', 2]], 6],
            ['bttb', [2, 3], 'gen'], ['bttb', [2, 1, 3], 'gen']]
    small = [['dense', 2, 2, 'gen'], ['dense', 2, 3, 'gen'], ['toep', 3, 'gen'], ['eye', 2], ['diag', 6, 'gen']]
    d2 = list(grow(reps, small + (reps if thorough else reps[:6])))
    for e in d2:
        yield {'m': 'full', 'e': e}
    for e in leaves + reps:
        for n in (2, 3):
            for c in ('sum', 'bdiag', 'kron', 'comp', 'block'):
                if (c in ('comp', 'block') and shape(e)[0] != shape(e)[1]) or c == 'kron' and n == 3:
                    continue
                yield {'m': 'full', 'e': ['same', c, n, e]}
                for d in ('sum', 'bdiag', 'kron'):
                    if shape(e)[0] < 4 and n == 2:
                        yield {'m': 'full', 'e': ['same', d, 2, ['same', c, n, e]]}
    for e in (['same', 'sum', 2, ['toep', 3, 'gen']], ['same', 'bdiag', 3, ['dense', 2, 3, 'gen']]):
        for h in itertools.product('vmdop', repeat=3):
            yield {'m': 'hist', 'e': e, 'h': ''.join(h)}
    if thorough:
        for e in grow(d2[::3], [['dense', 2, 2, 'gen'], ['toep', 3, 'gen']]):
            if max(shape(e)) <= 150:
                yield {'m': 'full', 'e': e}
    hist = [['toep', 5, 'gen'], ['bttb', [3, 2], 'gen'], ['diag', 4, 'gen'], ['dense', 3, 2, 'gen'], ['eye', 3],
            ['wrap', 2, 3]] + reps[:12]
    depth = 4 if thorough else 3
    for e in hist:
        for h in itertools.product('vmdop', repeat=depth):
            yield {'m': 'hist', 'e': e, 'h': ''.join(h)}
