"""C15: invalid inputs are rejected; valid ones are accepted and never modified."""
import itertools

import numpy as np

from mc import models
from runlmc.kern.matern32 import Matern32
from runlmc.kern.rbf import RBF
from runlmc.linalg.block_matrix import SymmSquareBlockMatrix
from runlmc.linalg.bttb import BTTB
from runlmc.linalg.diag import Diag
from runlmc.linalg.identity import Identity
from runlmc.linalg.matrix import Matrix
from runlmc.linalg.numpy_matrix import NumpyMatrix
from runlmc.linalg.sum_matrix import SumMatrix
from runlmc.linalg.toeplitz import Toeplitz
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta

ID = 'C15'
BOUNDS = ('every single malformation and every pair of malformations of a well-formed model call (14 kinds, at every output) for 1..3 outputs (single ones up to 7), of both model classes, and 1..2 input '
          'dimensions, normalised or not; every inconsistent kernel mix over small counts of kernels, ranks and indices; every malformed '
          'structured matrix of a table; every combination of input layout {1-D, 2-D, Fortran, strided, reversed, read-only, float32, integer, '
          'tuple} with output layout and grid arguments {none, scalar, list, tuple, array, read-only}: accepted, same answers, and all caller '
          'objects bitwise unchanged after construction, updates, prediction, quantiles and optimisation')
ASSUMPTIONS = ['wrong numbers of test outputs may be refused by assertion or ValueError']


# ------------------------------------------------------------- malformations
def base(D, P):
    spec = dict(D=D, P=P, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None, lens=([3, 4, 2] * 3)[:D], m=[4, 4] if P == 2 else 4,
                par=0, data='gen')
    Xs, Ys = models.data(spec)
    lo, hi, m = models.grid_args(spec)
    return dict(Xs=Xs, Ys=Ys, lo=lo, hi=hi, m=m, normalize=True, functional_kernel=models.make_fk(spec)[0], prediction='on-the-fly',
                max_procs=1, trace_iterations=1)


def drop_x(c, i):
    c['Xs'] = c['Xs'][:-1]


def drop_y(c, i):
    c['Ys'] = c['Ys'][:-1]


def no_data(c, i):
    c['Xs'], c['Ys'] = [], []


def long_x(c, i):
    c['Xs'][i] = np.concatenate([c['Xs'][i], c['Xs'][i][:1]])


def double_x(c, i):
    c['Xs'][i] = np.concatenate([c['Xs'][i], c['Xs'][i] + 0.01])


def double_y(c, i):
    c['Ys'][i] = np.concatenate([c['Ys'][i], c['Ys'][i] + 0.01])


def short_y(c, i):
    c['Ys'][i] = c['Ys'][i][:-1]


def cube_x(c, i):
    c['Xs'][i] = c['Xs'][i].reshape(len(c['Xs'][i]), -1, 1)


def square_y(c, i):
    c['Ys'][i] = c['Ys'][i].reshape(-1, 1)


def const_y(c, i):
    c['Ys'][i] = np.full(len(c['Ys'][i]), 2.5)


def const_y0(c, i):
    c['Ys'][i] = np.zeros(len(c['Ys'][i]))


def wide_x(c, i):
    X = c['Xs'][i].reshape(len(c['Xs'][i]), -1)
    c['Xs'][i] = np.hstack([X, X[:, :1] + 1])


def no_kernel(c, i):
    c['functional_kernel'] = None


def bad_mode(c, i):
    c['prediction'] = ['sampled', '', 'Exact', 'precomputed', None][i]


def extra_y(c, i):
    c['Ys'] = c['Ys'] + [np.array([1.0, 2.0, 4.0])]


def extra_x(c, i):
    c['Xs'] = c['Xs'] + [c['Xs'][0] + 0.1]


BAD = dict(extra_y=extra_y, extra_x=extra_x, drop_x=drop_x, drop_y=drop_y, no_data=no_data, long_x=long_x, double_x=double_x, double_y=double_y, short_y=short_y, cube_x=cube_x, square_y=square_y,
           const_y=const_y, const_y0=const_y0, wide_x=wide_x, no_kernel=no_kernel, bad_mode=bad_mode)


def malformed(case, x):
    D, P = case['D'], case['P']
    c = base(D, P)
    c['normalize'] = case['norm']
    for name, i in case['bad']:
        BAD[name](c, i)
    if {b[0] for b in case['bad']} == {'wide_x'} and D == 1:
        return      # a single output: simply another input dimension
    x.op()
    if not {b[0] for b in case['bad']} & {'no_kernel', 'bad_mode'}:
        x.raises('malformed GPy model call %s (D=%d, P=%d)' % (case['bad'], D, P), ValueError,
                 lambda: GPyLMC(c['Xs'], c['Ys'], [RBF(name='r')], [1]))
    x.raises('malformed model call %s (D=%d, P=%d)' % (case['bad'], D, P), ValueError, lambda: InterpolatedLLGP(**c))
    x.state(case)


# ------------------------------------------------------------- kernel mixes
def mix(case, x):
    """Number of kernels, ranks, indices: accepted exactly when consistent."""
    nl, ranks, ns, ni, idx, D = (case[k] for k in ('nl', 'ranks', 'ns', 'ni', 'idx', 'D'))
    ks = [[RBF(name='%s%d' % (g, i)) for i in range(n)] for g, n in (('l', nl), ('s', ns), ('i', ni))]
    kw = {}
    if D is not None:
        kw['D'] = D
    for name, v in zip(('lmc_kernels', 'slfm_kernels', 'indep_gp'), ks):
        if v or case['explicit']:
            kw[name] = v
    if ranks is not None:
        kw['lmc_ranks'] = list(ranks)
    if idx is not None:
        kw['indep_gp_index'] = list(idx)
    given = dict((k, list(v) if isinstance(v, list) else v) for k, v in kw.items())
    ok = bool(D) and nl + ns + ni > 0 and len(ranks or []) == nl and all(r > 0 for r in ranks or [])
    if idx:
        ok = ok and len(idx) == ni
    elif ni > (D or 0):
        return      # default index beyond the outputs: not specified
    what = 'kernel mix %s' % case
    x.op()
    if not ok:
        x.raises(what, ValueError, lambda: FunctionalKernel(**kw))
        x.state(case)
        return
    fk = FunctionalKernel(**kw)
    x.check(fk.D == D and fk.Q == nl + ns + ni, what + ': D or Q')
    x.check(all(len(given[k]) == len(kw[k]) and all(a is b for a, b in zip(given[k], kw[k])) for k in given if isinstance(given[k], list)),
            what + ': caller lists changed')
    fk.set_input_dim(2)
    fk.set_input_dim(2)
    x.raises(what + ': second input dimension', ValueError, lambda: fk.set_input_dim(1))
    cv, cd = fk.coreg_vecs, fk.coreg_diags
    shapes = [(r, D) for r in ranks or []] + [(1, D)] * (ns + ni)
    x.check([np.shape(v) for v in cv] == shapes, what + ': coregionalization shapes')
    x.check(all(np.array_equal(v, np.zeros(D)) for v in cd[nl:nl + ns]), what + ': SLFM diagonals')
    for j, i in enumerate(idx or range(ni)):
        x.check(np.array_equal(cd[nl + ns + j], np.eye(D)[i]) and not np.any(cv[nl + ns + j]), what + ': independent kernel %d' % j)
    x.check(np.shape(fk.noise) == (D,) and np.all(np.asarray(fk.noise) > 0), what + ': noise')
    x.state(case)


# ------------------------------------------------------------- matrices
def matrices(case, x):
    T = Toeplitz(np.array([2., 1.]))
    T3 = Toeplitz(np.array([2., 1., 0.]))
    table = {
        'toeplitz empty': lambda: Toeplitz(np.array([])),
        'toeplitz 2-D': lambda: Toeplitz(np.eye(2)),
        'bttb empty': lambda: BTTB(np.array([]), np.array([1])),
        'bttb 2-D': lambda: BTTB(np.eye(2), np.array([2, 2])),
        'bttb sizes 2-D': lambda: BTTB(np.arange(4.), np.array([[2, 2]])),
        'bttb sizes mismatch': lambda: BTTB(np.arange(4.), np.array([2, 3])),
        'bttb sizes too small': lambda: BTTB(np.arange(4.), np.array([2])),
        'diag empty': lambda: Diag(np.array([])),
        'diag 2-D': lambda: Diag(np.eye(2)),
        'numpy 1-D': lambda: NumpyMatrix(np.ones(3)),
        'numpy 3-D': lambda: NumpyMatrix(np.ones((2, 2, 2))),
        'sum empty': lambda: SumMatrix([]),
        'sum shapes': lambda: SumMatrix([T, T3]),
        'block uneven': lambda: SymmSquareBlockMatrix([[T, T], [T]]),
        'matrix 0 rows': lambda: Matrix(0, 2),
        'matrix 0 columns': lambda: Matrix(2, 0),
        'matrix negative': lambda: Matrix(-1, 2),
        'wrap empty': lambda: Matrix.wrap((0, 1), lambda v: v),
        'identity 0': lambda: Identity(0),
        'numpy empty': lambda: NumpyMatrix(np.zeros((0, 3))),
    }
    for k, f in table.items():
        x.op()
        x.raises(k, ValueError, f)
        x.state(k)


# ------------------------------------------------------------- layouts
def layout(kind, a):
    a = np.array(a)
    if kind == 'vec':
        return a.reshape(len(a))
    if kind == 'fort':
        return np.asfortranarray(a)
    if kind == 'stride':
        return np.repeat(a, 2, axis=0)[::2]
    if kind == 'rev':
        return a[::-1].copy()[::-1]
    if kind == 'ro':
        a.flags.writeable = False
        return a
    if kind == 'f32':
        return a.astype(np.float32)
    if kind == 'int':
        return a.astype(int)
    if kind in ('u8', 'i8', 'i32', 'be', 'ld'):
        return a.astype({'u8': np.uint8, 'i8': np.int8, 'i32': np.int32, 'be': '>f8', 'ld': np.longdouble}[kind])
    return a


def gridarg(kind, v):
    v = list(v)
    if kind == 'scalar':
        return v[0]
    if kind == 'tuple':
        return tuple(v)
    if kind == 'array':
        return np.array(v)
    if kind == 'ro':
        a = np.array(v)
        a.flags.writeable = False
        return a
    if kind == 'none':
        return None
    return v


def snap(o):
    if isinstance(o, np.ndarray):
        return (o.dtype.str, o.shape, o.strides, o.flags.writeable, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [(id(e), snap(e)) for e in o])
    return repr(o)


def wellformed(case, x):
    D, P = case['D'], case['P']
    spec = dict(D=D, P=P, lmc=[['rbf', 1, None]], slfm=[['matern32', None]], indep=[], idx=None, lens=[3, 4, 2][:D],
                m=[4, 4] if P == 2 else 5, par=0, data='gen')
    Xs, Ys = models.data(spec)
    whole = {'int', 'u8', 'i8', 'i32'} & {case['x'], case['y']}
    if whole:
        Xs = [np.round(X * 3) for X in Xs]
        Ys = [np.abs(np.round(Y * 5)) for Y in Ys]
    lo, hi, m = models.grid_args(spec)
    if whole:
        hi = [v * 3 for v in hi]
    Zs = [X[:2] * 0.9 + 0.05 for X in Xs] if case.get('z') != 'whole' else [X[:2] + i for i, X in enumerate(Xs)]
    ref = None
    for kinds in (('c', 'c', 'list', 'list'), (case['x'], case['y'], case['g'], case['seq'])):
        kx, ky, kg, seq = kinds
        wrap = tuple if seq == 'tuple' else list
        ax = wrap(layout(kx if kx != 'mixed' else ('vec', 'c')[i % 2], X) for i, X in enumerate(Xs))
        ay = wrap(layout(ky, Y) for Y in Ys)
        az = wrap(layout(kx if case.get('z') == 'whole' or kx not in ('int', 'u8', 'i8', 'i32') else 'c', Z) for Z in Zs)
        ga = dict(zip(('lo', 'hi', 'm'), (gridarg(kg, v) for v in (lo, hi, m))))
        if kg == 'none' and ref is not None:
            ref = None
        fk = models.make_fk(spec)[0]
        held = (ax, ay, az, ga['lo'], ga['hi'], ga['m'])
        before = [snap(o) for o in held]

        def unchanged(when):
            x.check([snap(o) for o in held] == before, lambda: '%s: caller data changed %s' % (kinds, when))
        np.random.seed(3)
        x.op()
        model = InterpolatedLLGP(ax, ay, normalize=case['norm'], functional_kernel=fk, max_procs=1, trace_iterations=2, tolerance=1e-10, **ga)
        unchanged('by construction')
        out = [model.log_likelihood(), np.array(model.gradient)]
        for mode in ('exact', 'on-the-fly', 'precompute'):
            model.prediction = mode
            x.op()
            mu, var = model.predict(az)
            unchanged('by predict')
            out += [np.concatenate(mu), np.concatenate(var)]
        q = model.predict_quantiles(az, [10, 60])
        out.append(np.concatenate(q))
        unchanged('by predict_quantiles')
        fk.noise = np.array(fk.noise) * 1.2
        unchanged('by a parameter update')
        out.append(model.log_likelihood())
        if case['opt']:
            np.random.seed(4)
            model.optimize(optimizer=AdaDelta(max_it=2))
            unchanged('by optimisation')
            out.append(np.array(model.param_array))
        for mu_, n in zip(mu, [len(Z) for Z in Zs]):
            x.check(np.shape(mu_) == (n,), 'prediction shapes')
        tol = 1e-4 if 'f32' in kinds else 1e-7
        if ref is not None:
            for i, (g, w) in enumerate(zip(out, ref)):
                x.close('%s: result %d' % (kinds, i), g, w, tol, tol)
        ref = out
    x.state(case)


def spread(case, x):
    """Outputs that vary, however little or much, are data."""
    D = case['D']
    c = base(D, 1)
    c['normalize'] = case['norm']
    y = np.array(c['Ys'][case['i']])
    w = case['f'] * (y - y.mean()) + case['b']
    if case.get('one'):
        w = np.full(len(y), case['b'])
        w[-1] += case['f']
    c['Ys'][case['i']] = w
    if np.all(w == w[0]):
        return
    keep = [np.array(v) for v in c['Ys']]
    x.op(2)
    model = InterpolatedLLGP(**c)
    mu, var = model.predict([X.copy() for X in c['Xs']])
    x.check(all(np.array_equal(a, b) for a, b in zip(keep, c['Ys'])), 'outputs changed')
    x.check(np.all(np.isfinite(np.concatenate(mu + var))), 'predictions for outputs of spread %g' % case['f'])
    x.state(case)


def late(case, x):
    """An unknown prediction mode or wrong data in a later call leaves the model usable."""
    c = base(2, 1)
    model = InterpolatedLLGP(**c)
    Z = [np.array([[0.5]]), np.array([[0.7], [0.1]])]
    want = model.predict(Z)
    for bad in (np.zeros((1, 3)), np.zeros((2, 2)), np.zeros((1, 1, 1)), np.zeros((2, 1, 1, 1))):
        x.op()
        x.raises('test input of shape %s' % (bad.shape,), ValueError, lambda: model.predict([Z[0], bad]))
        got = model.predict(Z)
        x.close('after a refused call', np.concatenate(got[0] + got[1]), np.concatenate(want[0] + want[1]), 1e-9, 1e-12)
    x.state(case)


def testlists(case, x):
    """Test lists of the wrong dimension or number are refused."""
    D, P = case['D'], case['P']
    c = base(D, P)
    model = InterpolatedLLGP(**c)
    for mode in ('exact', 'on-the-fly', 'precompute')[case['mode']:][:1]:
        model.prediction = mode
        for f in (model.predict, model.predict_quantiles):
            for i in range(D):
                Z = [np.zeros((1, P))] * D
                Z[i] = np.zeros((2, P + 1))
                x.op()
                x.raises('test input %d of wrong dimension' % i, ValueError, lambda: f(Z))
                Z[i] = np.zeros((2, P + 1))[:0]
                x.raises('empty test input %d of wrong dimension' % i, ValueError, lambda: f(Z))
                if P == 2:
                    Z[i] = np.zeros(2)
                    x.raises('test input %d flat' % i, ValueError, lambda: f(Z))
            for n in (D + 1, D - 1, 0):
                x.raises('%d test inputs for %d outputs' % (n, D), (ValueError, AssertionError), lambda: f([np.zeros((1, P))] * n))
            mu = f([np.zeros((0, P))] * (D - 1) + [np.zeros((1, P))])
            x.check(len(mu) in (2, D), 'still usable')
    x.state(case)


def run(case, x):
    {'malformed': malformed, 'mix': mix, 'matrices': matrices, 'layout': wellformed, 'testlists': testlists, 'spread': spread, 'late': late}[case['kind']](case, x)


def cases(tier, engine):
    th = tier == 'thorough'
    yield dict(kind='matrices')
    for D in (1, 2, 3):
        for P in (1, 2):
            for mode in range(3):
                yield dict(kind='testlists', D=D, P=P, mode=mode)
    yield dict(kind='late')
    for D in (1, 2, 3):
        for i in range(D):
            for f, b in itertools.product((1e-14, 1e-10, 1e-6, 1e-3, 1.0, 1e5, 1e9), (0.0, 1.0, -1e4, 1e6)):
                if b and f < 1e-11 * abs(b):
                    continue
                yield dict(kind='spread', D=D, i=i, f=f, b=b, norm=True, one=bool((i + D) % 2))
                if D == 2:
                    yield dict(kind='spread', D=D, i=i, f=f, b=b, norm=False)
    for D, P in itertools.product((4, 5, 7), (1, 2)):
        for name in ('long_x', 'short_y', 'cube_x', 'square_y', 'const_y', 'const_y0', 'wide_x', 'drop_x', 'drop_y', 'extra_x', 'extra_y'):
            for i in range(D):
                yield dict(kind='malformed', D=D, P=P, norm=True, bad=[[name, i]])
    for D, P in itertools.product((1, 2, 3), (1, 2)):
        singles = []
        for name in BAD:
            where = [0] if name in ('drop_x', 'drop_y', 'extra_x', 'extra_y', 'no_data', 'no_kernel') else list(range(5)) if name == 'bad_mode' else list(range(D))
            singles += [[name, i] for i in where]
        for norm in (True, False):
            for b in singles:
                yield dict(kind='malformed', D=D, P=P, norm=norm, bad=[b])
            for b, c in itertools.combinations(singles, 2):
                # two malformations may only cancel if they touch the same thing
                if {b[0], c[0]} in ({'drop_x', 'drop_y'}, {'extra_x', 'extra_y'}, {'drop_x', 'extra_x'}, {'drop_y', 'extra_y'}, {'long_x', 'short_y'}, {'wide_x'}) or 'no_data' in (b[0], c[0]):
                    continue
                if (b[0] in ('drop_x', 'drop_y') or c[0] in ('drop_x', 'drop_y')) and D == 1 or b[1] >= 1 and c[0] == 'bad_mode' and c[1]:
                    continue
                if {b[0], c[0]} & {'drop_x', 'drop_y'} and {b[1], c[1]} & {D - 1}:
                    continue
                if b[1] == c[1] and b[0] != 'bad_mode' and c[0] not in ('no_kernel', 'bad_mode'):
                    continue
                if not th and (D == 3 or norm) and not (b[1] == 0 and c[1] == D - 1 and D == 2):
                    continue
                yield dict(kind='malformed', D=D, P=P, norm=norm, bad=[b, c])
    for D in (None, 0, 1, 2, 3):
        for nl, ns, ni in itertools.product(range(3), range(2), range(3)):
            ranks = [None, []] + [list(r) for n in (1, 2) for r in itertools.product((-1, 0, 1, 2) if th else (0, 1, 2), repeat=n)]
            idxs = [None] + [list(t) for n in (1, 2, 3) for t in itertools.product(range(D or 1), repeat=n)] if ni else [None]
            for r in ranks:
                for idx in idxs if D in (1, 2) and (th or nl + ns < 3) else idxs[:3]:
                    for e in (False, True) if th else (True,) if (nl + ns) % 2 else (False,):
                        yield dict(kind='mix', D=D, nl=nl, ranks=r, ns=ns, ni=ni, idx=idx, explicit=e)
    xs = ('vec', 'c', 'fort', 'stride', 'rev', 'ro', 'f32', 'int')
    ys = ('c', 'stride', 'ro', 'f32', 'int')
    for D, P in itertools.product((1, 2, 3), (1, 2)):
        for kx in ('int', 'u8', 'i8', 'i32', 'be', 'ld', 'mixed'):
            if kx == 'mixed' and (P == 2 or D == 1):
                continue
            for ky in (kx if kx != 'mixed' else 'c', 'c', 'f32'):
                yield dict(kind='layout', D=D, P=P, x=kx, y=ky, g='array', seq='list', norm=D == 2, opt=P == 1,
                           z='whole' if kx[0] in 'iu' else '')
    gs = ('list', 'scalar', 'tuple', 'array', 'ro', 'none')
    i = 0
    for D, P in itertools.product((1, 2, 3), (1, 2)):
        for kx, ky, kg in itertools.product(xs, ys, gs):
            if P == 2 and (kx == 'vec' or kg == 'scalar'):
                continue
            i += 1
            if not th and (D == 3 or i % 23) and not (D == 2 and ky == 'c' and kg == 'array') and not (D == 2 and kx == 'c' and ky == 'c') \
                    and not (D == 2 and kx == 'c' and kg == 'list'):
                continue
            yield dict(kind='layout', D=D, P=P, x=kx, y=ky, g=kg, seq='tuple' if i % 4 == 0 else 'list', norm=bool(i % 2), opt=i % 5 == 0)
