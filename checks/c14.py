"""C14: each kernel is its documented function, with its exact gradient."""
import itertools

import numpy as np

from mc import models, oracle
from runlmc.lmc.functional_kernel import FunctionalKernel

ID = 'C14'
BOUNDS = ('every kernel class (RBF, Matern-3/2, periodic, identity, scaled, doubly scaled) at every combination of a parameter grid '
          'spanning 1e-4..50 (1e-12..1e9 in units of its own), over a distance grid including 0, tiny, periodic multiples and 1e3, as Python scalar, 0-d, empty, 1-D, 2-D, '
          '3-D, integer and read-only arrays; every way of setting a parameter; gradients stored for every incoming vector; positive '
          'semidefiniteness on every point set of a family; conversion to GPy on every pair of a point grid; parameters counted in a functional kernel')
ASSUMPTIONS = ['GPy conversion is compared for one-dimensional inputs, the only form it supports']
DISTS = [0.0, 1e-9, 1e-3, 0.1, 0.25, 0.5, 1.0, 1.85, 2.0, 3.7, 10.0, 1000.0]


def numeric(v):
    v = np.asarray(v, dtype=float)
    return v


def rounding(kind, p, r):
    """Rounding of the sine's argument, amplified by its derivative."""
    if 'periodic' not in kind or not np.size(r):
        return 1e-12
    a = np.pi * np.max(np.abs(r)) / p[1]
    return 1e-12 + 1e-14 * (1 + p[0]) * max(1.0, max(p[2:] or [1.0])) * (1 + a * a / p[1])


def same(x, what, got, want, shape, atol=1e-12):
    g = numeric(got)
    if shape == () and g.shape == (1,):
        g = g[0]
    x.close(what, g, np.asarray(want, float).reshape(shape), 1e-10, atol)


def grads(kind, p, r):
    out = []
    for j in range(len(p)):
        q = [complex(v) for v in p]
        h = 1e-20 * 1j
        q[j] += h
        out.append(np.imag(oracle.kfun(kind, q, r)) / 1e-20)
    return out


def forms(d):
    d = np.array(d, float)
    yield 'vector', d
    yield 'matrix', d.reshape(3, 4)
    yield 'cube', d.reshape(2, 2, 3)
    yield 'column', d.reshape(-1, 1)
    yield 'empty', np.zeros(0)
    yield 'integer', np.array([0, 1, 2, 10])
    yield 'fortran', np.asfortranarray(d.reshape(3, 4))
    yield 'reversed', d[::-1]
    ro = d.copy()
    ro.flags.writeable = False
    yield 'read-only', ro
    for v in d:
        yield 'scalar %g' % v, float(v)
        yield '0-d %g' % v, np.array(v)
    yield 'integer scalar', 0
    yield 'integer scalar', 2


def own_scale(kind, p):
    """Distances in the kernel's own units, whatever its parameters."""
    u = np.array([0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.05, 0.2, 0.5, 0.75, 1.0, 1.3, 2.0, 3.5, 6.0])
    if 'rbf' in kind:
        return u / np.sqrt(p[0])
    if 'matern' in kind:
        return u / p[0]
    if 'periodic' in kind:
        return u * p[1]
    return u


def evaluate(x, k, kind, p, what):
    for name, r in itertools.chain(forms(DISTS), [('own units', own_scale(kind, p)), ('own units, one by one', None)]):
        if r is None:
            for v in own_scale(kind, p):
                want = oracle.kfun(kind, p, v)
                # a few units in the last place of the exponent
                x.close('%s %s%s at %r' % (what, kind, tuple(p), v), np.ravel(numeric(k.from_dist(float(v))))[0], want, 1e-9, 1e-300)
            continue
        before = np.array(r)
        shape = np.shape(r)
        w = '%s%s at %s' % (kind, tuple(p), name)
        x.op(2)
        same(x, '%s %s: value' % (what, w), k.from_dist(r), oracle.kfun(kind, p, r), shape, rounding(kind, p, r))
        g = list(k.kernel_gradient(r))
        want = grads(kind, p, r)
        x.check(len(g) == len(want), '%s %s: %d derivatives, expected %d' % (what, w, len(g), len(want)))
        for j, (a, b) in enumerate(zip(g, want)):
            same(x, '%s %s: derivative %d' % (what, w, j), a, b, shape, rounding(kind, p, r))
        x.check(np.array_equal(before, r), '%s %s: distances changed' % (what, w))
    top = p[-1] if kind.startswith('scaled:') else 1.0
    if kind.count('scaled:') == 2:
        top = p[-1] * p[-2]
    same(x, what + ' %s at zero' % kind, k.from_dist(0.0), top, ())


def run(case, x):
    kind, p = case['kernel'], case['p']
    k = models.make_kernel(kind, p, 'kk', case.get('dims'))
    objs = models.kernel_param_objects(kind, k)
    x.check(len(objs) == len(p), 'parameters')
    x.check([float(np.asarray(o)[0]) for o in objs] == [float(v) for v in p], 'constructed values')
    if case.get('full', True):
        evaluate(x, k, kind, p, 'initial')
    if case.get('extreme'):
        z = own_scale(kind, p)[3:].reshape(-1, 1)
        if 'scaled' not in kind:
            x.close('GPy conversion', k.to_gpy().K(z), oracle.kfun(kind, p, np.abs(z - z.T)), 1e-6, 1e-6)
        x.state(case)
        return
    # gradients stored on the matching parameter, in kernel_gradient order
    g = [3.0 - 1.7 * j for j in range(len(p))]
    x.op()
    k.update_gradient(list(g))
    for o, v in zip(objs, g):
        x.close('stored gradient', np.asarray(o.gradient, float).reshape(()), v, 1e-14, 0)
    k.update_gradient(np.array(g) * 2)
    for o, v in zip(objs, g):
        x.close('stored gradient', np.asarray(o.gradient, float).reshape(()), 2 * v, 1e-14, 0)
    # every way of setting the parameters
    q = [v * 1.7 + 0.1 for v in p]
    for o, v in zip(objs, q):
        o[:] = v
    x.op()
    same(x, 'after item assignment', k.from_dist(np.array(DISTS)), oracle.kfun(kind, q, DISTS), (len(DISTS),), rounding(kind, q, DISTS))
    q = [v * 0.6 + 0.05 for v in q]
    if p:
        base = k
        depth = kind.count('scaled:')
        for i in range(depth):
            base.scale = q[len(q) - 1 - i]
            base = base.k
        base.inv_lengthscale = q[0]
        if 'periodic' in kind:
            base.period = q[1]
        x.op()
        same(x, 'after attribute assignment', k.from_dist(np.array(DISTS)), oracle.kfun(kind, q, DISTS), (len(DISTS),), rounding(kind, q, DISTS))
    # inside a functional kernel every parameter is part of the model
    fk = FunctionalKernel(D=2, lmc_kernels=[k], lmc_ranks=[1])
    x.check(fk.size == len(p) + 2 + 2 + 2, lambda: 'functional kernel has %d parameters, expected %d' % (fk.size, len(p) + 6))
    if p:
        arr = np.array(fk.optimizer_array)
        fk.optimizer_array = arr * 0 - 3.0
        vals = [float(np.asarray(o)[0]) for o in objs]
        x.check(all(v > 0 for v in vals), 'positive after an optimizer step: %s' % vals)
        x.check(all(abs(v - np.log1p(np.exp(-3.0))) < 1e-9 for v in vals), lambda: 'parameters follow the optimizer: %s' % vals)
        same(x, 'after optimizer assignment', k.from_dist(np.array(DISTS)), oracle.kfun(kind, vals, DISTS), (len(DISTS),), rounding(kind, vals, DISTS))
    x.state(case)
    # positive semidefinite
    for o, v in zip(objs, p):
        o[:] = v
    sets = [np.linspace(0, 3, 7), np.array([0., 0., 1., 1.5]), np.array([0., 1e-3, 5., 50.]), np.arange(6.0)]
    for s in sets:
        M = numeric(k.from_dist(np.abs(s[:, None] - s[None, :])))
        x.check(np.array_equal(M, M.T), 'symmetric')
        x.check(np.linalg.eigvalsh(M)[0] > -1e-9 * M.max(), 'kernel matrix not positive semidefinite')
    if 'periodic' not in kind:
        G = oracle.grid_points([[0., 1., 2.5], [0., .5, 2.]])
        M = numeric(k.from_dist(oracle.pdist(G, G, (0, 1))))
        x.check(np.linalg.eigvalsh(M)[0] > -1e-9 * M.max(), 'kernel matrix over the plane not positive semidefinite')
    # GPy
    if kind in ('rbf', 'matern32', 'std_periodic'):
        g = k.to_gpy()
        z = np.array([0., .1, .7, 1., 2.2, 9.]).reshape(-1, 1)
        x.op()
        x.close('GPy conversion', g.K(z), oracle.kfun(kind, p, np.abs(z - z.T)), 1e-7, 1e-8)
        x.close('GPy diagonal', g.Kdiag(z), np.ones(len(z)), 1e-12, 0)
        x.check(g.variance.is_fixed if hasattr(g.variance, 'is_fixed') else True, 'GPy variance fixed')


def cases(tier, engine):
    th = tier == 'thorough'
    ls = [1e-4, 0.3, 1.0, 2.5, 50.0]
    per = [0.1, 1.0, 3.7, 40.0]
    sc = [0.01, 1.0, 9.0]
    for v in (1e-12, 1e-8, 1e-6, 1e-3, 400.0, 1e4, 1e6, 1e9):
        for kind in ('rbf', 'matern32', 'scaled:rbf', 'scaled:matern32'):
            yield dict(kernel=kind, p=[v, 1e-7, 1e7][:1 + kind.count(':')], extreme=True)
        for t in (1e-5, 1e-3, 1.0, 1e4, 1e7):
            yield dict(kernel='std_periodic', p=[v, t], extreme=True)
    i = 0
    for v in ls:
        for kind in ('rbf', 'matern32'):
            yield dict(kernel=kind, p=[v])
            for s in sc:
                yield dict(kernel='scaled:' + kind, p=[v, s])
    for v, t in itertools.product(ls, per):
        yield dict(kernel='std_periodic', p=[v, t])
        for s in sc:
            i += 1
            yield dict(kernel='scaled:std_periodic', p=[v, t, s], full=th or i % 3 == 0)
    yield dict(kernel='id', p=[])
    for s in sc:
        yield dict(kernel='scaled:id', p=[s])
    for v, s, t in itertools.product(ls if th else ls[1:4], sc, sc):
        yield dict(kernel='scaled:scaled:rbf', p=[v, s, t])
    for kind, p in (('rbf', [1.0]), ('matern32', [2.0]), ('std_periodic', [1.0, 2.0])):
        yield dict(kernel=kind, p=p, dims=[0])
