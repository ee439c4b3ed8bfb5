"""C02: cubic interpolation weights."""
import itertools

import numpy as np

from mc import oracle
from runlmc.approx.interpolation import (cubic_kernel, interp_bicubic,
                                         interp_cubic, multi_interpolant)

ID = 'C02'
BOUNDS = ('1-D: grids of 4..10, 16, 17, 33, 64, 100, 257, 700 points x 6 offset/spacing pairs, samples at every eighth of every cell from '
          'two cells below to two above the grid and far outside it, and within 1e-3 .. 1e-9 of every grid point, in 4 orders and with duplicates; 2-D: all grid size pairs from '
          '{4,5,6,9} with quarter-cell lattices including the borders; multi-output: every list of 1..4 outputs with '
          '0..3 samples (one value in 5 thorough), up to 76000 columns, 1-D vectors, columns and 2-D; every malformed grid of a fixed menu')
ASSUMPTIONS = ['weights compared to 1e-9 at spacings not smaller than 1e-7 of the grid offset']

FINE = [1e-3, 7e-4, 2e-4, 1e-6, 1e-9, -1e-9, -1e-6, -2e-4, -7e-4, -1e-3, 0.01, -0.01, 0.499, 0.501]
OFFS = [(0.0, 1.0), (-3.0, 0.25), (0.1, 0.1), (1000.0, 0.5), (-1e5, 3.0), (2.5e-3, 1e-4)]


def grid_of(m, o):
    a, h = OFFS[o]
    return a + h * np.arange(m)


def arrange(s, order):
    if order == 'sorted':
        return s
    if order == 'reversed':
        return s[::-1]
    if order == 'shuffled':
        return s[np.argsort(np.sin(np.arange(len(s)) * 12.9898))]
    if order == 'dup':
        return np.repeat(s[::3], 3)
    raise KeyError(order)


def dense(x, M, shape, what):
    x.op()
    x.check(tuple(M.shape) == tuple(shape), '%s: shape %s expected %s' % (what, M.shape, shape))
    return np.asarray(M.todense()).reshape(shape)


def invariants(x, W, what, per_row):
    x.close(what + ' row sums', W.sum(axis=1), np.ones(len(W)), rtol=1e-9, atol=1e-9)
    nz = (np.abs(W) > 1e-9).sum(axis=1)
    x.check(not len(nz) or nz.max() <= per_row, '%s: more than %d weights in a row' % (what, per_row))


def run(case, x):
    kind = case['k']
    x.state(case)
    if kind == 'kernel':
        t = np.arange(-16, 17) / 8.0
        x.op()
        x.close('cubic kernel', cubic_kernel(t), [oracle.keys(v) for v in t], 1e-12, 1e-12)
        x.close('cubic kernel fine', cubic_kernel(np.linspace(-2, 2, 1001)),
                [oracle.keys(v) for v in np.linspace(-2, 2, 1001)], 1e-12, 1e-12)
        t = np.array([a + b for a in range(-2, 3) for b in FINE if abs(a + b) <= 2])
        x.close('cubic kernel near its knots', cubic_kernel(t), [oracle.keys(v) for v in t], 1e-12, 1e-12)
        for bad in ([2.5], [0.0, -2.125], [1e9]):
            x.raises('outside support', ValueError, lambda: cubic_kernel(np.array(bad)))
        return
    if kind == '1d':
        m, o = case['m'], case['o']
        g = grid_of(m, o)
        h = g[1] - g[0]
        pos = np.arange(-16, 8 * (m - 1) + 17) / 8.0
        if case.get('far'):
            pos = np.concatenate([pos, [-2.4, -3.0, -3.3, -7.6, -100.25, -5e3], m - 1 + np.array([2.3, 3.0, 3.7, 9.2, 250.5, 1e4])])
        if case.get('fine'):
            pos = np.concatenate([np.arange(-2, m + 2)[:, None] + np.array(FINE)]).ravel()
        s = arrange(g[0] + h * pos, case['order'])
        was_g, was_s = g.copy(), s.copy()
        M = interp_cubic(g, s)
        W = dense(x, M, (len(s), m), '1-D weights')
        want = oracle.weights([g], s)
        # positions exactly on a node may be attributed to either cell: the weights agree in the limit
        x.close('1-D weights', W, want, rtol=1e-8, atol=5e-9 * max(1.0, abs(g[0]) / h * 1e-7 * 10))
        x.check(np.array_equal(g, was_g) and np.array_equal(s, was_s), 'arguments modified')
        invariants(x, W, '1-D', 4)
        inside = [i for i, v in enumerate(s) if g[0] + h * 1 <= v <= g[-1] - h * 1]
        u = (g - g[0]) / h
        su = (s - g[0]) / h
        for deg in (0, 1, 2):
            x.close('degree %d reproduced' % deg, W[inside].dot(u ** deg), su[inside] ** deg, 1e-7, 1e-7)
        out_lo = s <= g[0] - 2 * h + 1e-9 * h
        x.check(np.all(np.abs(W[out_lo][:, 1:]).sum() < 1e-6), 'far extrapolation must use the border point')
        # each row depends on its own sample only
        for i in (0, len(s) // 2, len(s) - 1):
            Wi = dense(x, interp_cubic(g, s[i:i + 1]), (1, m), 'single')
            x.close('row independent of the other samples', Wi[0], W[i], 1e-12, 1e-12)
        return
    if kind == 'f':
        # sample types and layouts
        g = grid_of(case['m'], 0)
        s = np.arange(0, case['m'])
        t = case['t']
        if t == 'int':
            arr = s
        elif t == 'f32':
            arr = s.astype(np.float32)
        elif t == 'strided':
            arr = np.repeat(s.astype(float), 2)[::2]
        elif t == 'readonly':
            arr = s.astype(float)
            arr.setflags(write=False)
            g = g.copy()
            g.setflags(write=False)
        elif t == 'intgrid':
            arr = s + 0.25
            g = np.arange(case['m'])
        W = dense(x, interp_cubic(g, arr), (len(arr), len(g)), t)
        x.close('weights', W, oracle.weights([g], arr), 1e-9, 1e-9)
        return
    if kind == '2d':
        gx, gy = grid_of(case['mx'], case['ox']), grid_of(case['my'], case['oy'])
        hx, hy = gx[1] - gx[0], gy[1] - gy[0]
        px = gx[0] + hx * np.array(case['px'])
        py = gy[0] + hy * np.arange(-6, 4 * (len(gy) - 1) + 7) / 4.0
        if case.get('fine'):
            px = gx[0] + hx * (np.arange(-1, len(gx))[:, None] + np.array(FINE)).ravel()
            py = gy[0] + hy * (np.arange(-1, len(gy), 2)[:, None] + np.array(FINE[1::3])).ravel()
        S = np.array([[a, b] for a in px for b in py])
        S = S[np.argsort(np.sin(np.arange(len(S)) * 12.9898))] if case['order'] == 'shuffled' else S
        if case['order'] == 'fortran':
            S = np.asfortranarray(S)
        was = S.copy()
        W = dense(x, interp_bicubic(gx, gy, S), (len(S), len(gx) * len(gy)), '2-D weights')
        x.close('2-D weights', W, oracle.weights([gx, gy], S), 1e-8, 1e-8)
        x.check(np.array_equal(S, was), 'samples modified')
        invariants(x, W, '2-D', 16)
        return
    if kind == 'multi':
        lens, P = case['lens'], case['P']
        m = case.get('m', [6, 5])
        grids = [grid_of(m[0], 1), grid_of(m[1], 2)][:P]
        Xs = []
        t = 0
        for n in lens:
            rows = []
            for _ in range(n):
                rows.append([g[0] + (g[1] - g[0]) * (0.3 + ((t * 0.737 + 0.31 * d) % (len(g) - 1.3)))
                             for d, g in enumerate(grids)])
                t += 1
            Xs.append(np.array(rows, dtype=float).reshape(n, P))
        if case['shape'] == 'vec':
            Xs = [X[:, 0] for X in Xs]
        was = [X.copy() for X in Xs]
        M = multi_interpolant(Xs, *grids)
        mm = int(np.prod([len(g) for g in grids]))
        W = dense(x, M, (sum(lens), mm * len(lens)), 'multi')
        x.close('multi-output weights', W, oracle.block_diag([oracle.weights(grids, X) for X in Xs], mm), 1e-8, 1e-8)
        x.check(all(np.array_equal(a, b) for a, b in zip(Xs, was)), 'inputs modified')
        v = np.cos(np.arange(mm * len(lens)))
        x.close('product', M.dot(v), W.dot(v), 1e-9, 1e-9)
        x.close('transpose product', M.transpose().tocsr().dot(np.arange(sum(lens)) + 1.0),
                W.T.dot(np.arange(sum(lens)) + 1.0), 1e-9, 1e-9)
        return
    if kind == 'bad':
        s1 = np.array([0.5, 1.5])
        s2 = np.array([[0.5, 0.5], [1.5, 0.25]])
        ok = np.arange(6.0)
        bad = {'short0': np.arange(0.), 'short1': np.arange(1.), 'short2': np.arange(2.), 'short3': np.arange(3.),
               '2d': np.arange(8.).reshape(4, 2), '2d-col': np.arange(6.).reshape(6, 1),
               'uneven': np.array([0., 1., 2., 4., 5.]), 'uneven-last': np.array([0., 1., 2., 3., 4.5]),
               'uneven-first': np.array([0., .5, 2., 3., 4.]), 'geometric': 2.0 ** np.arange(6),
               'repeated': np.array([0., 1., 1., 2., 3.]), 'jump': np.arange(120.) + 0.5 * (np.arange(120) > 90),
               'long-last': np.append(np.arange(299.), 299.25), 'long-first': np.append(-.5, np.arange(1., 150.)),
               'one-off': np.arange(80.) + 0.1 * (np.arange(80) == 70)}[case['g']]
        if case['f'] == '1d':
            x.raises('grid %s' % case['g'], ValueError, lambda: interp_cubic(bad, s1))
        elif case['f'] == 'x':
            x.raises('gridx %s' % case['g'], ValueError, lambda: interp_bicubic(bad, ok, s2))
        else:
            x.raises('gridy %s' % case['g'], ValueError, lambda: interp_bicubic(ok, bad, s2))
        x.op()
        return
    if kind == 'badsamples':
        ok = np.arange(6.0)
        x.op()
        x.raises('2-D samples', ValueError, lambda: interp_cubic(ok, np.ones((2, 2))))
        x.raises('column samples', ValueError, lambda: interp_cubic(ok, np.ones((2, 1))))
        x.raises('1-D samples', ValueError, lambda: interp_bicubic(ok, ok, np.ones(4)))
        x.raises('3 columns', ValueError, lambda: interp_bicubic(ok, ok, np.ones((4, 3))))
        for P in (1, 2):
            grids = [ok, ok + 1][:P]
            e = np.zeros((0, P)) if P == 2 else np.zeros(0)
            W = dense(x, interp_cubic(ok, e) if P == 1 else interp_bicubic(ok, ok, e), (0, 6 ** P), 'empty')
            x.outcome(W)
        return
    raise KeyError(kind)


def cases(tier, engine):
    th = tier == 'thorough'
    yield {'k': 'kernel'}
    for m in list(range(4, 11)) + [16, 17, 33, 64] + (list(range(11, 16)) + [100, 129, 257] if th else []):
        for o in range(len(OFFS)):
            for order in ('sorted', 'reversed', 'shuffled', 'dup'):
                yield {'k': '1d', 'm': m, 'o': o, 'order': order}
        yield {'k': '1d', 'm': m, 'o': m % len(OFFS), 'order': 'shuffled', 'far': True}
        for t in ('int', 'f32', 'strided', 'readonly', 'intgrid'):
            yield {'k': 'f', 'm': m, 't': t}
    for m in (4, 5, 7, 12, 33):
        for o in (0, 1, 2):
            yield {'k': '1d', 'm': m, 'o': o, 'order': 'shuffled', 'fine': True}
        yield {'k': '2d', 'mx': m, 'my': 6, 'ox': 0, 'oy': 1, 'order': 'shuffled', 'px': [], 'fine': True}
    # column numbers beyond small integer types
    yield {'k': 'multi', 'lens': [2, 0, 3] * 4, 'P': 1, 'shape': 'vec', 'm': [6000, 0]}
    yield {'k': 'multi', 'lens': [1, 3], 'P': 2, 'shape': 'col', 'm': [190, 200]}
    for m in (100, 257, 700):
        yield {'k': '1d', 'm': m, 'o': m % len(OFFS), 'order': 'shuffled', 'far': True}
    for mx, my in ((4, 40), (33, 5)):
        yield {'k': '2d', 'mx': mx, 'my': my, 'ox': 1, 'oy': 2, 'order': 'shuffled', 'px': [-400.5, -3.25, -0.5, 0, 1.75, mx - 1.5, mx + 1.25, mx + 90.5]}
    sizes = [4, 5, 6, 9] + ([7, 12, 16, 17] if th else [])
    for mx, my in itertools.product(sizes, sizes):
        for ox, oy in ([(0, 1), (2, 3), (4, 5)] if not th else itertools.product(range(6), range(6))):
            for order in ('plain', 'shuffled', 'fortran'):
                yield {'k': '2d', 'mx': mx, 'my': my, 'ox': ox, 'oy': oy, 'order': order,
                       'px': [-1.75, -0.5, 0.0, 0.25, 1.0, 1.5, mx - 2.5, mx - 2.0, mx - 1.25, mx - 1.0, mx - 0.75, mx + 0.5]}
    top = 4 if not th else 5
    for D in range(1, top):
        for lens in itertools.product(range(4), repeat=D):
            if not sum(lens):
                continue
            yield {'k': 'multi', 'lens': list(lens), 'P': 1, 'shape': 'vec'}
            yield {'k': 'multi', 'lens': list(lens), 'P': 1, 'shape': 'col'}
            yield {'k': 'multi', 'lens': list(lens), 'P': 2, 'shape': 'col'}
    for lens in itertools.product((0, 1, 3), repeat=4):
        if sum(lens):
            yield {'k': 'multi', 'lens': list(lens), 'P': 1, 'shape': 'col'}
            yield {'k': 'multi', 'lens': list(lens), 'P': 2, 'shape': 'col'}
    for lens in ([40, 1, 0, 25], [0, 0, 0, 7, 0, 0], [120], [1] * 9):
        for P in (1, 2):
            yield {'k': 'multi', 'lens': lens, 'P': P, 'shape': 'col'}
    for f in ('1d', 'x', 'y'):
        for g in ('short0', 'short1', 'short2', 'short3', '2d', '2d-col', 'uneven', 'uneven-last', 'uneven-first',
                  'geometric', 'repeated', 'jump', 'long-last', 'long-first', 'one-off'):
            yield {'k': 'bad', 'f': f, 'g': g}
    yield {'k': 'badsamples'}
