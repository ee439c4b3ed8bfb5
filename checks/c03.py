"""C03: the inducing grid."""
import itertools

import numpy as np

from runlmc.approx.interpolation import autogrid
from runlmc.kern.rbf import RBF
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP

ID = 'C03'
BOUNDS = ('autogrid: 1..3 dimensions x 17 data layouts (among them inputs which all coincide in every, the first or the later dimensions) x lower/upper bound each in {none, inside, equal, outside, far outside, beyond the other end, zero} '
          '(mixed per dimension) x sizes {none, list, tuple, int array, float array; bounds as int arrays; mixed per dimension}; '
          'the same through the model for scalar/list/array arguments and active-dimension splits of one to three dimensions; thousands of inputs with the extremes anywhere')
ASSUMPTIONS = ['a spread below rounding error counts as none']

DATA = {
    'plain': [[0.0, 1.0, 0.4], [0.2, 0.9]],
    'one': [[0.3, 2.0]],
    'ragged': [[0.5], [-1.0, 4.0, 2.0, 2.5], [0.0, 0.1]],
    'single-first': [[0.5], [-1.0, 4.0, 2.0]],
    'singles': [[0.5], [1.5], [-2.0, 0.0, 3.0, 1.0]],
    'extremes-first': [[-7.0, 9.0], [0.0, 1.0], [2.0, 3.0]],
    'extremes-split': [[0.0, 1.0], [-5.0, 2.0], [3.0, 8.0]],
    'negative': [[-9.0, -8.5], [-8.75, -7.0]],
    'offset': [[1e5 + 0.5, 1e5 + 2], [1e5 + 1, 1e5 + 3.5]],
    'tiny': [[1e-6, 5e-6], [2e-6, 3e-6, 4e-6]],
    'dups': [[1.0, 1.0, 2.0], [1.5, 1.5]],
    'unsorted-int': [[5, 1, 3], [4, 2]],
}
LONG = {'long-end': [1100, 2300], 'long-start': [900, 1], 'long-mid': [2, 5000, 3]}
# no spread: in the dimensions listed, all inputs are at the given value
FLAT = {'flat-all': (0, 0, 0, 0), 'flat-far': (0, 2.5e6, 0, -3e3), 'flat-small': (0, 1e-8, 0, -1e-9),
        'flat-first': (0, -4.0, None, None), 'flat-rest': (None, None, 0, 0.25)}


def data(name, P):
    out = []
    if name in LONG:
        # the extremes sit at the end, the start or the middle of the longest output
        for n in LONG[name]:
            v = np.cos(np.arange(n) * 1.7)
            if n == max(LONG[name]):
                at = {'end': n - 2, 'start': 0, 'mid': n // 2 + 31}[name[5:]]
                v[at], v[at + 1] = 8.0, -6.0
            out.append(np.column_stack([v * (1 + d) + 3 * d for d in range(P)]))
        return out
    for v in DATA.get(name, DATA['plain']):
        cols = [np.array(v)]
        for d in range(1, P):
            # different range and order per dimension
            cols.append(np.array(v)[::-1] * (2.0 if d == 1 else -0.5) + d)
        if name in FLAT:
            first, at0, rest, at = FLAT[name]
            if first is not None:
                cols[0] = np.full(len(v), at0, float)
            if rest is not None:
                cols[1:] = [np.full(len(v), at, float) for _ in cols[1:]]
        out.append(np.column_stack(cols))
    return out


def expect(x, what, grids, Xs, lo, hi, m):
    P = Xs[0].shape[1]
    x.check(len(grids) == P, '%s: %d axes for %d dimensions' % (what, len(grids), P))
    allX = np.vstack(Xs).astype(float)
    for d in range(P):
        g = np.asarray(grids[d], float)
        n = (sum(len(X) for X in Xs) // len(Xs)) if m is None else int(m[d])
        x.check(g.shape == (n + 4,), '%s: axis %d has shape %s, expected %d points' % (what, d, g.shape, n + 4))
        st = np.diff(g)
        span = g[-1] - g[0]
        x.check(st.min() > 0, '%s: axis %d not increasing' % (what, d))
        x.close('%s spacing' % what, st / span, np.full(len(st), 1.0 / len(st)), 0, 1e-9 + 1e-14 * np.abs(g).max() / span)
        dlo, dhi = allX[:, d].min(), allX[:, d].max()
        eps = 1e-12 * max(1.0, np.abs(g).max())
        x.check((g <= dlo + eps).sum() >= 2 and (g >= dhi - eps).sum() >= 2,
                '%s: axis %d fewer than two grid points beyond the data' % (what, d))
        if lo is not None:
            x.check(g[0] <= lo[d] + eps, '%s: axis %d lower bound %r not covered (%r)' % (what, d, lo[d], g[0]))
        if hi is not None:
            x.check(g[-1] >= hi[d] - eps, '%s: axis %d upper bound %r not covered (%r)' % (what, d, hi[d], g[-1]))
        # the bounds used are the tightest that cover data and request: two spacings on either side
        L = dlo if lo is None else min(dlo, lo[d])
        H = dhi if hi is None else max(dhi, hi[d])
        if H == L:
            continue
        x.check(g[0] >= L - 2.001 * (H - L) / n and g[-1] <= H + 2.001 * (H - L) / n,
                '%s: axis %d [%r, %r] much wider than needed for [%r, %r]' % (what, d, g[0], g[-1], L, H))


def bound(kind, X, d, lower):
    a, b = X[:, d].min(), X[:, d].max()
    r = float(b - a) or 1.0
    e = a if lower else b
    s = -1 if lower else 1
    return float({'in': e - s * 0.3 * r, 'eq': e, 'out': e + s * 0.7 * r, 'far': e + s * 9 * r, 'zero': 0.0,
                  'past': e - s * 1.6 * r}[kind])


FORMS = {'list': list, 'tuple': tuple, 'array': np.array, 'farray': lambda v: np.array(v, float),
         'iarray': lambda v: np.array([int(np.floor(a)) for a in v])}


def run(case, x):
    P = case['P']
    Xs = data(case['data'], P)
    X = np.vstack(Xs).astype(float)
    mk = FORMS[case['form']]
    lo = None if case['lo'] is None else mk([bound(k, X, d, True) for d, k in enumerate(case['lo'])])
    hi = None if case['hi'] is None else mk([bound(k, X, d, False) for d, k in enumerate(case['hi'])])
    m = None if case['m'] is None else mk(case['m'])
    x.state(case)
    was = [a.copy() for a in Xs], *(None if v is None else list(v) for v in (lo, hi, m))
    if case['via'] == 'autogrid':
        grids = autogrid(Xs, lo, hi, m)
        x.op()
        expect(x, 'autogrid', grids, Xs, was[1], was[2], was[3])
        again = autogrid(Xs, lo, hi, m)
        for a, b in zip(grids, again):
            x.close('same call, same grid', b, a, 0, 0)
    else:
        Ys = [np.sin(np.arange(len(a)) + 1.0 + i) for i, a in enumerate(Xs)]
        kerns = [RBF(name='r%d' % i, active_dims=None if ad is None else list(ad))
                 for i, ad in enumerate(case['dims'])]
        fk = FunctionalKernel(D=len(Xs), lmc_kernels=kerns, lmc_ranks=[1] * len(kerns))
        if case['via'] == 'scalar':
            z = np.array if case['form'] == 'array' else (lambda v: v)
            lo, hi, m = (None if v is None else z(v[0]) for v in (lo, hi, m))
            scal = [None if v is None else float(v) for v in (lo, hi, m)]
        model = InterpolatedLLGP(Xs, Ys, functional_kernel=fk, lo=lo, hi=hi, m=m, max_procs=1, trace_iterations=1,
                                 normalize=False)
        x.op()
        x.check(np.isfinite(model.log_likelihood()), 'likelihood on this grid is %r' % model.log_likelihood())
        mu, var = model.predict(Xs)
        x.check(all(np.isfinite(v).all() for v in mu + var), 'prediction on this grid is not finite')
        keys = {tuple(sorted(ad)) if ad is not None else tuple(range(P)) for ad in case['dims']}
        x.check(set(model.grid_axes) == keys, 'grids for %s, expected %s' % (set(model.grid_axes), keys))
        for ad in keys:
            sub = [a[:, list(ad)] for a in Xs]
            expect(x, 'model grid', model.grid_axes[ad], sub,
                   *(None if v is None else [v[d] for d in ad] for v in was[1:]))
    x.check(all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in zip(Xs, was[0])), 'data modified')
    if case['via'] == 'scalar':
        x.check([None if v is None else float(v) for v in (lo, hi, m)] == scal, 'scalar argument modified')
    else:
        for name, v, w in (('lo', lo, was[1]), ('hi', hi, was[2]), ('m', m, was[3])):
            x.check(v is None or list(v) == w, lambda: 'argument %s modified: %s was %s' % (name, list(v), w))


def cases(tier, engine):
    th = tier == 'thorough'

    def plan(c):
        P = c.choose('P', [1, 2, 3])
        d = c.choose('data', sorted(DATA) + sorted(FLAT) if P < 3 or th else ['ragged', 'extremes-split', 'offset', 'flat-rest', 'flat-far'])
        kinds = ['in', 'eq', 'out', 'far'] + (['zero', 'past'] if P == 1 or th else [])
        los = [None] + [[k] * P for k in kinds]
        his = [None] + [[k] * P for k in kinds]
        ms = [None, [8] * P, [1] * P, [2] * P, [64] * P] + ([[500]] if P == 1 else [])
        if P == 2:
            los += [['in', 'out'], ['far', 'eq'], ['zero', 'zero'], ['zero', 'past']]
            his += [['out', 'in'], ['eq', 'far'], ['zero', 'zero']]
            ms += [[5, 9], [9, 5]]
        if P == 3:
            los += [['in', 'out', 'eq']]
            his += [['far', 'in', 'out']]
            ms += [[5, 9, 7]]
        lo = c.choose('lo', los)
        hi = c.choose('hi', his)
        m = c.choose('m', ms)
        form = c.choose('form', sorted(FORMS) if P == 1 or th else ['array', 'iarray', 'list'] if P == 2 else ['array', 'list']) if not (lo is None and hi is None and m is None) else 'list'
        return {'via': 'autogrid', 'P': P, 'data': d, 'lo': lo, 'hi': hi, 'm': m, 'form': form, 'dims': None}
    yield from engine.enumerate_plan(plan)
    for d in sorted(LONG):
        for P in (1, 2, 3):
            for lo, hi, m in itertools.product((None, ['in'] * P), (None, ['far'] * P), (None, [8] * P)):
                yield {'via': 'autogrid', 'P': P, 'data': d, 'lo': lo, 'hi': hi, 'm': m, 'form': 'array', 'dims': None}
    sub = [[0], [1], [2], [0, 1], [0, 2], [1, 2], [2, 0], [2, 1]]
    for dims in [[a] for a in sub] + [[a, b] for a in sub for b in (sub if th else sub[3:6])]:
        for lo, hi, m in itertools.product((None, ['in', 'far', 'out']), (None, ['far', 'out', 'in']), (None, [4, 6, 9])):
            for form in ('list', 'array'):
                yield {'via': 'model', 'P': 3, 'data': 'plain', 'lo': lo, 'hi': hi, 'm': m, 'form': form, 'dims': dims}

    def model(c):
        P = c.choose('P', [1, 2])
        d = c.choose('data', ['plain', 'extremes-split', 'offset', 'flat-all', 'flat-rest'] if not th else
                     ['plain', 'extremes-split', 'offset', 'unsorted-int', 'negative', 'dups'] + sorted(FLAT))
        via = c.choose('via', ['model', 'scalar'] if P == 1 else ['model'])
        dims = c.choose('dims', [[None]] if P == 1 else [[None], [[0], [1]], [[1, 0]], [[1]], [[0], None]])
        lo = c.choose('lo', [None, ['out'] * P, ['in'] * P] + ([['in', 'far']] if P == 2 else []))
        hi = c.choose('hi', [None, ['out'] * P] + ([['far', 'in']] if P == 2 else []))
        m = c.choose('m', [None, [8] * P] + ([[6, 9]] if P == 2 else []))
        form = c.choose('form', ['list', 'array'])
        return {'via': via, 'P': P, 'data': d, 'lo': lo, 'hi': hi, 'm': m, 'form': form, 'dims': dims}
    yield from engine.enumerate_plan(model)
