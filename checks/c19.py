"""C19: relabelling or shifting the data only relabels or leaves the answers."""
import itertools

import numpy as np

from mc import models, seams
from mc.mixset import bigset, mixset
from mc.predict import test_inputs
from runlmc.lmc.likelihood import ExactLMCLikelihood
from runlmc.models.interpolated_llgp import InterpolatedLLGP

ID = 'C19'
BOUNDS = ('for every kernel mix of mixset level 0 plus rank-2, duplicated-kernel and split-dimension mixes (level 1 thorough), with and '
          'without user grid bounds and normalisation: every permutation of the outputs, every permutation of the observations of each '
          'output (up to 3!), every permutation of the test points, every permutation of each kernel group, the swap of two input dimensions, '
          'three translations, a ladder of %d translations that put an edge of the data or of the bounds at listed places (2 mixes), a few transformations of each kind of larger models (bigset), and every composition of one of each kind (thorough: of every pair of kinds); each transformed model is '
          'compared with the original: likelihood, exact covariance, exact gradient, stochastic gradient averaged over all 16 probe vectors (4 observations), predictions in all modes' % (3 * 21))
ASSUMPTIONS = ['agreement to 1e-6 (translations change rounding of the grid)']
MODES = ('exact', 'on-the-fly', 'precompute')


class Problem:
    def __init__(self, spec, bounds, norm):
        self.P = spec['P']
        ks, noise = models.values(spec)
        self.kern = [dict(k, grp=e[0], rank=e[2], idx=e[4], key=q) for q, (k, e) in enumerate(zip(ks, models.entries(spec)))]
        self.noise = np.array(noise)
        self.Xs, self.Ys = models.data(spec)
        self.out = list(range(spec['D']))                           # original label of each output
        self.obs = [list(range(len(X))) for X in self.Xs]           # original position of each observation
        self.lo, self.hi, self.m = models.grid_args(spec)
        self.bounds, self.norm = bounds, norm
        self.Zs = test_inputs(spec, self.Xs, None, 'gen', ([2, 0, 3] * 4)[:spec['D']] if spec['D'] > 1 else [3])
        self.tst = [list(range(len(Z))) for Z in self.Zs]

    def copy(self):
        q = object.__new__(Problem)
        q.__dict__.update({k: (list(v) if isinstance(v, list) else v) for k, v in self.__dict__.items()})
        q.kern = [dict(k) for k in self.kern]
        return q

    def outputs(self, perm):
        q = self.copy()
        for name in ('Xs', 'Ys', 'Zs', 'out', 'obs', 'tst'):
            setattr(q, name, [getattr(self, name)[i] for i in perm])
        q.noise = self.noise[list(perm)]
        for k in q.kern:
            k['A'] = k['A'][:, list(perm)]
            k['kappa'] = k['kappa'][list(perm)]
            if k['idx'] is not None:
                k['idx'] = list(perm).index(k['idx'])
        return q

    def observations(self, d, perm):
        q = self.copy()
        q.Xs[d], q.Ys[d], q.obs[d] = self.Xs[d][list(perm)], self.Ys[d][list(perm)], [self.obs[d][i] for i in perm]
        return q

    def points(self, d, perm):
        q = self.copy()
        q.Zs[d], q.tst[d] = self.Zs[d][list(perm)], [self.tst[d][i] for i in perm]
        return q

    def kernels(self, grp, perm):
        q = self.copy()
        mine = [i for i, k in enumerate(self.kern) if k['grp'] == grp]
        for a, b in zip(mine, perm):
            q.kern[a] = dict(self.kern[mine[b]])
        return q

    def swap(self):
        q = self.copy()
        q.Xs = [X[:, ::-1].copy() for X in self.Xs]
        q.Zs = [Z[:, ::-1].copy() for Z in self.Zs]
        q.lo, q.hi, q.m = self.lo[::-1], self.hi[::-1], self.m[::-1]
        for k in q.kern:
            k['dims'] = tuple(sorted(1 - d for d in k['dims']))
        return q

    def turn(self, perm):
        q = self.copy()
        perm = list(perm)
        q.Xs = [X[:, perm].copy() for X in self.Xs]
        q.Zs = [Z[:, perm].copy() for Z in self.Zs]
        q.lo, q.hi, q.m = ([v[i] for i in perm] for v in (self.lo, self.hi, self.m))
        for k in q.kern:
            k['dims'] = tuple(sorted(perm.index(d) for d in k['dims']))
        return q

    def shift(self, c):
        q = self.copy()
        c = np.array(c[:self.P])
        q.Xs = [X + c for X in self.Xs]
        q.Zs = [Z + c for Z in self.Zs]
        q.lo, q.hi = list(np.array(self.lo) + c), list(np.array(self.hi) + c)
        return q

    def observe(self, x):
        spec = dict(D=len(self.out), P=self.P, lmc=[], slfm=[], indep=[], idx=None)
        for k in self.kern:
            e = [k['kind'], k['rank'], list(k['dims'])] if k['grp'] == 'lmc' else [k['kind'], list(k['dims'])]
            spec[k['grp']].append(e)
        if spec['indep']:
            spec['idx'] = [k['idx'] for k in self.kern if k['grp'] == 'indep']
        fk = models.make_fk(spec, self.kern, self.noise)[0]
        n = sum(map(len, self.Xs))
        kw = dict(lo=self.lo, hi=self.hi, m=self.m) if self.bounds else dict(m=self.m)
        with seams.all_probes() as used:
            x.op()
            model = InterpolatedLLGP([X.copy() for X in self.Xs], [Y.copy() for Y in self.Ys], normalize=self.norm, functional_kernel=fk,
                                     max_procs=1, trace_iterations=2 ** n if n <= 4 else 1, tolerance=1e-11, **kw)
        o = {}
        o['likelihood'] = model.log_likelihood()
        K = np.array(model.K())
        rows = [(d, i) for d, ob in zip(self.out, self.obs) for i in ob]
        back = np.argsort([d * 100 + i for d, i in rows])
        o['covariance'] = K[np.ix_(back, back)]
        o['interpolated covariance'] = model.kernel.K.as_numpy()[np.ix_(back, back)]
        split = len({k['dims'] for k in self.kern}) > 1
        for mode in MODES:
            if mode == 'precompute' and (split or len(self.out) * np.prod(np.array(self.m) + 4) > 130):
                continue
            model.prediction = mode
            x.op()
            mu, var = model.predict([Z.copy() for Z in self.Zs])
            for d, ts, m, v in zip(self.out, self.tst, mu, var):
                o['%s mean of output %d' % (mode, d)] = np.asarray(m)[np.argsort(ts)] if len(ts) else np.zeros(0)
                o['%s variance of output %d' % (mode, d)] = np.asarray(v)[np.argsort(ts)] if len(ts) else np.zeros(0)
        x.op()
        ex = ExactLMCLikelihood(fk, model.Xs, model.Ys)
        if n <= 4 and not used:
            x.skip('probes not drawn with numpy.random.randint(0, 2, (iterations, n)): stochastic gradients not compared')
        for name, lik in [('exact', ex)] + ([('averaged stochastic', model.kernel)] if used else []):
            inv = np.argsort(self.out)
            A, kap, kk = lik.coreg_vec_gradients(), lik.coreg_diags_gradients(), lik.kernel_gradients()
            for q, k in enumerate(self.kern):
                o['%s gradient of A of kernel %d' % (name, k['key'])] = np.asarray(A[q])[:, inv]
                o['%s gradient of kappa of kernel %d' % (name, k['key'])] = np.asarray(kap[q])[inv]
                o['%s gradient of kernel %d' % (name, k['key'])] = np.array([float(v) for v in kk[q]])
            o[name + ' gradient of noise'] = np.asarray(lik.noise_gradient())[inv]
        return o


def moves(p):
    """Every single transformation, by kind."""
    D = len(p.out)
    out = {k: [] for k in ('obs', 'pts', 'kernels', 'swap', 'shift', 'outputs')}
    for perm in itertools.permutations(range(D)):
        if list(perm) != sorted(perm):
            out['outputs'].append(('outputs', perm))
    for d in range(D):
        for perm in itertools.permutations(range(len(p.Xs[d]))):
            if list(perm) != sorted(perm):
                out['obs'].append(('observations', d, perm))
        for perm in itertools.permutations(range(len(p.Zs[d]))):
            if list(perm) != sorted(perm):
                out['pts'].append(('points', d, perm))
    for grp in ('lmc', 'slfm', 'indep'):
        n = sum(k['grp'] == grp for k in p.kern)
        for perm in itertools.permutations(range(n)):
            if list(perm) != sorted(perm):
                out['kernels'].append(('kernels', grp, perm))
    if p.P == 2:
        out['swap'].append(('swap',))
    out['shift'] = [('shift', c) for c in ((7.25, -3.5), (-0.3, 0.), (0., 1000.))]
    return out


def apply(p, seq):
    for mv in seq:
        p = getattr(p, mv[0])(*mv[1:])
    return p


# where the data's or the bounds' edge is moved to
EDGES = (0., 1e-9, 1e-4, 0.004, 0.02, 0.045, 0.09, 0.3, 0.5, 0.77, 1 - 1e-9, 1., 1.02, 2.5, 4., 9.97, 10., 64., 99., 1234.5, 1e5)


def ladder(case, p):
    """Translations that put one edge of the data or of the bounds at every listed place."""
    lo = np.vstack(p.Xs).min(axis=0) if case['edge'] == 'data' else np.array(p.lo)
    hi = np.vstack(p.Xs).max(axis=0) if case['edge'] == 'data' else np.array(p.hi)
    out = []
    for e in EDGES:
        out.append([('shift', list(e - lo))])
        out.append([('shift', list(-e - hi))])
        out.append([('shift', list(-e - lo))])
    if p.P > 1:                          # one dimension only
        out += [[('shift', [mv[0][1][0]] + [0.] * (p.P - 1))] for mv in out[::4]]
    return out


def large(p):
    """A few transformations of each kind, and all at once."""
    D = len(p.out)
    outs = [('outputs', tuple(range(D))[::-1]), ('outputs', tuple(range(1, D)) + (0,))] if D > 1 else []
    obs = [[('observations', d, tuple(range(len(X)))[::-1]) for d, X in enumerate(p.Xs)],
           [('observations', d, tuple(np.argsort([(7 * i + d) % len(X) + i / 1e3 for i in range(len(X))]))) for d, X in enumerate(p.Xs)],
           [('observations', d, tuple(np.argsort(X[:, -1]))) for d, X in enumerate(p.Xs)]]
    ker = []
    for grp in ('lmc', 'slfm', 'indep'):
        n = sum(k['grp'] == grp for k in p.kern)
        if n > 1:
            ker.append(('kernels', grp, tuple(range(n))[::-1]))
    pts = [('points', d, tuple(range(len(Z)))[::-1]) for d, Z in enumerate(p.Zs)]
    dims = [('turn', perm) for perm in itertools.permutations(range(p.P)) if list(perm) != sorted(perm)]
    seqs = [[m] for m in outs] + obs + [[m] for m in ker] + [pts] + [[m] for m in dims] + [[('shift', [3.7, -11.2, 0.4, 8.] )]]
    return seqs + [outs[:1] + ker] + [obs[1] + pts + dims[-1:] + outs[-1:]]


def run(case, x):
    p = Problem(case['spec'], case['bounds'], case['norm'])
    base = p.observe(x)
    if 'edge' in case or 'big' in case:
        seqs = ladder(case, p) if 'edge' in case else large(p)
        for s in seqs[case['part'][0]::case['part'][1]]:
            got = apply(p, s).observe(x)
            what = ' then '.join(str(m) for m in s)
            far = max([1.] + [abs(v) for m in s if m[0] == 'shift' for v in m[1]])
            x.check(set(got) == set(base), what + ': same set of answers')
            for k in base:
                x.close('%s under %s' % (k, what), got[k], base[k], 2e-6 + 1e-9 * far, 2e-6 + 1e-9 * far)
            x.state(case, what)
        return
    mv = moves(p)
    seqs = [[m] for ms in mv.values() for m in ms]
    kinds = [k for k in mv if mv[k]]
    if case['deep']:
        seqs += [[a, b] for k, l in itertools.combinations(kinds, 2) for a in mv[k] for b in mv[l]]
    seqs.append([mv[k][-1] for k in kinds])
    seqs.append([mv[k][0] for k in kinds])
    part, parts = case['part']
    for s in seqs[part::parts]:
        got = apply(p, s).observe(x)
        what = ' then '.join(str(m) for m in s)
        x.check(set(got) == set(base), what + ': same set of answers')
        for k in base:
            x.close('%s under %s' % (k, what), got[k], base[k], 1e-6, 1e-6)
        x.state(case, what)


EXTRA = [
    dict(D=2, P=1, lmc=[['rbf', 2, None]], slfm=[], indep=[], idx=None),
    dict(D=3, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[['matern32', None], ['rbf', None]], idx=[2, 0]),
    dict(D=2, P=1, lmc=[['rbf', 1, None], ['matern32', 2, None]], slfm=[['rbf', None]], indep=[], idx=None),
    dict(D=2, P=1, lmc=[], slfm=[['rbf', None], ['std_periodic', None], ['matern32', None]], indep=[], idx=None),
    dict(D=2, P=1, lmc=[], slfm=[['rbf', None]], indep=[['matern32', None], ['rbf', None]], idx=[1, 1]),
    dict(D=2, P=2, lmc=[['rbf', 1, [0]], ['rbf', 1, [1]]], slfm=[], indep=[], idx=None),
    dict(D=2, P=2, lmc=[['rbf', 1, None]], slfm=[['matern32', [1]]], indep=[['rbf', [0]]], idx=[1]),
    dict(D=3, P=2, lmc=[], slfm=[['rbf', [1]]], indep=[['rbf', [1]]], idx=[2]),
]


def cases(tier, engine):
    th = tier == 'thorough'
    lad = [mixset(0)[0], EXTRA[6]] + (EXTRA if th else [])
    for s in lad:
        for edge, bounds in (('data', False), ('bounds', True), ('data', True)) if th else (('data', False), ('bounds', True)):
            for part in range(4):
                yield dict(spec=dict(s, lens=[3, 3, 2][:s['D']], m=[5, 4] if s['P'] == 2 else 6, par=1, data='gen'), bounds=bounds, norm=False, edge=edge,
                           part=[part, 4])
    for i, s in enumerate(bigset(2 if th else 1)):
        if sum(s['lens']) > (140 if th else 60):
            continue
        for part in range(4):
            yield dict(spec=dict(s, m=s['m'] if isinstance(s['m'], list) else [s['m']], par=i % 3, data='gen'), bounds=bool(i % 2), norm=bool(i % 3 == 0),
                       big=True, part=[part, 4])
    i = 0
    for s in itertools.chain(EXTRA, mixset(1 if th else 0)):
        for bounds, norm in itertools.product((True, False), repeat=2):
            i += 1
            if not th and i % 4 != (i // 4) % 4:
                continue
            lens = {1: [4] if th else [3], 2: [3, 2] if i % 3 else [2, 2], 3: [2, 3, 2] if th else [2, 2, 2]}[s['D']]
            deep = th and i % 8 == 0
            n = 24 if deep else 6 if th else 3
            for part in range(n):
                yield dict(spec=dict(s, lens=lens, m=[5, 4] if s['P'] == 2 else 6, par=i % 3, data='gen'), bounds=bounds, norm=norm, deep=deep,
                           part=[part, n])
