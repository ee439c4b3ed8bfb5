"""C21: recorded metrics are the true values, one entry per evaluation."""
import contextlib
import itertools

import numpy as np

from checks.c06 import flat
from checks.c09 import MIXES, Pair
from mc import models, oracle
from runlmc.approx.iterative import Iterative
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta

ID = 'C21'
OPS = ('noise', 'noise1', 'ls', 'batch', 'array', 'opt1', 'opt3', 'optstop', 'predict', 'lik')
SERIES = ('iterations', 'grad_norms', 'grad_error', 'solv_error', 'log_likely')
BOUNDS = ('every history of length <= 2 (thorough 3) over %s, on %d kernel mixes including a kernel without parameters, with 1..3 probes and two '
          'solver tolerances; one model with metrics and a twin without, on the same random draws; after every step the series lengths are '
          'compared with the number of evaluations, every new entry with a value computed from the dense oracle and the solves observed, and '
          'all answers with the twin' % (OPS, len(MIXES) + 2))
ASSUMPTIONS = ['evaluations are counted at the documented parameters_changed() hook; solves at the public solver entry point',
               'the gradient covers every coregionalization, kernel and noise entry, structurally fixed ones included']


@contextlib.contextmanager
def watch():
    """Counts evaluations, and remembers solves and exact gradient data, per model."""
    log = []
    orig = InterpolatedLLGP.parameters_changed
    solve = Iterative.solve
    raw = Iterative.__dict__.get('solve')
    cur = []

    def pc(self):
        rec = dict(model=self, solves=[])
        cur.append(rec)
        try:
            orig(self)
        finally:
            cur.pop()
        log.append(rec)

    def sv(K, y, *a, **kw):
        r = solve(K, y, *a, **kw)
        if cur:
            # an honest but less precise solver, so that every solve has its own visible residual and count
            i = len(cur[-1]['solves'])
            t = isinstance(r, tuple)
            s = np.array(r[0] if t else r, float)
            s[i % len(s)] += 1e-7 * (1 + 3 * i)
            r = (s, r[1] + i, np.linalg.norm(y - K.matvec(s))) if t else s
            cur[-1]['solves'].append((np.array(y, float), r))
        return r
    InterpolatedLLGP.parameters_changed = pc
    Iterative.solve = staticmethod(sv)
    try:
        yield log
    finally:
        InterpolatedLLGP.parameters_changed = orig
        Iterative.solve = raw


class Twin(Pair):
    """A model of the mix with or without metrics."""

    def __init__(self, spec, metrics, it, tol):
        self.spec = dict(spec, par=0, lens=([3, 2] * 4)[:spec['D']], m=[4, 4] if spec['P'] == 2 else 4, data='gen')
        self.fk, self.kern, self.ks, _ = models.make_fk(self.spec)
        self.Xs, self.Ys = models.data(self.spec)
        self.y = np.concatenate(self.Ys)
        np.random.seed(77)
        self.model = models.make_model(self.spec, fk=self.fk, Xs=self.Xs, Ys=self.Ys, metrics=metrics, trace_iterations=it, tolerance=tol)
        self.axes = models.axes_of(self.model, self.spec, self.Xs)
        self.split = len({e[3] for e in models.entries(self.spec)}) > 1
        self.n = 0

    def step(self, op, seed, x):
        np.random.seed(seed)
        if op in ('opt1', 'opt3'):
            self.model.optimize(optimizer=AdaDelta(max_it=int(op[-1]), step_rate=.5))
        elif op == 'optstop':
            self.model.optimize(optimizer=AdaDelta(max_it=9, step_rate=.5, min_grad_ratio=2., permitted_drops=2))
        elif op == 'predict':
            return [self.answers()]
        elif op == 'lik':
            return [self.model.log_likelihood()]
        elif op.startswith('quiet'):
            # one output almost noiseless: its noise gradient dominates
            v = np.array(self.fk.noise)
            v[int(op[5:])] = 0.02
            self.put(x, 'noise', v)
        else:
            self.mutate(op, x)
        return []

    def answers(self):
        m = self.model
        Zs = [X[:1] * .8 + .1 for X in self.Xs]
        out = [m.log_likelihood(), np.array(m.gradient), np.array(m.param_array)]
        for mode in ('exact', 'on-the-fly') + (() if self.split else ('precompute',)):
            m.prediction = mode
            mu, var = m.predict(Zs)
            out += [np.concatenate(mu), np.concatenate(var)]
        return out


def entry(tw, rec):
    """Expected metric values for the evaluation just recorded, at the model's current parameters."""
    orc = tw.current()
    Kx, Ks = orc.K_exact(tw.Xs), orc.K_ski(tw.Xs, tw.axes)
    a = np.linalg.solve(Kx, tw.y)
    Kinv = np.linalg.inv(Kx)
    exact = np.array([0.5 * (a.dot(d).dot(a) - (Kinv * d).sum()) for d in (orc.dK(p, lambda o: o.K_exact(tw.Xs)) for p in orc.params())])
    approx = flat(tw.model.kernel)
    want = dict(grad_norms=np.abs(approx).max(), grad_error=np.abs(approx - exact).max() / np.abs(exact).max())
    want['log_likely'] = -0.5 * (np.linalg.slogdet(Kx)[1] + tw.y.dot(np.linalg.solve(Ks, tw.y)) + len(tw.y) * np.log(2 * np.pi))
    if rec['solves'] and all(isinstance(r, tuple) for _, r in rec['solves']):
        want['solv_error'] = np.mean([np.linalg.norm(b - Ks.dot(r[0])) for b, r in rec['solves']])
        want['iterations'] = np.mean([r[1] for _, r in rec['solves']])
    return want


def run(case, x):
    it, tol = case['it'], case['tol']
    with watch() as log:
        tw = Twin(case['mix'], True, it, tol)
        plain = Twin(case['mix'], False, it, tol)
        x.check(plain.model.metrics is None, 'no metrics object unless asked for')

        # an optimisation evaluates several settings: check each one as it happens
        seen = [0]

        def drain():
            recs = [r for r in log[seen[0]:] if r['model'] is tw.model]
            seen[0] = len(log)
            return recs
        first = drain()
        x.op()
        count = len(first)
        x.check(count >= 1, 'construction evaluates the model')

        def verify(what, n, rec):
            m = tw.model.metrics
            for s in SERIES:
                x.check(len(getattr(m, s)) == n, lambda: '%s: %d entries in %s for %d evaluations' % (what, len(getattr(m, s)), s, n))
            if rec is None:
                return
            for s, v in entry(tw, rec).items():
                x.close('%s: last entry of %s' % (what, s), getattr(m, s)[-1], v, 1e-5, 1e-10 if s == 'solv_error' else 1e-6)
        verify('construction', count, first[-1])
        done = []
        # entries written during an optimisation are compared at the time: wrap the callback of the evaluation hook
        inner = InterpolatedLLGP.parameters_changed
        nested = []

        def hook(self):
            inner(self)
            if self is tw.model and nested:
                nested[-1].append(1)
                verify('%s, evaluation %d' % ('>'.join(done), len(nested[-1])), len(nested[-1]), log[-1])
        InterpolatedLLGP.parameters_changed = hook
        try:
            for i, op in enumerate(case['ops']):
                done.append(op)
                what = '>'.join(done)
                x.op()
                if op.startswith('opt'):
                    old = tw.model.metrics
                    snap = {s: list(getattr(old, s)) for s in SERIES}
                    nested.append([])
                    a = tw.step(op, 100 + i, x)
                    nested.pop()
                    recs = drain()
                    count = len(recs)
                    x.check(tw.model.metrics is not old and all(list(getattr(old, s)) == snap[s] for s in SERIES),
                            what + ': an optimisation starts fresh series and leaves the earlier ones alone')
                    verify(what, count, recs[-1] if recs else None)
                    if count:
                        x.close(what + ': last recorded likelihood is the current one', tw.model.metrics.log_likely[-1],
                                tw.model.log_likelihood(), 1e-8, 1e-8)
                else:
                    keep = {s: list(getattr(tw.model.metrics, s)) for s in SERIES}
                    a = tw.step(op, 100 + i, x)
                    recs = drain()
                    count += len(recs)
                    verify(what, count, recs[-1] if recs else None)
                    n = len(keep['log_likely'])
                    x.check(all(list(getattr(tw.model.metrics, s))[:n] == keep[s] for s in SERIES), what + ': earlier entries kept')
                    if op in ('predict', 'lik'):
                        x.check(not recs, what + ': a query evaluates no new setting')
                    elif op != 'kap':
                        x.check(len(recs) == 1, what + ': one evaluation per parameter change')
                b = plain.step(op, 100 + i, x)
                for u, v in zip(a, b):
                    for k, (g, w) in enumerate(zip(u, v) if isinstance(u, list) else [(u, v)]):
                        x.close('%s: answer %d with and without metrics' % (what, k), g, w, 1e-12, 1e-12)
                x.state(case['mix'], done, tw.model.param_array)
            for k, (g, w) in enumerate(zip(tw.answers(), plain.answers())):
                x.close('%s: answer %d with and without metrics' % (done, k), g, w, 1e-12, 1e-12)
        finally:
            InterpolatedLLGP.parameters_changed = inner


EXTRA = [
    dict(D=2, P=1, lmc=[['rbf', 2, None], ['scaled:rbf', 1, None]], slfm=[], indep=[['matern32', None]], idx=[0]),
    dict(D=2, P=1, lmc=[['std_periodic', 1, None], ['rbf', 1, None]], slfm=[['rbf', None]], indep=[], idx=None),
]


def cases(tier, engine):
    th = tier == 'thorough'
    i = 0
    for mix in (dict(D=6, P=1, lmc=[['rbf', 3, None]], slfm=[['matern32', None]], indep=[], idx=None),
                dict(D=7, P=1, lmc=[['rbf', 1, None], ['std_periodic', 2, None]], slfm=[], indep=[['rbf', None]] * 2, idx=[6, 3]),
                dict(D=2, P=2, lmc=[['rbf', 2, [1]], ['rbf', 1, [0]], ['matern32', 1, None]], slfm=[['rbf', [0]]], indep=[], idx=None)):
        for ops in ((), ('ls',), ('noise', 'opt1'), ('opt1', 'ls')):
            yield dict(mix=mix, ops=list(ops), it=4, tol=1e-10)
        for d in range(mix['D']):
            yield dict(mix=mix, ops=['quiet%d' % d], it=2, tol=1e-10)
    for mi, mix in enumerate(MIXES + EXTRA):
        for n in range(4 if th else 3):
            for ops in itertools.product(OPS, repeat=n):
                i += 1
                if not th and n == 2 and (mi or ops[0] in ('predict', 'lik', 'noise1')) and i % 9:
                    continue
                if th and n == 3 and i % (1 if mi == 0 else 7):
                    continue
                if mi and 'ls' in ops and mix['lmc'][-1:] == [] and not mix['slfm'] and not mix['indep']:
                    continue
                yield dict(mix=mix, ops=list(ops), it=1 + i % 3, tol=[1e-10, 1e-3][i % 2])
