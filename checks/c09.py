"""C09: answers depend only on the current parameters, never on the history."""
import copy
import itertools
import logging
import pickle

import numpy as np

from mc import models
from mc.predict import check_prediction, posterior, test_inputs
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.priors import Gamma

ID = 'C09'
MUT = ('noise', 'noise1', 'ls', 'vec', 'kap', 'batch', 'array', 'opt', 'swap', 'tiny', 'undo', 'same', 'debug', 'mid', 'optfail', 'badset', 'fix',
       'prior', 'rnd', 'noiset', 'vecp', 'kapp', 'lst')
QRY = ('exact', 'fly', 'pre', 'lik', 'K', 'other', 'othset', 'bad', 'grad', 'quant', 'text', 'deep', 'pickle', 'reuse')
BOUNDS = ('every history over %d mutators %s and %d queries %s, on a model and a second one in the same process: all histories of '
          'length <= 2 and all of the forms query,mutate,query / mutate,query,mutate of length 3 over a core alphabet (quick), '
          'all of length 3 over the full alphabet and 4 over the core alphabet (thorough); each query inside the history is compared '
          'with a dense oracle of the current parameters, and after the history everything is observed twice: covariance, grid '
          'covariance, likelihood, predictions in all modes, for both models; for several kernel mixes'
          % (len(MUT), MUT, len(QRY), QRY))
ASSUMPTIONS = ['parameters are changed through the documented setters or paramz arrays; compared to 1e-6']
MIXES = [
    dict(D=2, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None),
    dict(D=2, P=1, lmc=[], slfm=[['rbf', None]], indep=[['matern32', None]], idx=[1]),
    dict(D=1, P=1, lmc=[['matern32', 1, None], ['rbf', 1, None]], slfm=[], indep=[], idx=None),
    dict(D=2, P=2, lmc=[['rbf', 1, [0]]], slfm=[['rbf', [1]]], indep=[], idx=None),
]


class Pair:
    """One real model together with its data and parameter handles."""

    def __init__(self, spec, par):
        self.spec = dict(spec, par=par, lens=[3, 2][:spec['D']], m=[4, 4] if spec['P'] == 2 else 4, data='gen')
        self.fk, self.kern, self.ks, _ = models.make_fk(self.spec)
        self.Xs, self.Ys = models.data(self.spec)
        if par:
            self.Ys = [y * 1.3 - 0.2 for y in self.Ys]
        self.y = np.concatenate(self.Ys)
        self.model = models.make_model(self.spec, fk=self.fk, Xs=self.Xs, Ys=self.Ys)
        self.axes = models.axes_of(self.model, self.spec, self.Xs)
        self.split = len({e[3] for e in models.entries(self.spec)}) > 1
        self.Z = [test_inputs(self.spec, self.Xs, self.axes, 'gen', l[:spec['D']]) for l in ([2, 1], [0, 2])]
        self.Z.append([Z * 0.83 + 0.21 for Z in self.Z[0]])
        self.n = 0
        self.snaps = []
        self.buf = [Z.copy() for Z in self.Z[0]]

    def current(self):
        """Dense oracle for the parameter values the model reports now."""
        ks = []
        for q, k in enumerate(self.ks):
            p = [float(np.asarray(o)[0]) for o in models.kernel_param_objects(k['kind'], self.kern[q])]
            ks.append(dict(k, p=p, A=np.array(self.fk.coreg_vecs[q]), kappa=np.array(self.fk.coreg_diags[q])))
        return models.make_oracle(ks, np.array(self.fk.noise))

    def put(self, x, attr, value):
        """Set through a documented setter; what was set is what is there."""
        setattr(self.fk, attr, value)
        got = getattr(self.fk, attr)
        x.close('%s as set' % attr, np.concatenate([np.ravel(np.array(v)) for v in got]), np.concatenate([np.ravel(np.array(v)) for v in value]), 1e-14, 0)

    def put_ls(self, x, k, v):
        k.inv_lengthscale = v
        x.close('inverse lengthscale as set', float(np.asarray(k.inv_lengthscale)[0]), v, 1e-14, 0)

    def mutate(self, op, x):
        self.n += 1
        f = [1.37, 0.71, 1.9, 0.6][self.n % 4]
        fk = self.fk
        free = [q for q, e in enumerate(models.entries(self.spec)) if e[0] != 'indep']
        lmc = [q for q, e in enumerate(models.entries(self.spec)) if e[0] == 'lmc']
        if op == 'noise':
            self.put(x, 'noise', np.array(fk.noise) * f)
        elif op == 'noise1':
            # a single element through the parameter tree
            for p in self.model.flattened_parameters:
                if p.name == 'noise':
                    p[p.size - 1] = float(np.asarray(p)[p.size - 1]) * f
        elif op == 'ls':
            k = self.kern[-1]
            self.put_ls(x, k, float(np.asarray(k.inv_lengthscale)[0]) * f)
        elif op == 'vec':
            vs = [np.array(v) for v in fk.coreg_vecs]
            for q in free:
                vs[q] = vs[q] * f + 0.1
            self.put(x, 'coreg_vecs', vs)
        elif op == 'kap':
            ds = [np.array(v) for v in fk.coreg_diags]
            for q in lmc:
                ds[q] = ds[q] * f
            self.put(x, 'coreg_diags', ds)
        elif op == 'noiset':
            self.put(x, 'noise', np.array(fk.noise) * (1 + 1e-5))
        elif op == 'vecp':
            # the same entries elsewhere: sums and norms are unchanged
            self.put(x, 'coreg_vecs', [np.array(v)[:, ::-1].copy() if q in free else np.array(v) for q, v in enumerate(fk.coreg_vecs)])
        elif op == 'kapp':
            self.put(x, 'coreg_diags', [np.array(v)[::-1].copy() if q in lmc else np.array(v) for q, v in enumerate(fk.coreg_diags)])
        elif op == 'lst':
            for k in self.kern:
                self.put_ls(x, k, float(np.asarray(k.inv_lengthscale)[0]) * (1 + 1e-5))
        elif op == 'batch':
            self.model.update_model(False)
            self.put(x, 'noise', np.array(fk.noise) * f)
            k = self.kern[0]
            k.inv_lengthscale = float(np.asarray(k.inv_lengthscale)[0]) / f
            self.model.update_model(True)
        elif op == 'array':
            self.model[:] = np.array(self.model.param_array) * (0.9 + 0.1 * f)
        elif op == 'swap':
            # a change that keeps the multiset of parameter values
            if self.spec['D'] > 1:
                self.put(x, 'noise', np.array(fk.noise)[::-1].copy())
            else:
                ls = [float(np.asarray(k.inv_lengthscale)[0]) for k in self.kern]
                for k, v in zip(self.kern, ls[::-1]):
                    k.inv_lengthscale = v
        elif op == 'tiny':
            self.model[:] = np.array(self.model.param_array) * (1 + 3e-6)
        elif op == 'undo':
            was = np.array(self.model.param_array)
            self.model[:] = was * f
            self.model[:] = was
        elif op == 'same':
            self.model[:] = np.array(self.model.param_array)
        elif op == 'debug':
            # metrics-style debugging on while parameters change
            log = logging.getLogger('runlmc')
            level = log.level
            log.setLevel(logging.DEBUG)
            try:
                self.put(x, 'noise', np.array(fk.noise) * f)
                self.model.log_likelihood()
            finally:
                log.setLevel(level)
        elif op == 'opt':
            self.model.optimize(optimizer=AdaDelta(max_it=2, step_rate=0.5))
        elif op == 'mid':
            # queries while updates are deferred
            self.model.update_model(False)
            self.put(x, 'noise', np.array(fk.noise) * f)
            for mode in ('exact', 'precompute'):
                if mode == 'exact' or not self.split:
                    self.model.prediction = mode
                    self.model.predict([Z.copy() for Z in self.Z[0]])
            self.model.log_likelihood()
            self.model.K()
            k = self.kern[0]
            k.inv_lengthscale = float(np.asarray(k.inv_lengthscale)[0]) / f
            self.model.update_model(True)
        elif op == 'optfail':
            # an optimisation abandoned half way
            class Stop(Exception):
                pass

            def stop(*a, **kw):
                self.n += 1
                raise Stop()
            try:
                self.model.optimize(optimizer=AdaDelta(max_it=3, step_rate=0.5, callback=stop))
            except Stop:
                pass
        elif op == 'badset':
            try:
                fk.noise = np.ones(self.spec['D'] + 3)
            except Exception:
                pass
        elif op == 'fix':
            ps = [p for p in self.model.flattened_parameters if p.name == 'noise']
            for p in ps:
                p.fix()
            self.model.optimize(optimizer=AdaDelta(max_it=1, step_rate=0.5))
            for p in ps:
                p.unfix()
        elif op == 'prior':
            self.kern[0].inv_lengthscale.set_prior(Gamma(2.0, 1.0))
        elif op == 'rnd':
            state = np.random.get_state()
            np.random.seed(self.n)
            self.model.randomize()
            self.model[:] = 0.3 + np.abs(np.array(self.model.param_array))
            np.random.set_state(state)

    def predict(self, x, mode, which, what, model=None, orc=None, bufs=None):
        m = model or self.model
        m.prediction = mode
        Zs = self.Z[which]
        x.op()
        if mode == 'precompute' and self.split:
            x.raises(what, ValueError, lambda: m.predict([Z.copy() for Z in Zs]))
            return
        got = m.predict(bufs or [Z.copy() for Z in Zs])
        want = posterior(orc or self.current(), self.axes, self.Xs, self.y, Zs, mode)
        check_prediction(x, '%s: predict %s' % (what, mode), got, want, [len(Z) for Z in Zs])
        return np.concatenate(got[0] + got[1])

    def lik(self, x, what, model=None, orc=None):
        orc = orc or self.current()
        Kx, Ks = orc.K_exact(self.Xs), orc.K_ski(self.Xs, self.axes)
        want = -0.5 * (np.linalg.slogdet(Kx)[1] + self.y.dot(np.linalg.solve(Ks, self.y)) + len(self.y) * np.log(2 * np.pi))
        x.op()
        x.close(what + ': log likelihood', (model or self.model).log_likelihood(), want, 1e-6, 1e-6)

    def covs(self, x, what, model=None, orc=None):
        orc = orc or self.current()
        model = model or self.model
        x.op(2)
        x.close(what + ': K()', model.K(), orc.K_exact(self.Xs), 1e-9, 1e-9)
        x.close(what + ': interpolated covariance', model.kernel.K.as_numpy(), orc.K_ski(self.Xs, self.axes), 1e-8, 1e-8)

    def snapshot(self, how):
        c = copy.deepcopy(self.model) if how == 'deep' else pickle.loads(pickle.dumps(self.model))
        self.snaps.append((c, self.current()))

    def copies(self, x, what):
        for c, orc in self.snaps:
            for mode in ('precompute', 'exact', 'on-the-fly'):
                self.predict(x, mode, 0, what + ' [copy]', c, orc)
            self.lik(x, what + ' [copy]', c, orc)
            self.covs(x, what + ' [copy]', c, orc)
            c[:] = np.array(self.model.param_array)
            self.covs(x, what + ' [copy brought up to date]', c)
            self.lik(x, what + ' [copy brought up to date]', c)
            for mode in ('precompute', 'exact', 'on-the-fly'):
                self.predict(x, mode, 1, what + ' [copy brought up to date]', c)

    def observe(self, x, what, full=True):
        first = {}
        for rep in range(2):
            for mode in ('exact', 'on-the-fly', 'precompute') if full else ('exact',):
                r = self.predict(x, mode, rep and 1 or 0, '%s (observation %d)' % (what, rep))
                first.setdefault(mode, r)
            if rep == 0:
                self.lik(x, what)
                self.covs(x, what)
        if full and first.get('exact') is not None:
            for mode, r in first.items():
                if r is None:
                    continue
                again = self.predict(x, mode, 0, what + ' (repeated)')
                x.close('%s: repeated predict %s' % (what, mode), again, r, 1e-9, 1e-9)
                self.predict(x, mode, 2, what + ' (same shapes, other points)')


def run(case, x):
    spec = case['mix']
    a, b = Pair(spec, 0), None
    if any(o.startswith('oth') for o in case['ops']) or case.get('pair'):
        b = Pair(spec, 1)
    done = []
    for op in case['ops']:
        done.append(op)
        what = '>'.join(done)
        if op in MUT:
            x.op()
            a.mutate(op, x)
        elif op in ('exact', 'fly', 'pre'):
            a.predict(x, {'exact': 'exact', 'fly': 'on-the-fly', 'pre': 'precompute'}[op], 0, what)
        elif op == 'lik':
            a.lik(x, what)
        elif op == 'K':
            a.covs(x, what)
        elif op == 'other':
            b.observe(x, what + ' on the other model', full=False)
        elif op == 'othset':
            x.op()
            b.mutate('noise', x)
            b.mutate('ls', x)
        elif op == 'grad':
            x.op()
            a.model.objective_function_gradients()
            a.model.objective_function()
        elif op == 'quant':
            x.op()
            a.model.predict_quantiles([Z.copy() for Z in a.Z[0]])
        elif op == 'text':
            x.op()
            str(a.model)
            repr(a.model)
        elif op in ('deep', 'pickle'):
            x.op()
            a.snapshot(op)
        elif op == 'reuse':
            # the same arrays with other contents
            for w in (0, 2):
                for b_, Z in zip(a.buf, a.Z[w]):
                    b_[:] = Z
                for mode in ('exact', 'on-the-fly', 'precompute'):
                    a.predict(x, mode, w, what, bufs=a.buf)
        elif op == 'bad':
            P = spec['P']
            x.raises(what, (ValueError, AssertionError),
                     lambda: a.model.predict([np.zeros((2, P + 1))] * spec['D']))
        x.state(case['mix'], a.model.param_array, what)
    a.observe(x, '>'.join(done) or 'fresh', full=True)
    a.copies(x, '>'.join(done))
    if b is not None:
        b.observe(x, '>'.join(done) + ' [second model]', full=False)


CORE_M = ('noise', 'ls', 'opt')
CORE_Q = ('exact', 'pre', 'other')


def hist(tier):
    al = MUT + QRY
    if tier == 'thorough':
        for n in range(0, 4):
            for h in itertools.product(al, repeat=n):
                yield h
        for h in itertools.product(CORE_M + CORE_Q, repeat=4):
            yield h
    else:
        for n in (0, 1):
            for h in itertools.product(al, repeat=n):
                yield h
        for h in itertools.product(al, repeat=2):
            if h[0] in MUT or h[1] in MUT:
                yield h
        for q, m, r in itertools.product(CORE_Q, CORE_M, CORE_Q):
            yield (q, m, r)
        for m, q, n in itertools.product(CORE_M, CORE_Q, CORE_M):
            yield (m, q, n)


def cases(tier, engine):
    for i, mix in enumerate(MIXES):
        if i and tier != 'thorough':
            # other mixes: all query-then-mutate histories over the core alphabet
            for h in itertools.product(CORE_Q + ('fly',), CORE_M):
                yield dict(mix=mix, ops=list(h))
            for o in MUT:
                yield dict(mix=mix, ops=[o])
            for q, m in itertools.product(('deep', 'pickle', 'reuse', 'quant'), ('ls', 'opt')):
                yield dict(mix=mix, ops=[q, m])
            continue
        for h in hist(tier if i == 0 else 'quick'):
            yield dict(mix=mix, ops=list(h))
