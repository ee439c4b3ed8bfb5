"""C20: optimisation keeps constraints, fixed values and the model in step."""
import itertools

import numpy as np

from checks.c06 import install, unique
from checks.c09 import MIXES, Pair
from mc import models
from mc.engine import SeamMissing
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.priors import Gamma, Gaussian, HalfLaplace

ID = 'C20'
PRE = ('fixnoise', 'fixnoise0', 'fixk', 'fixA', 'fixA0', 'unfixnoise', 'unfixk', 'unfixall', 'boundk', 'prinoise', 'prik', 'priA', 'setnoise',
       'setk', 'fixall', 'rand', 'shift')
OPT = ('ada1', 'ada3', 'adabig', 'lbfgs', 'lbfgs9', 'ada1long', 'int1', 'int3')
BOUNDS = ('every history of up to 2 preparations from %s followed by an optimisation from %s, and every history optimise-prepare-optimise '
          '(thorough: up to 3 preparations, and prepare-optimise-prepare-optimise), on %d kernel mixes; after every optimisation each fixed '
          'entry is bitwise unchanged, each free entry with a nonzero gradient has moved, positive and bounded entries are inside their domain, '
          'structural zeros and ones are exact, and covariance, likelihood and predictions equal the dense oracle of the reported parameters'
          % (PRE, OPT, len(MIXES)))
ASSUMPTIONS = ['a positive prior or constraint set on a fixed parameter releases it in paramz: its fixedness is then not asserted']


def settle(a):
    """Distinct values everywhere, so that parameters can be told apart by value."""
    ks, noise = unique([dict(k) for k in a.ks], np.array(a.fk.noise), a.spec)
    install(a.spec, ks, noise, a.fk, a.kern)


def find(a, want):
    want = np.ravel(want)
    for p in a.model.flattened_parameters:
        if p.size == len(want) and np.allclose(np.asarray(p, float).ravel(), want, rtol=1e-12, atol=0):
            return p
    raise SeamMissing('no linked parameter with values %s' % want)


class World:
    def __init__(self, a):
        self.a = a
        ent = models.entries(a.spec)
        self.par = {'noise': find(a, a.fk.noise)}
        for q, e in enumerate(ent):
            if e[0] != 'indep':
                self.par['A%d' % q] = find(a, a.fk.coreg_vecs[q])
            if e[0] == 'lmc':
                self.par['kap%d' % q] = find(a, a.fk.coreg_diags[q])
            for j, o in enumerate(models.kernel_param_objects(e[1], a.kern[q])):
                self.par['k%d.%d' % (q, j)] = o
        # per entry: True fixed, False free, None not asserted
        self.fixed = {n: [False] * p.size for n, p in self.par.items()}
        self.bounds = {}
        self.k = sorted(n for n in self.par if n.startswith('k') and '.' in n)[0]
        self.A = sorted(n for n in self.par if n.startswith('A'))[0]
        self.n = 0

    def prepare(self, op):
        self.n += 1
        name = {'noise': 'noise', 'k': self.k, 'A': self.A}.get(op.replace('unfix', '').replace('fix', '').replace('pri', '')
                                                               .replace('bound', '').replace('set', '').replace('0', ''))
        p = self.par.get(name)
        if op == 'rand':
            fixed = {n: np.array(q, float).ravel() for n, q in self.par.items()}
            np.random.seed(11)
            self.a.model.randomize()
            self.kept = [(n, i, fixed[n][i]) for n in fixed for i, f in enumerate(self.fixed[n]) if f is True]
        elif op == 'shift':
            if np.size(self.a.model.optimizer_array):
                self.a.model.optimizer_array = np.array(self.a.model.optimizer_array) * 0.9 - 0.05
        elif op == 'fixall':
            self.a.model.fix()
            for n in self.fixed:
                self.fixed[n] = [True] * len(self.fixed[n])
        elif op == 'unfixall':
            self.a.model.unfix()
            for n in self.fixed:
                self.fixed[n] = [False] * len(self.fixed[n])
        elif op.startswith('fix'):
            if op.endswith('0'):
                (p[0:1] if p.ndim == 1 else p[0:1, 0:1]).fix()
                self.fixed[name][0] = True
            else:
                p.fix()
                self.fixed[name] = [True] * p.size
        elif op.startswith('unfix'):
            p.unfix()
            self.fixed[name] = [False] * p.size
        elif op.startswith('bound'):
            v = float(np.asarray(p).ravel()[0])
            p.constrain_bounded(v * .8, v * 1.1, warning=False)
            self.bounds[name] = (v * .8, v * 1.1)
            self.fixed[name] = [None] * p.size
        elif op.startswith('pri'):
            p.set_prior({'noise': Gamma(2., 1.), self.k: HalfLaplace(1.5), self.A: Gaussian(.3, 1.1)}[name])
            if name != self.A:
                self.bounds.pop(name, None)
            self.fixed[name] = [None if f is None or f else False for f in self.fixed[name]]
        elif op.startswith('set'):
            f = [1.21, .83][self.n % 2]
            if name in self.bounds:
                f = 1.01
            p[:] = np.asarray(p) * f

    def optimise(self, x, op, what):
        a = self.a
        before = {n: np.array(p, float).ravel() for n, p in self.par.items()}
        grad = {n: np.array(p.gradient, float).ravel() for n, p in self.par.items()}
        x.op()
        if all(all(f is True for f in v) for v in self.fixed.values()) and op.startswith('lbfgs'):
            return
        if op.startswith('lbfgs'):
            a.model.optimize(max_iters=int(op[5:] or 2))
        elif op == 'ada1long':
            a.model.optimize(optimizer=AdaDelta(max_it=1), max_iters=1000, messages=False)
        elif op.startswith('int'):
            # the user interrupts at the first or third step
            left = [int(op[-1])]

            def stop():
                left[0] -= 1
                if not left[0]:
                    raise KeyboardInterrupt()
            try:
                a.model.optimize(optimizer=AdaDelta(max_it=5, step_rate=1, min_grad_ratio=0., callback=stop))
            except KeyboardInterrupt:
                x.outcome(op)
            else:
                x.check(left[0] > 0, '%s: the interrupt does not reach the caller' % what)
        elif op == 'adabig':
            a.model.optimize(optimizer=AdaDelta(max_it=2, step_rate=4, decay=0.5, momentum=0.3))
        else:
            a.model.optimize(optimizer=AdaDelta(max_it=int(op[-1]), step_rate=1))
        moved = 0
        for n, p in self.par.items():
            now = np.array(p, float).ravel()
            x.check(np.all(np.isfinite(now)), '%s: %s is finite' % (what, n))
            for i, f in enumerate(self.fixed[n]):
                if f is True:
                    x.check(now[i] == before[n][i], lambda: '%s: fixed entry %d of %s moved from %r to %r' % (what, i, n, before[n][i], now[i]))
                elif f is False and op.startswith('ada') and abs(grad[n][i]) > 1e-2:
                    x.check(now[i] != before[n][i], lambda: '%s: free entry %d of %s did not move' % (what, i, n))
                    moved += 1
            if not n.startswith('A'):
                x.check(np.all(now > 0), lambda: '%s: %s = %s is not positive' % (what, n, now))
            if n in self.bounds:
                lo, hi = self.bounds[n]
                x.check(np.all(now >= lo) and np.all(now <= hi), lambda: '%s: %s = %s outside [%s, %s]' % (what, n, now, lo, hi))
        self.structure(x, what)
        x.outcome(moved)

    def structure(self, x, what):
        a = self.a
        D = a.spec['D']
        for q, e in enumerate(models.entries(a.spec)):
            A, kap = np.array(a.fk.coreg_vecs[q]), np.array(a.fk.coreg_diags[q])
            if e[0] == 'slfm':
                x.check(not np.any(kap), what + ': SLFM diagonal %d is zero' % q)
            if e[0] == 'indep':
                x.check(not np.any(A) and np.array_equal(kap, np.eye(D)[e[4]]), what + ': independent kernel %d' % q)


def sane(a):
    """Iterative answers are only comparable to 1e-6 on reasonably conditioned covariances."""
    e = np.linalg.eigvalsh(a.current().K_ski(a.Xs, a.axes))
    return e[0] > 0.05 and e[-1] < 1e3 * e[0]


def run(case, x):
    a = Pair(case['mix'], 0)
    settle(a)
    w = World(a)
    done = []
    for op in case['ops']:
        done.append(op)
        what = '>'.join(done)
        if op in OPT:
            np.random.seed(len(done))
            w.optimise(x, op, what)
            a.covs(x, what)
            if sane(a):
                a.lik(x, what)
                a.predict(x, 'on-the-fly', 0, what)
            else:
                x.skip('ill-conditioned after optimisation: iterative answers not compared')
        else:
            x.op()
            w.kept = []
            w.prepare(op)
            for n, j, v in w.kept:
                x.check(np.array(w.par[n], float).ravel()[j] == v, '%s: fixed entry %d of %s randomised' % (what, j, n))
            w.structure(x, what)
        x.state(case['mix'], done, a.model.param_array)
    if sane(a):
        a.observe(x, what, full=case.get('full', False))
    w.structure(x, what)


def cases(tier, engine):
    th = tier == 'thorough'
    i = 0
    for mi, mix in enumerate(MIXES):
        for n in (0, 1, 2, 3):
            if n == 3 and not (th and mi == 0):
                continue
            for pre in itertools.product(PRE, repeat=n):
                for o in OPT:
                    i += 1
                    if n == 3 and (i % 7):
                        continue
                    if not th and (n == 2 and (mi or o != OPT[(i // len(OPT)) % len(OPT)]) or n == 1 and mi and o != OPT[(i // len(OPT) + mi) % len(OPT)]):
                        continue
                    yield dict(mix=mix, ops=list(pre) + [o], full=i % 9 == 0)
        for o1, p, o2 in itertools.product(OPT, PRE, OPT):
            i += 1
            if not th and (mi and i % 17 or not mi and i % 5):
                continue
            yield dict(mix=mix, ops=[o1, p, o2])
        if th:
            for p1, o1, p2, o2 in itertools.product(PRE, OPT[:1], PRE, OPT):
                i += 1
                if i % 3 == 0:
                    yield dict(mix=mix, ops=[p1, o1, p2, o2])
