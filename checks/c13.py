"""C13: AdaDelta's stopping protocol and final iterate."""
import contextlib
import io
import itertools

import climin
import numpy as np

from mc import models
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.model import Model
from runlmc.parameterization.param import Param
from paramz.transformations import Logexp

ID = 'C13'
BOUNDS = ('every gradient sequence of length 5 (6 thorough) over {huge, reference, exactly at the threshold, just below, zero, only the other norms '
          'below} x iteration limits 1..6 x permitted drops 1..3, 5; every two-symbol sequence of length 9 and every periodic one of period <= 4 for up to 40 steps with up to 11 drops; verbosity {0,1,3,100}; read-only and strided starting arrays of up to 50 entries, runs of up to 1000 steps; one optimizer object used for several runs; '
          'different step rates, decays, momenta and offsets; on the optimizer directly, on a stub model through the '
          'paramz interface with callbacks that read the model and with fixed parameters, and on GP models')
ASSUMPTIONS = ['the iterates are those of climin.Adadelta fed with the same gradients (third party, taken as given)']

# two-dimensional gradients; infinity norms in comments
G = {'h': (40.0, -3.0),     # 40: new maximum
     'a': (4.0, -4.0),      # 4
     't': (0.0, -1.0),      # 1: exactly 0.25 * 4, not below
     'b': (0.99, -0.9),     # just below 0.25 * 4
     'l': (1.1, 0.0),       # below 0.25 times the 2-norm of 'a', but not of its maximum
     'e': (0.0, 0.9999),    # barely below 0.25 * 4
     'E': (-9.9999, 1.0),   # barely below 0.25 * 40
     '0': (0.0, 0.0)}


def expected(seq, max_it, drops, ratio=0.25):
    top = 0.0
    left = drops
    for k, s in enumerate(seq, 1):
        g = max(abs(v) for v in G[s])
        top = max(top, g)
        if g < ratio * top:
            left -= 1
        if k >= max_it or left <= 0:
            return k
    return None


def reference(x0, grads, n, **kw):
    it = iter(grads)
    w = np.array(x0, float)
    opts = dict(step_rate=1, decay=0.9, momentum=0.5, offset=1e-4)
    opts.update(kw)
    ada = climin.Adadelta(w, lambda _: np.array(next(it), float), **opts)
    for info in ada:
        if info['n_iter'] >= n:
            break
    return w


def drive(x, opt, seq, max_it, drops, what, calls, kw):
    grads = [G[s] for s in seq] + [(9.0, 9.0)] * 20
    seen = []

    def fp(w):
        seen.append(np.array(w))
        if len(seen) > len(seq) + 1:
            x.fail('%s: still running after %d steps' % (what, len(seen)))
        return np.array(grads[len(seen) - 1], float)
    x0 = np.array([0.3, -1.2])
    start = x0.copy()
    calls[0] = 0
    x.op()
    with contextlib.redirect_stdout(io.StringIO()):
        opt.run(start, f_fp=None, f=None, fp=fp)
    n = expected(seq, max_it, drops)
    x.check(len(seen) == n, lambda: '%s: %d steps, expected %d' % (what, len(seen), n))
    x.check(calls[0] == n, lambda: '%s: %d callbacks in %d steps' % (what, calls[0], n))
    x.close(what + ': last iterate', opt.x_opt, reference(x0, grads, n, **kw), 1e-12, 1e-12)
    x.check(np.array_equal(start, x0), what + ': the start array was changed')
    x.outcome(n)
    x.state(seq[:n], max_it, drops)


def direct(case, x):
    calls = [0]

    def cb():
        calls[0] += 1
    kw = case.get('kw', {})
    for verb in case['verb']:
        opt = AdaDelta(max_it=case['max_it'], permitted_drops=case['drops'], min_grad_ratio=0.25, verbosity=verb, callback=cb, **kw)
        for seq in case['seqs']:
            if expected(seq, case['max_it'], case['drops']) is None:
                continue
            drive(x, opt, seq, case['max_it'], case['drops'], 'seq=%s max_it=%d drops=%d verbosity=%d %s' % (
                seq, case['max_it'], case['drops'], verb, kw or ''), calls, kw)


class Stub(Model):
    def __init__(self, c):
        super().__init__('stub')
        self.a = Param('a', np.array([0.8, 2.0]), Logexp())
        self.b = Param('b', np.array([0.5, -1.0, 1.5]))
        self.c = c
        self.evals = 0
        self.link_parameters(self.a, self.b)

    def log_likelihood(self):
        return -self.c * (np.sum((np.asarray(self.a) - 1.1) ** 2) + np.sum(np.asarray(self.b) ** 4))

    def parameters_changed(self):
        self.evals += 1
        self.a.gradient = -self.c * 2 * (np.asarray(self.a) - 1.1)
        self.b.gradient = -self.c * 4 * np.asarray(self.b) ** 3


def softplus(v):
    return np.log1p(np.exp(v))


def stub(case, x):
    m = Stub(case['c'])
    free = [0, 1, 2, 3, 4]
    for f in case['fix']:
        getattr(m, f).fix()
    if 'a' in case['fix']:
        free = [i for i in free if i > 1]
    if 'b' in case['fix']:
        free = [i for i in free if i < 2]
    calls = [0]

    def cb():
        calls[0] += 1
        k = case['cb']
        if k == 'array':
            np.array(m.optimizer_array)
        elif k == 'lik':
            m.log_likelihood()
            m.objective_function()
        elif k == 'str':
            str(m)
        elif k == 'values':
            np.array(m.param_array)
    th0 = np.array([0.8, 2.0, 0.5, -1.0, 1.5])
    start = th0.copy()
    start[:2] = np.log(np.expm1(th0[:2]))

    def grad(w):
        full = start.copy()
        full[free] = w
        th = full.copy()
        th[:2] = softplus(full[:2])
        g = np.concatenate([case['c'] * 2 * (th[:2] - 1.1) * (1 - np.exp(-th[:2])), case['c'] * 4 * th[2:] ** 3])
        return g[free]
    w = start[free].copy()
    tot = 0
    opt = AdaDelta(max_it=case['max_it'], permitted_drops=case['drops'], min_grad_ratio=case['ratio'], verbosity=case['verb'], callback=cb)
    for rnd in range(case['runs']):
        # reference run from where the model stands
        top, left, n = 0.0, case['drops'], 0
        for info in climin.Adadelta(w, grad, step_rate=1, decay=0.9, momentum=0.5, offset=1e-4):
            n += 1
            g = np.abs(info['gradient']).max()
            top = max(top, g)
            if g < case['ratio'] * top:
                left -= 1
            if n >= case['max_it'] or left <= 0:
                break
        tot += n
        x.op()
        with contextlib.redirect_stdout(io.StringIO()):
            m.optimize(optimizer=opt)
        want = start.copy()
        want[free] = w
        want[:2] = np.where(np.isin([0, 1], free), softplus(want[:2]), th0[:2])
        what = 'stub run %d %s' % (rnd, {k: case[k] for k in ('fix', 'cb', 'max_it', 'drops', 'verb')})
        x.check(calls[0] == tot, lambda: '%s: %d callbacks, expected %d' % (what, calls[0], tot))
        x.close(what + ': parameters', np.array(m.param_array), want, 1e-9, 1e-9)
        x.close(what + ': likelihood', m.log_likelihood(), -case['c'] * (np.sum((want[:2] - 1.1) ** 2) + np.sum(want[2:] ** 4)), 1e-9, 1e-9)
        x.state(case, rnd)


def gp(case, x):
    """On a GP model the trajectory does not depend on verbosity or on what the callback reads."""
    final = {}
    for cbk, verb in case['variants']:
        np.random.seed(5)
        model = models.make_model(dict(case['spec']))
        n = [0]
        Z = [np.array([[0.5], [1.1]])] * case['spec']['D']

        def cb():
            n[0] += 1
            if cbk == 'predict':
                model.predict(Z)
            elif cbk == 'array':
                np.array(model.optimizer_array)
            elif cbk == 'lik':
                model.log_likelihood()
        np.random.seed(6)
        x.op()
        with contextlib.redirect_stdout(io.StringIO()):
            model.optimize(optimizer=AdaDelta(max_it=case['max_it'], verbosity=verb, callback=cb, min_grad_ratio=0.0))
        x.check(n[0] == case['max_it'], lambda: 'GP: %d callbacks for %d steps' % (n[0], case['max_it']))
        final[cbk, verb] = np.array(model.param_array)
        x.close('GP: trajectory with callback %s, verbosity %d' % (cbk, verb), final[cbk, verb], final['none', 0], 1e-9, 1e-9)
        x.state(case, cbk, verb)


def defaults(case, x):
    """Documented defaults: 100 iterations, 5 drops, ratio 0.1, no callback."""
    a, b = AdaDelta(), AdaDelta(max_it=3)
    for opt, seq, n in ((a, [1.0] * 150, 100), (b, [1.0] * 10, 3), (a, [1.0] + [0.2] * 200, 100), (a, [1.0] + [0.09] * 200, 6),
                        (a, [1.0] * 150, 100)):
        cnt = [0]

        def fp(w):
            cnt[0] += 1
            return np.array([seq[cnt[0] - 1]])
        x.op()
        opt.run(np.zeros(1), fp=fp)
        x.check(cnt[0] == n, lambda: 'defaults: %d steps, expected %d' % (cnt[0], n))
        x.state(seq[:3], n)


def start_kinds(case, x):
    """Integer, read-only, strided and long starting arrays, longer gradients, and runs of 1000 steps."""
    for n in (1, 3, 50):
        for kind in ('plain', 'ro', 'strided'):
            for top, ratio, drops, max_it in ((1.0, 0.5, 3, 1000), (1e9, 1e-6, 2, 300), (1e-9, 0.3, 4, 17), (1.0, 0.5, 3, 1), (1.0, 1.5, 4, 9)):
                x0 = np.linspace(-1, 1, 2 * n)[::2] if kind == 'strided' else np.linspace(-1, 1, n)
                keep = x0.copy()
                if kind == 'ro':
                    x0.flags.writeable = False
                g = []
                calls = [0]

                def fp(w):
                    # the largest entry moves around; every seventh gradient is small
                    k = len(g)
                    v = np.full(n, 0.1 * top * ratio)
                    v[k % n] = -top * (1 + (k % 3)) if k % 7 else top * ratio * 0.5
                    if max_it == 1000:
                        v[k % n] = top
                    g.append(v)
                    return v.copy()

                def cb():
                    calls[0] += 1
                opt = AdaDelta(max_it=max_it, permitted_drops=drops, min_grad_ratio=ratio, callback=cb, verbosity=2 * (n % 2))
                x.op()
                with contextlib.redirect_stdout(io.StringIO()):
                    opt.run(x0, fp=fp)
                best, left, want = 0.0, drops, None
                for k, v in enumerate(g, 1):
                    a = np.abs(v).max()
                    best = max(best, a)
                    left -= a < ratio * best
                    if k >= max_it or left <= 0:
                        want = k
                        break
                what = 'start %s n=%d top=%g drops=%d max_it=%d' % (kind, n, top, drops, max_it)
                x.check(want == len(g) == calls[0], lambda: '%s: %d steps and %d callbacks, expected %s' % (what, len(g), calls[0], want))
                x.close(what + ': last iterate', opt.x_opt, reference(keep, g, len(g)), 1e-12, 1e-12)
                x.check(np.array_equal(x0, keep), what + ': the start array was changed')
                x.state(what)


def run(case, x):
    {'start': start_kinds,'direct': direct, 'stub': stub, 'gp': gp, 'defaults': defaults}[case['kind']](case, x)


def cases(tier, engine):
    th = tier == 'thorough'
    yield dict(kind='defaults')
    yield dict(kind='start')
    L = 6 if th else 5
    seqs = [''.join(s) for s in itertools.product(sorted(set(G) - set('eE')), repeat=L)]
    for max_it in range(1, L + 1):
        for drops in (1, 2, 3, 5):
            uniq = sorted({s[:expected(s, max_it, drops)] for s in seqs if expected(s, max_it, drops)})
            for i in range(0, len(uniq), 600):
                yield dict(kind='direct', max_it=max_it, drops=drops, verb=[0], seqs=uniq[i:i + 600])
    # long runs: every two-symbol sequence of length 9, and every periodic pattern of period <= 4 for 40 steps
    long = [''.join(s) for p in (('a', 'b'), ('a', '0'), ('b', 'h'), ('l', 'b'), ('a', 'e'), ('h', 'E')) for s in itertools.product(p, repeat=9)]
    per = [''.join(s) * 10 for n in (2, 3, 4) for s in itertools.product('abh0', repeat=n)] + ['h' + 'E' * 39, 'a' + 'e' * 39, 'h' + 't' * 20 + 'E' * 19, 'hE' * 20]
    for max_it, drops, seqs2 in ((9, 4, long), (8, 6, long), (40, 7, per), (23, 11, per), (30, 3, per)):
        todo = [s[:40] for s in seqs2 if expected(s[:40], max_it, drops)]
        for i in range(0, len(todo), 700):
            yield dict(kind='direct', max_it=max_it, drops=drops, verb=[0], seqs=todo[i:i + 700])
    for verb in (1, 3, 100):
        for max_it in (1, 4):
            yield dict(kind='direct', max_it=max_it, drops=2, verb=[verb], seqs=[s[:4] for s in seqs[::7]][:200 if not th else 5000])
    for kw in (dict(step_rate=0.5), dict(decay=0.5), dict(momentum=0.9), dict(offset=1e-2), dict(momentum=0), dict(step_rate=3, decay=0.99)):
        yield dict(kind='direct', max_it=5, drops=3, verb=[0], seqs=seqs[::97], kw=kw)
    for fix in ([], ['a'], ['b']):
        for cb in ('none', 'array', 'lik', 'str', 'values'):
            for max_it, drops, ratio in ((1, 5, 0.1), (4, 5, 0.1), (12, 2, 0.9), (30, 1, 0.99), (7, 1, 0.0)):
                for c in (1.0, 0.01):
                    yield dict(kind='stub', fix=fix, cb=cb, max_it=max_it, drops=drops, ratio=ratio, c=c, runs=3, verb=0 if cb != 'str' else 2)
    base = dict(D=2, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None, lens=[3, 2], m=4, par=0, data='gen')
    for spec in (base, dict(base, lmc=[], slfm=[['rbf', None]], indep=[['matern32', None]], idx=[1])):
        for mi in (1, 4):
            yield dict(kind='gp', spec=spec, max_it=mi, variants=[['none', 0], ['none', 2], ['predict', 0], ['array', 1], ['lik', 0]])
