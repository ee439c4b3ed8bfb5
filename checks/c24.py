"""C24: diagnostics only observe."""
import contextlib
import io
import itertools
import logging

import numpy as np

from checks import c23
from checks.c23 import MIXES, QRY, full
from mc import models
from runlmc.kern.matern32 import Matern32
from runlmc.kern.rbf import RBF
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta
from runlmc.parameterization.priors import Gamma, Gaussian, HalfLaplace, InverseGamma

ID = 'C24'
OPS = ('noise', 'ls', 'batch', 'ada', 'lbfgs', 'fly', 'exact', 'pre', 'quant', 'lik', 'prior')
LOG = ('silent', 'info', 'debug')
VERB = (0, 1, 3, 100)
BOUNDS = ('every history of length <= 2 (quick: with a change in it) over %s for 5 kernel mixes, played silently and with each diagnostic on its own (INFO and DEBUG logging, '
          'metrics, AdaDelta verbosity in %s, a callback asking each of %d queries at every step, printing everything '
          'after every step), all together, and (rotating; all of them in thorough) every combination of logging, metrics and verbosity with '
          'or without printing; every step count 0..7 x verbosity 0..9 for the progress report; 68-point models over tolerances 0.1 .. 1e-11 and parameters scaled by 1e-4 and 1e3 under each diagnostic' % (OPS, VERB, len(QRY)))
ASSUMPTIONS = ['one seed of NumPy\'s generator before each run; runs compared to 1e-9']


class Sink(logging.Handler):
    """Formats every record, as a real handler does."""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.n = 0

    def emit(self, record):
        record.getMessage()
        self.n += 1


@contextlib.contextmanager
def diagnostics(log):
    root = logging.getLogger('runlmc')
    sink, level = Sink(), root.level
    if log != 'silent':
        root.setLevel(getattr(logging, log.upper()))
        root.addHandler(sink)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield sink
    finally:
        root.setLevel(level)
        root.removeHandler(sink)


class Watched(c23.Run):
    steps = 0

    def show(self):
        m = self.model
        out = [str(m), repr(m), str(self.fk), str(m.kernel.K), repr(m.kernel.K), str(m[''])]
        for g in m.kernel._grid_kernels.values() if hasattr(m.kernel, '_grid_kernels') else ():
            out += [str(g), str(getattr(g, 'grid_K', ''))]
        for k in self.kern:
            out += [str(k)] + [str(o) for o in models.kernel_param_objects(self.kinds[id(k)], k)]
        return out

    def perform(self, op, cfg):
        m, fk = self.model, self.fk
        if op in ('noise', 'ls', 'batch'):
            self.mutate(op)
            return None
        if op == 'ada':
            def cb():
                self.steps += 1
                if cfg['cb']:
                    mode = m.prediction
                    self.query(cfg['cb'])
                    m.prediction = mode
            m.optimize(optimizer=AdaDelta(max_it=3, step_rate=0.5, verbosity=cfg['verb'], callback=cb))
            return None
        if op == 'lbfgs':
            m.optimize(optimizer='lbfgsb', max_iters=2)
            return None
        if op == 'prior':
            self.n += 1
            p = [Gamma(2.0, 1.5), InverseGamma(3.0, 2.0), HalfLaplace(0.7)][self.n % 3]
            fk._noise.set_prior(p)
            if cfg['show']:
                str(p), repr(p), str(Gaussian(0.3, 2.0))
            return np.array([m.log_prior()])
        return self.query(op)

    def watch(self, ops, cfg, x):
        out = [self.snap()]
        for op in ops:
            x.op()
            r = self.perform(op, cfg)
            if cfg['show']:
                x.check(all(isinstance(t, str) for t in self.show()), 'printing does not give text')
            out += [self.snap(), np.zeros(0) if r is None else r]
        m = self.model
        m.prediction = 'exact'
        mu, var = m.predict([X * 0.8 + 0.1 for X in self.Xs])
        out += list(mu) + list(var) + [np.array([m.log_likelihood(), m.objective_function(), self.steps]), np.random.rand(3)]
        return out


QUIET = dict(log='silent', metrics=False, verb=0, cb=None, show=False)


def play(case, cfg, x):
    spec = full(MIXES[case['mix']])
    with diagnostics(cfg['log']) as sink:
        r = Watched(spec, case['seed'], cfg['metrics'], case['norm'])
        r.kinds = {id(k): e[1] for k, e in zip(r.kern, models.entries(spec))}
        out = r.watch(case['ops'], cfg, x)
        return out, sink.n


def run(case, x):
    if 'tol' in case:
        return wide(case, x)
    if 'verbs' in case:
        return report(case, x)
    want, n = play(case, QUIET, x)
    for cfg in case['cfgs']:
        cfg = dict(QUIET, **cfg)
        try:
            got, _ = play(case, cfg, x)
        except Exception as e:
            if type(e).__name__ == 'Violation':
                raise
            x.fail('history %s with diagnostics %s raised %s: %s' % (case['ops'], cfg, type(e).__name__, e))
        x.check(len(got) == len(want), 'different number of observations')
        for i, (a, b) in enumerate(zip(got, want)):
            x.close('history %s, diagnostics %s: observation %d differs from the silent run' % (case['ops'], cfg, i), a, b, 1e-9, 1e-9)
        x.state(case['mix'], case['ops'], cfg)


def wide(case, x):
    """Longer solves, every tolerance, parameters of extreme size."""
    def play(cfg):
        out = []
        with diagnostics(cfg['log']):
            np.random.seed(3)
            X = [np.linspace(0, 3, 37), np.linspace(0.2, 3.3, 31)]
            kern = RBF(inv_lengthscale=case['ls'], name='r')
            other = Matern32(inv_lengthscale=0.7, name='s')
            fk = FunctionalKernel(D=2, lmc_kernels=[kern], lmc_ranks=[2], slfm_kernels=[other])
            m = InterpolatedLLGP(X, [np.sin(4 * v) + v for v in X], functional_kernel=fk, normalize=False, m=9, max_procs=1,
                                 trace_iterations=case['its'], tolerance=case['tol'], metrics=cfg['metrics'])
            for scale in (1.0, case['scale']):
                fk.noise = np.array([1e-2, 3e-3]) * scale
                for a in fk._coreg_vecs:
                    a[:] = np.arange(1, a.size + 1).reshape(a.shape) * 0.4 * scale
                x.op()
                out += [np.array(m.param_array), np.array(m.gradient), np.array(m.kernel.alpha())]
                if cfg['show']:
                    str(m), repr(m), str(m.kernel.K)
                mu, var = m.predict([np.linspace(0, 3, 4)] * 2)
                out += list(mu) + list(var)
            m.optimize(optimizer=AdaDelta(max_it=2, step_rate=0.5, verbosity=cfg['verb']))
            out += [np.array(m.param_array), np.array(m.kernel.alpha()), np.random.rand(2)]
        return out
    want = play(QUIET)
    for cfg in (dict(log='info'), dict(log='debug'), dict(metrics=True), dict(show=True), dict(verb=2),
                dict(log='debug', metrics=True, verb=1, show=True)):
        got = play(dict(QUIET, **cfg))
        for i, (a, b) in enumerate(zip(got, want)):
            x.close('tolerance %g, scale %g, diagnostics %s: observation %d differs from the silent run' % (case['tol'], case['scale'], cfg, i),
                    a, b, 1e-8, 1e-8 * max(np.abs(b).max(), 1e-300))
        x.state(case, cfg)


def report(case, x):
    """The progress report never changes the number of steps or the end point."""
    def opt(verb):
        o = AdaDelta(max_it=case['steps'], step_rate=0.7, verbosity=verb, min_grad_ratio=case['ratio'], permitted_drops=2)
        with contextlib.redirect_stdout(io.StringIO()):
            o.opt(np.array([1.5, -0.7, 0.2]), fp=lambda p: 2 * p + 0.3)
        return np.array(o.x_opt)
    want = opt(0)
    for v in case['verbs']:
        x.op()
        x.close('%d steps, verbosity %d' % (case['steps'], v), opt(v), want, 0, 0)
        x.state(case['steps'], v, case['ratio'])


def cases(tier, engine):
    th = tier == 'thorough'
    for steps in range(0, 8):
        for ratio in (0.0, 0.1, 0.9):
            yield dict(verbs=list(range(1, 10)) + [50, 1000], steps=steps, ratio=ratio)
    for tol, scale in itertools.product((1e-1, 1e-4, 1e-8, 1e-11), (1.0, 1e-4, 1e3)):
        for its, ls in (((1, 1.0), (15, 0.05), (4, 30.0)) if th else ((3, 1.0),)):
            yield dict(tol=tol, scale=scale, its=its, ls=ls)
    single = [dict(log='info'), dict(log='debug'), dict(metrics=True), dict(show=True)]
    ada = [dict(verb=v) for v in VERB[1:]] + [dict(cb=q) for q in QRY]
    grid = [dict(log=l, metrics=m, verb=v, show=s) for l, m, v, s in itertools.product(LOG, (False, True), VERB, (False, True))]
    j = 0
    for mix in range(len(MIXES)):
        for i, h in enumerate([[]] + [[a] for a in OPS] + [[a, b] for a in OPS for b in OPS]):
            cfgs = list(single)
            if 'ada' in h:
                cfgs += ada if th or len(h) < 2 else [ada[(i + k) % len(ada)] for k in (0, 5)]
            cfgs.append(dict(log='debug', metrics=True, verb=3, cb=QRY[i % len(QRY)], show=True))
            if th:
                cfgs += grid
            elif len(h) < 2:
                cfgs += grid[i % 3::3]
            else:
                if not set(h) - {'fly', 'exact', 'pre', 'quant', 'lik'}:
                    continue
                j += 1
                if mix not in (1, 3) and j % 2:
                    continue
                cfgs.append(grid[j % len(grid)])
            yield dict(mix=mix, seed=i % 2 + 1, ops=h, norm=bool(i % 3 == 1), cfgs=cfgs)
