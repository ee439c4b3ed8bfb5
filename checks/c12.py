"""C12: priors and constraints give a consistent objective and gradient."""
import itertools

import numpy as np
from scipy.special import gammaln

from mc import models
from runlmc.parameterization.model import Model
from runlmc.parameterization.param import Param
from runlmc.parameterization.parameterized import Parameterized
from runlmc.parameterization.priors import Gamma, Gaussian, HalfLaplace, InverseGamma
from paramz.transformations import Exponent, Logexp, Transformation

ID = 'C12'
OPS = ('G', 'A', 'I', 'H', 'u', 'f', 'F', 'c', 'C', 'v')
BOUNDS = ('every sequence of length <= 2 over {set Gaussian/Gamma/inverse Gamma/half-Laplace prior, unset, fix, unfix, constrain '
          'positive, unconstrain, change value (to tiny and large ones too)} x three parameters (vectors, also of 24 and 40 elements, and scalar, constrained and free, one nested), on the whole parameter or on single elements of it, and every sequence of '
          'length 3 over a reduced alphabet (full alphabet thorough), with one prior object shared by several parameters or distinct ones, '
          'set before or after linking; every combination, per parameter and in three orders, of prior and {Logexp, Exponent, fixed} constraint at once; objective, log prior and gradient are compared with a closed form after every step; every prior '
          'density over a parameter grid (extreme parameters and arguments included): integral, formula, gradient, element-wise application; the same on real GP models')
ASSUMPTIONS = ['the log likelihood in the sequence exploration is an analytic function (a stub model on the real base class); constraints in '
               'force are read from the parameters', 'bounded constraints are left out: paramz approximates their Jacobian']


def lnpdf(kind, a, v):
    if kind == 'G':
        return -0.5 * np.log(2 * np.pi * a[1]) - (v - a[0]) ** 2 / (2 * a[1])
    if kind == 'A':
        return a[0] * np.log(a[1]) - gammaln(a[0]) + (a[0] - 1) * np.log(v) - a[1] * v
    if kind == 'I':
        return a[0] * np.log(a[1]) - gammaln(a[0]) - (a[0] + 1) * np.log(v) - a[1] / v
    if kind == 'H':
        return -np.log(a[0]) - v / a[0]
    raise KeyError(kind)


CLS = {'G': Gaussian, 'A': Gamma, 'I': InverseGamma, 'H': HalfLaplace}
ARGS = {'G': (0.4, 1.7), 'A': (2.5, 1.3), 'I': (3.0, 0.8), 'H': (1.9,)}


def logjac(v):
    return np.log(-np.expm1(-v)) if not np.iscomplexobj(v) else np.log(1 - np.exp(-v))


class Stub(Model):
    def __init__(self, pre, long=False):
        super().__init__('stub')
        self.p = Param('p', 0.7 + 0.3 * np.arange(40) if long else np.array([0.7, 1.9]), Logexp())
        self.q = Param('q', np.sin(np.arange(24.0) + .5).reshape(6, 4) if long else np.array([0.3, -1.1]))
        self.child = Parameterized('child')
        self.r = Param('r', np.array([1.4]), Logexp())
        self.byname = dict(p=self.p, q=self.q, r=self.r)
        pre(self.byname)
        self.link_parameter(self.p)
        self.link_parameter(self.q)
        self.child.link_parameter(self.r)
        self.link_parameter(self.child)

    @staticmethod
    def f(v):
        return np.sum(np.sin(1.3 * v) - 0.2 * v * v)

    def log_likelihood(self):
        return sum(self.f(np.asarray(p, float)) for p in (self.p, self.q, self.r))

    def parameters_changed(self):
        for p in (self.p, self.q, self.r):
            v = np.asarray(p, float)
            p.gradient = 1.3 * np.cos(1.3 * v) - 0.4 * v


def pick(params, which):
    """'p' is the whole parameter, 'p0' its element 0; with the element numbers."""
    p = params[which[0]]
    if len(which) > 1:
        i = int(which[1])
        return p[i:i + 1], [i]
    return p, list(range(p.size))


class World:
    def __init__(self, shared):
        self.shared = {k: CLS[k](*ARGS[k]) for k in CLS} if shared else None
        self.prior = {}
        self.n = 0

    def apply(self, params, op):
        which, o = op
        p, idx = pick(params, which)
        if o in CLS:
            pr = self.shared[o] if self.shared else CLS[o](*ARGS[o])
            p.set_prior(pr)
            self.prior.update({(which[0], i): o for i in idx})
        elif o == 'u':
            p.unset_prior()
            for i in idx:
                self.prior.pop((which[0], i), None)
        elif o == 'f':
            p.fix()
        elif o == 'F':
            p.unfix()
        elif o == 'c':
            p.constrain_positive()
        elif o == 'e':
            p.constrain(Exponent(), warning=False)
        elif o == 'C':
            p.unconstrain()
        elif o in 'sL':          # tiny or large values
            p[:] = (1 + np.arange(p.size).reshape(p.shape)) * (3e-8 if o == 's' else 60.0)
        elif o == 'v':
            self.n += 1
            p[:] = np.asarray(p) * [1.31, 0.77][self.n % 2] + 0.05


def constraints(p):
    """(transformation, fixed?) of each element of a parameter, from its own constraint table."""
    pos, fixed = np.zeros(p.size, int), np.zeros(p.size, bool)
    for c, idx in p.constraints.items():
        idx = np.asarray(idx, int)
        if isinstance(c, Transformation):
            pos[idx] = 1 if isinstance(c, Logexp) else 2 if isinstance(c, Exponent) else 0
        else:
            fixed[idx] = True
    return pos, fixed


def verify(x, model, params, world, what, loglik, dlik):
    lp = 0.0
    grads = {}
    for n, p in params.items():
        v = np.asarray(p, float).reshape(-1)
        pos, fixed = constraints(p)
        g = np.zeros(len(v))
        for i in range(len(v)):
            k = world.prior.get((n, i))
            if k:
                if k != 'G' and not v[i] > 0:
                    return False
                lp += lnpdf(k, ARGS[k], v[i])
                h = 1e-20
                g[i] += np.imag(lnpdf(k, ARGS[k], v[i] + 1j * h)) / h
                if pos[i]:
                    if not v[i] > 0:
                        return False
                    jac = logjac if pos[i] == 1 else np.log
                    lp += jac(v[i])
                    g[i] += np.imag(jac(v[i] + 1j * h)) / h
        grads[n] = (g, ~fixed)
    x.op()
    x.close(what + ': log prior', model.log_prior(), lp, 1e-9, 1e-9)
    x.close(what + ': objective', model.objective_function(), -(loglik + lp), 1e-9, 1e-9)
    x.close(what + ': log likelihood with prior', model.log_likelihood_with_prior(), loglik + lp, 1e-9, 1e-9)
    og = np.asarray(model.objective_function_gradients()).reshape(-1)
    x.check(og.shape == np.asarray(model.param_array).shape, what + ': gradient shape')
    for n, p in params.items():
        g, free = grads[n]
        idx = model._raveled_index_for(p) if hasattr(model, '_raveled_index_for') else None
        if idx is None:
            x.skip('no index lookup')
            continue
        x.close(what + ': gradient of %s' % n, og[idx][free], -(np.reshape(dlik[n], -1) + g)[free],
                1e-8 if np.abs(np.asarray(p)).min() > 1e-5 else 1e-6, 1e-8)
    x.state(what, model.param_array, sorted(world.prior.items()))
    return True


def ops_of(alpha):
    out = []
    for p in 'pqr':
        for o in alpha:
            out.append((p, o))
    return out


def sequence(x, ops, shared, npre, long=False):
    world = World(shared)
    done = []

    def pre(params):
        for op in ops[:npre]:
            world.apply(params, op)
    model = Stub(pre, long)
    done = list(ops[:npre])
    for i in range(npre, len(ops) + 1):
        what = ' '.join('%s.%s' % o for o in done) + (' shared' if shared else '') + (' pre' if npre else '')
        dl = {n: 1.3 * np.cos(1.3 * np.asarray(p, float)) - 0.4 * np.asarray(p, float) for n, p in model.byname.items()}
        ll = sum(np.sum(np.sin(1.3 * np.asarray(p, float)) - 0.2 * np.asarray(p, float) ** 2) for p in model.byname.values())
        if i == len(ops) or npre:
            if not verify(x, model, model.byname, world, what or 'start', ll, dl):
                x.skip('positive prior moved off its domain by the caller')
                return
        if i < len(ops):
            op = ops[i]
            x.op()
            world.apply(model.byname, op)
            done.append(op)
            if op[1] in 'AIH':
                p, idx = pick(model.byname, op[0])
                v = np.asarray(p, float)
                x.check(np.all(v >= 0), 'values outside the domain of a positive prior after %s' % (done,))
                x.check(np.all(constraints(model.byname[op[0][0]])[0][idx]), 'positive prior without a positivity constraint after %s' % (done,))


def density(case, x):
    k, a = case['prior'], case['args']
    pr = CLS[k](*a)
    pts = np.array([0.05, 0.3, 0.9, 1.0, 2.2, 7.0]) if k != 'G' else np.array([-4.0, -0.3, 0.0, 0.4, 2.0])
    what = '%s%s' % (CLS[k].__name__, tuple(a))
    want = lnpdf(k, a, pts)
    grad = np.imag(lnpdf(k, a, pts + 1e-20j)) / 1e-20
    for shape in ((len(pts),), (len(pts), 1), (1, len(pts))):
        x.op(2)
        x.close('%s lnpdf %s' % (what, shape), pr.lnpdf(pts.reshape(shape)), want.reshape(shape), 1e-10, 1e-10)
        x.close('%s lnpdf_grad %s' % (what, shape), pr.lnpdf_grad(pts.reshape(shape)), grad.reshape(shape), 1e-9, 1e-9)
    for i, v in enumerate(pts):
        x.op(2)
        x.close('%s lnpdf scalar' % what, pr.lnpdf(float(v)), want[i], 1e-10, 1e-10)
        x.close('%s lnpdf_grad scalar' % what, pr.lnpdf_grad(float(v)), grad[i], 1e-9, 1e-9)
    far = np.array([1e-8, 1e-5, 1e-3, 0.02, 15.0, 200.0, 1e5])
    for v in np.concatenate([far, -far]) if k == 'G' else far:
        x.op(2)
        x.close('%s lnpdf at %g' % (what, v), pr.lnpdf(float(v)), lnpdf(k, a, v), 1e-10, 1e-10)
        x.close('%s lnpdf_grad at %g' % (what, v), pr.lnpdf_grad(float(v)), np.imag(lnpdf(k, a, v + 1e-30j)) / 1e-30, 1e-9, 1e-9)
    if case.get('far'):
        x.state(what)
        return
    if k == 'G':
        for bad in (0.0, -0.0, -1e-9, -a[1]):
            try:
                CLS[k](a[0], bad)
                x.check(False, '%s: variance %r accepted' % (what, bad))
            except ValueError:
                x.op()
    empty = np.zeros(0)
    x.check(np.shape(pr.lnpdf_grad(empty)) == (0,) and np.shape(pr.lnpdf(empty)) == (0,), what + ': empty input')
    # normalisation, by substitution x = exp(t) for positive domains
    t = np.linspace(-60, 60, 240001)
    f = np.exp(pr.lnpdf(t)) if k == 'G' else np.exp(pr.lnpdf(np.exp(t / 3)) + t / 3) / 3
    total = (f[1:] + f[:-1]).sum() / 2 * (t[1] - t[0])
    x.close(what + ': integral', total, 1.0, 1e-4, 0)
    x.check(isinstance(str(pr), str), 'printable')
    x.check(pr.domain == ('real' if k == 'G' else 'positive'), what + ': domain')
    if k == 'A':
        E, V = a[0] / a[1], a[0] / a[1] ** 2
        g = Gamma.from_EV(E, V)
        x.close(what + ': from_EV', g.lnpdf(pts), want, 1e-9, 1e-9)
    x.state(what)


def realmodel(case, x):
    spec = case['spec']
    fk, kern, ks, noise = models.make_fk(spec)
    world = World(case['shared'])
    model = models.make_model(spec, fk=fk)
    flat = {}
    for p in model.flattened_parameters:
        flat.setdefault(p.name, p)
    names = {'p': 'noise', 'q': 'a0', 'r': 'inv_lengthscale'}
    params = {k: flat[v] for k, v in names.items() if v in flat}
    for i, op in enumerate(case['ops']):
        world.apply(params, tuple(op))
        x.op()
        what = 'real model after %s' % (case['ops'][:i + 1],)
        g = np.asarray(model.gradient).copy()
        dl = {n: g[model._raveled_index_for(p)] for n, p in params.items()}
        verify(x, model, params, world, what, model.log_likelihood(), dl)


def run(case, x):
    if 'prior' in case:
        return density(case, x)
    if 'spec' in case:
        return realmodel(case, x)
    pre = [tuple(o) for o in case['prefix']]
    for t in case['tail']:
        sequence(x, pre + ([tuple(t)] if t else []), case['shared'], case.get('npre', 0), case.get('long', False))


def cases(tier, engine):
    th = tier == 'thorough'
    for args in itertools.product((-1.0, 0.0, 2.0), (0.25, 1.0, 3.0)):
        yield dict(prior='G', args=list(args))
    for args in itertools.product((1.0, 2.0, 3.5), (0.5, 1.0, 3.0)):
        yield dict(prior='A', args=list(args))
        yield dict(prior='I', args=list(args))
    for b in (0.3, 1.0, 2.5):
        yield dict(prior='H', args=[b])
    for a0, b0 in itertools.product((0.01, 0.5, 0.9, 20.0, 1e3), (1e-4, 0.05, 40.0, 1e4)):
        yield dict(prior='A', args=[a0, b0], far=True)
        yield dict(prior='I', args=[a0, b0], far=True)
        yield dict(prior='G', args=[a0, b0], far=True)
        yield dict(prior='G', args=[-a0, b0], far=True)
        yield dict(prior='H', args=[b0], far=True)
    full = ops_of(OPS)
    red = [('p', o) for o in 'AIufFv'] + [('q', o) for o in 'GAuCv'] + [('r', o) for o in 'AHuf']
    part = [(p, o) for p in ('p0', 'p1', 'q1', 'q0') for o in 'GAuFfv'] + [('p', 'I'), ('q', 'G'), ('r', 'A'), ('p', 'u')]
    for shared in (False, True):
        for a in part:
            yield dict(prefix=[a], tail=[None] + part, shared=shared)
        for a, b in itertools.product(part if th else part[::2], repeat=2):
            yield dict(prefix=[a, b], tail=part if th else part[1::2], shared=shared)
    for shared in (False, True):
        yield dict(prefix=[], tail=[None] + full, shared=shared)
        for a in full:
            yield dict(prefix=[a], tail=full, shared=shared)
            if a[1] in 'GAIHfc' and th or a in red:
                yield dict(prefix=[a], tail=[t for t in (full if th else red) if t[1] not in 'v'], shared=shared, npre=1)
        for a, b in itertools.product(full if th else red, repeat=2):
            yield dict(prefix=[a, b], tail=full if th else red, shared=shared)
    vals = [(p, o) for p in 'pqr' for o in 'AIHGusLf' if (p, o) != ('q', 'H')]
    for a in vals:
        for long in (False, True):
            yield dict(prefix=[a], tail=[None] + vals, shared=False, long=long)
    for a, b in itertools.product([v for v in vals if v[1] in 'AIHGsL'], repeat=2):
        if th or a[1] in 'sL' or b[1] in 'sL':
            yield dict(prefix=[a, b], tail=[v for v in vals if v[1] in 'sLu'], shared=False, long=a[0] == 'q')
    opts = [[], ['A'], ['A', 'e'], ['H', 'f'], ['I', 'f', 'F', 'e'], ['f']]
    for order in ('pqr', 'rqp', 'qpr'):
        for shared in (False, True):
            for a in itertools.product(opts, [[], ['G'], ['G', 'e'], ['A', 'e', 'v'], ['G', 'f'], ['e']], opts):
                by = dict(zip('pqr', a))
                yield dict(prefix=[(n, o) for n in order for o in by[n]], tail=[None], shared=shared)
    base = dict(D=2, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None, lens=[3, 2], m=4, par=0, data='gen')
    for mix in (base, dict(base, lmc=[], slfm=[['rbf', None]], indep=[['matern32', None]], idx=[1])):
        for a, b in itertools.product([['p', 'A'], ['p', 'H'], ['q', 'G'], ['r', 'I'], ['r', 'A']], repeat=2):
            for shared in (False, True):
                yield dict(spec=mix, ops=[a, b, [a[0], 'v'], [b[0], 'u']], shared=shared)
