"""C18: the GPy-backed model is the exact LMC posterior under the same interface."""
import itertools

import numpy as np
import scipy.stats

from mc import models, oracle
from runlmc.models.gpy_lmc import GPyLMC

ID = 'C18'
BOUNDS = ('every list of up to 2 (thorough 3) kernels over {RBF, Matern 3/2, standard periodic} with ranks 1..2, 1..3 outputs, ragged sizes '
          '2..4, 1..2 input dimensions with every assignment of active dimensions (up to 5 outputs, 5 kernels, 4 dimensions, 21 observations in a ladder); each model driven through initial -> parameters set -> '
          'optimised -> parameters set back, and at every state all queries over every ragged test list with 0..2 points per output')
ASSUMPTIONS = ['the dense (sparse=0) variant; GPy itself adds 1e-8 to the diagonal, hence a tolerance of 2e-5']
TOL = 2e-5
KINDS = ('rbf', 'matern32', 'std_periodic')


def parts(model):
    """(kernel, coregionalisation) per LMC term, in order."""
    k = model.gpy_model.kern
    terms = [k] if any(type(p).__name__ == 'Coregionalize' for p in k.parts) else list(k.parts)
    out = []
    for t in terms:
        co = [p for p in t.parts if type(p).__name__ == 'Coregionalize']
        ke = [p for p in t.parts if type(p).__name__ != 'Coregionalize']
        out.append((ke[0], co[0]))
    return out


def noises(model):
    return [l.variance for l in model.gpy_model.likelihood.likelihoods_list]


def read_kernel(kind, k):
    l = float(k.lengthscale[0])
    v = float(k.variance[0])
    if kind == 'rbf':
        p = [l ** -2]
    elif kind == 'matern32':
        p = [1 / l]
    else:
        p = [l ** -2, float(k.period[0])]
    return p, v


def current(model, spec, given=None):
    ks = []
    for q, ((ke, co), (kind, rank, dims)) in enumerate(zip(parts(model), spec['lmc'])):
        p, v = read_kernel(kind, ke)
        ks.append(dict(kind=kind, p=p if given is None else given[q], dims=tuple(range(spec['P'])) if dims is None else tuple(dims),
                       A=np.array(co.W).T.copy() * np.sqrt(v), kappa=np.array(co.kappa) * v))
    return oracle.LMC(ks, np.array([float(n[0]) for n in noises(model)]))


def tests(D, P, some):
    z = np.array([[0.3, 1.1, .2, 1.], [2.2, 0.4, 1.3, 0.], [-.5, 3.3, 2.1, .4], [1.4, 1.4, .9, 2.], [0.1, 2., 0., 1.5]])[:, :P]
    for t in itertools.product(range(3), repeat=D):
        if sum(t) == 0 or (some and t not in ((1,) * D, ((2, 0, 1) * 4)[:D], ((0, 1, 2) * 4)[:D])):
            continue
        out, at = [], 0
        for n in t:
            out.append(np.array([z[(at + i) % 5] + .07 * at for i in range(n)]).reshape(n, P))
            at += n
        yield out
    # the mean length equals the first output's, but the lengths differ
    for t in ((2, 3, 1) + (2,) * D, (3, 4, 2) + (3,) * D) if D > 2 else ():
        yield [np.array([z[(i + d) % 5] + .07 * d + .3 * i for i in range(n)]).reshape(n, P) for d, n in enumerate(t[:D])]


def judge(x, model, spec, Xs, Ys, what, some, given=None):
    extra = [[X[:2] + 1e-3 for X in Xs]] if spec.get('low') else []
    lmc = current(model, spec, given)
    y = np.concatenate(Ys)
    K = lmc.K_exact(Xs)
    x.op()
    x.close(what + ': log likelihood', model.log_likelihood(), oracle.loglik(K, y), 1e-3 if spec.get('low') else TOL, TOL)
    a = np.linalg.solve(K, y)
    prior = lmc.native()
    for Zs in itertools.chain(extra, tests(spec['D'], spec['P'], some)):
        C = lmc.cross(Zs, Xs)
        lens = [len(Z) for Z in Zs]
        mu = C.dot(a)
        var = np.repeat(prior, lens) - np.einsum('ij,ij->i', C, np.linalg.solve(K, C.T).T)
        at = np.cumsum([0] + lens)
        arg = [Z.reshape(-1) if spec['P'] == 1 and i % 2 else Z.copy() for i, Z in enumerate(Zs)]
        keep = [z.copy() for z in arg]
        x.op(2)
        gm, gv = model.predict(arg)
        qs = [80., 2.5, 50.]
        gq = model.predict_quantiles(arg, qs)
        dq = model.predict_quantiles(arg)
        x.check(all(np.array_equal(k, z) for k, z in zip(keep, arg)), what + ': test inputs changed')
        x.check(len(gm) == len(gv) == len(gq) == spec['D'], what + ': one result per output')
        for d in range(spec['D']):
            w = '%s: output %d of %s' % (what, d, lens)
            m, v = mu[at[d]:at[d + 1]], var[at[d]:at[d + 1]]
            x.close(w + ' mean', gm[d], m, TOL, TOL)
            x.close(w + ' variance', gv[d], v, TOL, TOL)
            z = scipy.stats.norm.ppf(np.array(qs) / 100)
            x.close(w + ' quantiles', gq[d], m[:, None] + np.sqrt(v)[:, None] * z, TOL, TOL)
            z = scipy.stats.norm.ppf(np.array([2.5, 97.5]) / 100)
            x.close(w + ' default quantiles', dq[d], m[:, None] + np.sqrt(v)[:, None] * z, TOL, TOL)


def run(case, x):
    spec = dict(case, slfm=[], indep=[], idx=None, par=case['par'], data='gen')
    ks, noise = models.values(spec)
    noise = noise * case.get('low', 1.0)
    Xs, Ys = models.data(spec)
    arg = [X.reshape(-1) if spec['P'] == 1 and i % 2 == 0 else X.copy() for i, X in enumerate(Xs)]
    argy = [Y.copy() for Y in Ys]
    keep = [a.copy() for a in arg], [a.copy() for a in argy]
    kern = [models.make_kernel(k['kind'], k['p'], 'k%d' % q, case['lmc'][q][2]) for q, k in enumerate(ks)]
    kval = [[float(v) for o in models.kernel_param_objects(k['kind'], kk) for v in np.asarray(o)] for k, kk in zip(ks, kern)]
    np.random.seed(5)
    x.op()
    model = GPyLMC(arg, argy, kern, [r for _, r, _ in case['lmc']])
    given = [k['p'] for k in ks]
    some = case.get('some', False)
    x.check(len(parts(model)) == len(kern), 'one term per kernel')
    for q, ((ke, co), k) in enumerate(zip(parts(model), ks)):
        x.check(np.shape(co.W) == (spec['D'], case['lmc'][q][1]), 'rank of term %d' % q)
        x.close('kernel scale of term %d' % q, read_kernel(k['kind'], ke)[1], 1.0, 1e-12, 0)
    judge(x, model, spec, Xs, Ys, 'initial', some, given)

    def install(scale):
        for (ke, co), k in zip(parts(model), ks):
            co.W[:] = k['A'].T * scale
            co.kappa[:] = k['kappa']
        for n, v in zip(noises(model), noise * scale):
            n[:] = v
    install(1.0)
    judge(x, model, spec, Xs, Ys, 'parameters set', some, given)
    if case['opt']:
        x.op()
        model.optimize(max_iters=2)
        x.check(all(abs(read_kernel(k['kind'], ke)[1] - 1) < 1e-12 for (ke, _), k in zip(parts(model), ks)), 'kernel scale stays fixed at one')
        judge(x, model, spec, Xs, Ys, 'optimised', True)
        install(1.4)
        judge(x, model, spec, Xs, Ys, 'set after optimisation', True)
    x.check(all(np.array_equal(a, b) for l, m in zip((arg, argy), keep) for a, b in zip(l, m)), 'caller data changed')
    now = [[float(v) for o in models.kernel_param_objects(k['kind'], kk) for v in np.asarray(o)] for k, kk in zip(ks, kern)]
    x.check(now == kval, 'caller kernels changed')
    x.state(case)


def cases(tier, engine):
    th = tier == 'thorough'
    i = 0
    for D, P, lm in ((4, 1, [['rbf', 1, None], ['matern32', 2, None]]), (5, 1, [['rbf', 3, None]]), (2, 1, [['rbf', 1, None]] * 2 + [['matern32', 3, None]] * 3),
                     (2, 3, [['rbf', 1, [0, 2]], ['matern32', 1, [1]]]), (3, 3, [['rbf', 1, None]]), (2, 3, [['rbf', 2, [2]], ['rbf', 1, [1]], ['matern32', 1, [0]]]),
                     (2, 4, [['matern32', 1, [3, 1]], ['rbf', 1, [2]]])):
        for lens in ([3, 2, 4, 2, 3][:D], [21, 17, 3, 9, 5][:D]):
            yield dict(D=D, P=P, lmc=lm, lens=lens, m=4, par=D % 3, opt=D == 2, some=True)
    for D, P, lm in ((5, 1, [['rbf', 5, None]]), (3, 1, [['rbf', 4, None], ['matern32', 6, None]]), (7, 1, [['matern32', 2, None]]),
                     (2, 1, [['rbf', 1, None]] * 7)):
        yield dict(D=D, P=P, lmc=lm, lens=[3, 2, 4, 2, 3, 2, 2][:D], m=4, par=1, opt=False, some=True)
    for D, P in ((1, 1), (2, 1), (3, 1), (2, 2)):
        for k in ('rbf', 'matern32'):
            # almost noiseless: small predictive variances near the data
            yield dict(D=D, P=P, lmc=[[k, 1, None]], lens=[7, 9, 8][:D], m=4, par=0, opt=False, some=True, low=3e-4)
    for D, P in itertools.product((1, 2, 3), (1, 2)):
        dims = [None] if P == 1 else [None, [0], [1], [0, 1]]
        opts = [[k, r, d] for k in KINDS for r in (1, 2) for d in dims if not (k == 'std_periodic' and P == 2 and (d is None or len(d) > 1))]
        for n in (1, 2, 3):
            for lm in itertools.combinations_with_replacement(opts, n):
                i += 1
                if not th and (n == 3 and i % 97 or n == 2 and i % (9 if P == 2 else 3) or n == 1 and D == 3 and i % 2):
                    continue
                if th and n == 3 and i % (29 if P == 2 else 3):
                    continue
                for lens in ([3, 4, 2][:D], [2, 2, 3][:D]) if th else ([3, 4, 2][:D],):
                    for o in (lm, lm[::-1]) if n > 1 and th else (lm if i % 2 else lm[::-1],):
                        yield dict(D=D, P=P, lmc=[list(v) for v in o], lens=lens, m=4, par=i % 3, opt=i % 3 == 0, some=D == 3 and not th)
