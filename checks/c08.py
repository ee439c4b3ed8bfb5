"""C08: normalisation is invisible; quantiles agree with predictions."""
import itertools

import numpy as np
from scipy.special import ndtri

from mc import models
from mc.mixset import bigset, hugeset, mixset
from mc.predict import posterior, test_inputs

ID = 'C08'
BOUNDS = ('1..3 outputs (a ladder of larger models up to 9 outputs, 8 kernels, 4 input dimensions, 40 test points, 33 outputs; observations with mean exactly 0 or deviation exactly 1, or integer); every assignment of the affine maps {identity, 3y-7, y/500+40, 250y+1000, 1e-9y, 1e9(y-1)} to the outputs, normalised or '
          'not, in every prediction mode; every quantile tuple of length <= 2 (3 thorough) over {2.5, 10, 50, 97.5} in any order '
          'and with repetitions, and lists of up to 14 from 1e-6 to 99.9, given as tuple, list or generator; every pattern of empty test outputs; the affine '
          'assignments are also checked against a dense posterior')
ASSUMPTIONS = ['scales are positive; compared to 1e-6 of the output scale']
MAPS = {'id': (1.0, 0.0), 'big': (3.0, -7.0), 'tiny': (0.002, 40.0), 'huge': (250.0, 1000.0),
        'nano': (1e-9, 0.0), 'giga': (1e9, -1e9)}
QS = (2.5, 10.0, 50.0, 97.5)
MODES = ('exact', 'on-the-fly', 'precompute')


def build(spec, Ys, norm):
    fk, kern, ks, noise = models.make_fk(spec)
    Xs, _ = models.data(spec)
    mdl = models.make_model(spec, fk=fk, Xs=Xs, Ys=[Y.copy() for Y in Ys], normalize=norm)
    return mdl, Xs, ks, noise


def exact_moments(kind, n):
    """Observations whose mean is exactly 0 (or 5), or standard deviation exactly 1 (even n)."""
    v = np.array([(1 + i // 2) * (1 if i % 2 else -1) for i in range(n - n % 2)] + [0] * (n % 2))
    if kind != 'zero':
        v = np.sign(v)
    return v.astype(int) if kind == 'int' else v + (5.0 if kind == 'five' else 0.0)


def run(case, x):
    spec = case
    D = spec['D']
    _, Y0 = models.data(spec)
    if 'ybase' in spec:
        Y0 = [exact_moments(k, len(y)) for k, y in zip(spec['ybase'], Y0)]
    ab = [MAPS[k] for k in spec['maps']]
    Ys = [a * y + b for (a, b), y in zip(ab, Y0)]
    norm = spec['norm']
    mdl, Xs, ks, noise = build(spec, Ys, norm)
    base, _, _, _ = build(spec, Y0, norm)
    orc = models.make_oracle(ks, noise)
    axes = models.axes_of(mdl, spec, Xs)
    split = len({e[3] for e in models.entries(spec)}) > 1
    if norm:
        mean = [y.mean() for y in Ys]
        std = [np.sqrt(((y - y.mean()) ** 2).mean()) for y in Ys]
    else:
        mean, std = [0.0] * D, [1.0] * D
    yn = np.concatenate([(y - m) / s for y, m, s in zip(Ys, mean, std)])
    for mode in MODES:
        if mode == 'precompute' and (split or D >= 20):
            continue
        mdl.prediction = base.prediction = mode
        for lens in spec['tests']:
            Zs = test_inputs(spec, Xs, axes, 'gen', lens)
            what = '%s %s maps=%s norm=%s' % (mode, lens, spec['maps'], norm)
            x.op(2)
            mu, var = mdl.predict([Z.copy() for Z in Zs])
            mu0, var0 = base.predict([Z.copy() for Z in Zs])
            wm, wv = posterior(orc, axes, Xs, yn, Zs, mode)
            x.check(len(mu) == D and len(var) == D, what + ': number of outputs')
            for d in range(D):
                a, b = ab[d]
                tol = 1e-6 * (std[d] + abs(a))
                x.close(what + ': mean of output %d' % d, mu[d], wm[d] * std[d] + mean[d], 1e-7, tol)
                x.close(what + ': variance of output %d' % d, var[d], wv[d] * std[d] ** 2, 1e-6, 1e-6 * std[d] ** 2)
                if norm:
                    x.close(what + ': equivariance of mean %d' % d, mu[d], a * np.asarray(mu0[d]) + b, 1e-7, tol)
                    x.close(what + ': equivariance of variance %d' % d, var[d], a * a * np.asarray(var0[d]), 1e-6,
                            1e-6 * a * a)
            x.state(spec, mode, lens)
            for kind, q in spec['qs'] if mode == 'exact' else spec['qs'][:1]:
                arg = {'tuple': tuple, 'list': list, 'gen': iter}[kind](q)
                x.op()
                got = mdl.predict_quantiles([Z.copy() for Z in Zs], quantiles=arg)
                x.check(len(got) == D, what + ': number of quantile outputs')
                for d in range(D):
                    want = np.asarray(mu[d])[:, None] + np.sqrt(np.asarray(var[d]))[:, None] * ndtri(np.array(q) / 100.)
                    x.close(what + ': quantiles %s of output %d' % (q, d), got[d], want.reshape(lens[d], len(q)),
                            1e-7, 1e-6 * std[d])
            if spec.get('default'):
                got = mdl.predict_quantiles([Z.copy() for Z in Zs])
                for d in range(D):
                    want = np.asarray(mu[d])[:, None] + np.sqrt(np.asarray(var[d]))[:, None] * \
                        ndtri(np.array([.025, .975]))
                    x.close(what + ': default quantiles of output %d' % d, got[d], want, 1e-7, 1e-6 * std[d])


WIDE = [0.1, 1, 5, 25.0, 33.3, 49.999, 50, 75, 90, 99, 99.9, 1e-6, 60, 50.001]


def cases(tier, engine):
    th = tier == 'thorough'
    i = 0
    for j, s in enumerate(bigset(2 if th else 1) + hugeset()[3:]):
        if sum(s['lens']) < 60 or th:
            D = s['D']
            yield dict(s, par=j % 3, data='gen', maps=[list(MAPS)[(j + 2 * d) % (6 if j % 4 != 3 else 2)] for d in range(D)], norm=j % 4 != 3,
                       qs=[['list', WIDE], ['tuple', WIDE[::-1]], ['gen', [WIDE[j % 14]]]], tests=[[(j + 3 * d) % 4 for d in range(D)]])
    for D in (1, 2, 3):
        for kinds in itertools.product(('zero', 'unit', 'five', 'int'), repeat=D):
            for norm in (True, False):
                if D < 3 or norm and len(set(kinds)) == 3:
                    yield dict(D=D, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None, lens=[6, 4, 8][:D], m=5, par=0, data='gen', ybase=kinds,
                               maps=['id'] * D if D == 3 or kinds[0] == 'int' else ['id', 'big'][-D:], norm=norm, qs=[['list', WIDE[:5]]], tests=[[3, 2, 1][:D]])
    for D in (1, 2):
        yield dict(D=D, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None, lens=[5, 4][:D], m=5, par=0, data='gen', maps=['big', 'id'][:D],
                   norm=True, qs=[['list', WIDE], ['tuple', []]] + [['tuple', [q]] for q in WIDE], tests=[[21, 3][:D], [1, 40][:D]])
    names = list(MAPS)
    pair = ['id', 'big', 'tiny', 'nano']
    qall = [list(q) for n in range(1, 4 if th else 3) for q in itertools.product(QS, repeat=n)]
    # all quantile tuples, all emptiness patterns
    for D in (1, 2, 3):
        mix = dict(D=D, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None)
        tests = [list(t) for t in itertools.product((0, 2), repeat=D)]
        for norm in (True, False):
            for kind in ('tuple', 'list', 'gen'):
                yield dict(mix, lens=[3, 4, 2][:D], m=5, par=1, data='gen', maps=['big', 'tiny', 'huge'][:D], norm=norm,
                           qs=[[kind, q] for q in (qall if kind == 'tuple' else qall[:6])], tests=tests, default=True)
    for D in (1, 2, 3):
        for mix in [s for s in mixset(0) if s['D'] == D][::(1 if th else 4)]:
            for maps in itertools.product(names if D == 1 or (th and D == 2) else pair if D == 2 or th else ['big', 'nano'], repeat=D):
                for norm in (True, False):
                    if not norm and not (maps[0] == 'big' or th):
                        continue
                    i += 1
                    qs = [[['tuple', 'list', 'gen'][i % 3], qall[(i * 7) % len(qall)]]]
                    yield dict(mix, lens=[3, 4, 2][:D], m=[4, 4] if mix['P'] == 2 else 6, par=i % 3, data='gen',
                               maps=list(maps), norm=norm, qs=qs, tests=[[[2, 0, 1], [1, 2, 0], [0, 1, 3]][i % 3][:D]])
