"""C05: the log likelihood is the Gaussian log density."""
import numpy as np

from mc import models, oracle
from mc.mixset import bigset, extremeset, hugeset, mixset

ID = 'C05'
BOUNDS = ('every kernel mix of mixset level 1 (all mixes of <= 3 kernels with ranks 1,2 for 1..3 outputs, <= 2 kernels over two '
          'input dimensions; level 2 thorough) x data {generic, on-grid, duplicated, shifted} x 3 parameter settings (a fourth, almost noiseless one for mixset level 0), '
          'normalised or not; unusual units, smoothness and noise of inputs and outputs (extremeset); a ladder of larger models (up to 9 outputs, 8 kernels, rank 4, 130 observations, 128 grid points, 4 input dimensions); at construction and after each of three parameter updates; default and tight tolerance')
ASSUMPTIONS = ['compared to 1e-6 relative for noise of order one; almost noiseless settings (1e-5..1e-3) to the solver tolerance']


def logdet(K):
    s, ld = np.linalg.slogdet(K)
    return ld


def verify(x, model, spec, orc, Xs, y, what):
    axes = models.axes_of(model, spec, Xs)
    Kx, Ks = orc.K_exact(Xs), orc.K_ski(Xs, axes)
    quad = y.dot(np.linalg.solve(Ks, y))
    n = len(y)
    want = -0.5 * (logdet(Kx) + quad + n * np.log(2 * np.pi))
    x.op(3)
    x.close(what + ': log determinant', model.log_det_K(), logdet(Kx), 1e-8, 1e-8)
    if spec.get('detonly'):
        # so ill-conditioned that the solver may stop anywhere: the density is still the determinant and the quadratic form
        got = model.log_likelihood() + 0.5 * model.normal_quadratic()
        x.close(what + ': log likelihood without the quadratic form', got, -0.5 * (logdet(Kx) + n * np.log(2 * np.pi)), 1e-6, 1e-9 * abs(quad) + 1e-6)
        x.state(spec, what)
        return
    t = 1e-6
    if spec['par'] == 3 or spec.get('ext'):
        # the solver stops at a residual r with |r| <= tol |K| |x|, so the form y'x is off by at most |K^-1 y| |r|
        w = np.linalg.solve(Ks, y)
        t = 1e-6 + 1e-7 * np.linalg.norm(Ks, 2) * w.dot(w)
    x.close(what + ': quadratic form', model.normal_quadratic(), quad, 1e-6, t)
    x.close(what + ': log likelihood', model.log_likelihood(), want, 1e-6, t)
    x.close(what + ': objective', model.objective_function(), -want, 1e-6, t)
    if spec['data'] == 'grid':
        x.close(what + ': exact density on the grid', model.log_likelihood(), oracle.loglik(Kx, y), 1e-6, t)
    x.state(spec, what)


def run(case, x):
    spec = case
    fk, kern, ks, noise = models.make_fk(spec)
    Xs, Ys = models.data(spec)
    model = models.make_model(spec, fk=fk, Xs=Xs, Ys=Ys, normalize=spec['norm'])
    y = np.concatenate([(v - v.mean()) / np.sqrt(((v - v.mean()) ** 2).mean()) for v in Ys] if spec['norm'] else Ys)
    orc = models.make_oracle(ks, noise)
    verify(x, model, spec, orc, Xs, y, 'initial')
    # parameter updates through the public setters
    noise = noise * 1.4 + (0.1 if spec['par'] != 3 and not spec.get('ext') else 0)
    fk.noise = noise
    orc = models.make_oracle(ks, noise)
    verify(x, model, spec, orc, Xs, y, 'after noise update')
    for q, k in enumerate(ks):
        objs = models.kernel_param_objects(k['kind'], kern[q])
        if objs:
            k['p'] = [v * 1.25 for v in k['p']]
            for o, v in zip(objs, k['p']):
                o[:] = v
            break
    free = [q for q, e in enumerate(models.entries(spec)) if e[0] != 'indep']
    if free:
        ks[free[-1]]['A'] = ks[free[-1]]['A'] * 0.7 - 0.2 * spec.get('scale', 1.0)
        fk.coreg_vecs = [k['A'] for k in ks]
    orc = models.make_oracle(ks, noise)
    verify(x, model, spec, orc, Xs, y, 'after kernel and coregionalization update')


def cases(tier, engine):
    i = 0
    for s in mixset(2 if tier == 'thorough' else 1):
        i += 1
        for k, d in enumerate(('grid', 'gen') if tier == 'thorough' else (('grid', 'gen')[i % 2],)):
            yield dict(s, lens=[3, 4, 2][:s['D']], m=[5, 4] if s['P'] == 2 else 6, par=(i + k) % 3, data=d,
                       norm=bool(i % 4 == 1), tol=1e-4 if i % 3 == 0 else 1e-10)
    for s in mixset(0):
        for d in ('grid', 'gen', 'dup', 'shift'):
            for norm in (False, True):
                yield dict(s, lens=[4, 2, 5][:s['D']], m=[4, 6] if s['P'] == 2 else 7, par=0, data=d, norm=norm)
    for i, s in enumerate(bigset(2 if tier == 'thorough' else 1)):
        for d in ('gen', 'grid') if tier == 'thorough' else (('gen', 'dup')[i % 2],):
            yield dict(s, par=i % 3, data=d, norm=min(s['lens']) > 1 and i % 3 == 0)
    for i, s in enumerate(hugeset()):
        yield dict(s, par=i % 3, data='gen', norm=bool(i % 2))
    for s in bigset(1)[10:17]:
        yield dict(s, par=3, data='gen', norm=False, detonly=True)
    for i, s in enumerate(mixset(1 if tier == 'thorough' else 0)):
        for d in ('grid', 'gen'):
            yield dict(s, lens=[4, 2, 3][:s['D']], m=[4, 6] if s['P'] == 2 else 7, par=3, data=d, norm=False)
    for i, s in enumerate(extremeset(tier == 'thorough')):
        yield dict(s, norm='scale' not in s and i % 3 == 0, ext=True)
