"""C07: predictions are the Gaussian conditional in every mode."""
import itertools

import numpy as np

from mc import models
from mc.mixset import bigset, extremeset, hugeset, mixset
from mc.predict import check_prediction, posterior, test_inputs

ID = 'C07'
BOUNDS = ('every kernel mix of mixset level 1 (level 2 thorough), data {generic, on-grid, duplicated, shifted}; per model all three modes '
          '(precompute refused exactly for split kernels), and per mode several ragged test lists with every pattern of empty outputs, '
          'at generic points, training points, grid points and outside the grid; low-noise settings with variance clipping; outputs in units of 1e-7..1e7 for the variance of the exact mode; '
          'unusual units, smoothness and noise of inputs and outputs (extremeset); a ladder of larger models (up to 9 outputs, 8 kernels, rank 4, 130 observations, 4 input dimensions, 17 test points per output), and a few an order of magnitude beyond (1100 observations, 1034 grid points, 33 outputs, 20 kernels, 300 test points); before and after a parameter update')
ASSUMPTIONS = ['compared to 1e-6 with noise of order one (1e-3 for the low-noise cases)']
MODES = ('exact', 'on-the-fly', 'precompute')


def run(case, x):
    spec = case
    P, D = spec.get('P', 1), spec['D']
    fk, kern, ks, noise = models.make_fk(spec)
    if spec.get('low'):
        noise = noise * 0.02
        fk.noise = noise
    Xs, Ys = models.data(spec)
    y = np.concatenate(Ys)
    split = len({e[3] for e in models.entries(spec)}) > 1
    orc = models.make_oracle(ks, noise)
    model = models.make_model(spec, fk=fk, Xs=Xs, Ys=Ys, prediction=spec['first'])
    axes = models.axes_of(model, spec, Xs)

    def sweep(what, tests):
        for mode in MODES:
            if mode == 'precompute' and spec.get('nopre') or mode != 'exact' and spec.get('varonly'):
                continue
            model.prediction = mode
            for kind, lens in tests:
                Zs = test_inputs(spec, Xs, axes, kind, lens)
                if kind == 'vec':
                    Zs = test_inputs(spec, Xs, axes, 'gen', lens)
                if spec.get('data') == 'grid' and kind == 'train':
                    pass
                arg = [Z[:, 0] for Z in Zs] if kind == 'vec' else [Z.copy() for Z in Zs]
                name = '%s %s %s %s' % (what, mode, kind, lens)
                x.op()
                if mode == 'precompute' and split:
                    x.raises(name, ValueError, lambda: model.predict(arg))
                    continue
                got = model.predict(arg)
                want = posterior(orc, axes, Xs, y, Zs, mode)
                if spec.get('varonly'):      # outputs in tiny units: the variance of the exact mode needs no solver
                    x.close(name + ': variance', np.concatenate(got[1]), np.concatenate(want[1]), 1e-6, 1e-6 * spec['scale'] ** 2)
                    continue
                t = 1e-4 if spec.get('low') or spec.get('yf') else 1e-6
                check_prediction(x, name, got, want, lens, t, t, unit=spec.get('scale', 1.0))
                x.state(spec, name)
                if spec.get('data') == 'grid' and kind == 'train' and not spec.get('low'):
                    # all inputs are grid points: the exact conditional, whatever the mode
                    K = orc.K_exact(Xs)
                    C = orc.cross(Zs, Xs)
                    mean = C.dot(np.linalg.solve(K, y))
                    var = np.repeat(orc.native(), lens) - np.einsum('ij,ji->i', C, np.linalg.solve(K, C.T))
                    x.close(name + ': exact mean', np.concatenate(got[0]), mean, 1e-5, 1e-5 * spec.get('scale', 1.0))
                    x.close(name + ': exact variance', np.concatenate(got[1]), var, 1e-5, 1e-5 * spec.get('scale', 1.0) ** 2)
    sweep('initial', spec['tests'])
    noise = noise * 1.3
    for k in ks:
        k['p'] = [v * 0.8 for v in k['p']]
    fk.noise = noise
    for q, k in enumerate(ks):
        for o, v in zip(models.kernel_param_objects(k['kind'], kern[q]), k['p']):
            o[:] = v
    orc = models.make_oracle(ks, noise)
    sweep('updated', spec['tests'] if spec.get('full') else spec['tests'][-1:])


def cases(tier, engine):
    th = tier == 'thorough'
    i = 0
    for j, s in enumerate(hugeset()):
        D = s['D']
        yield dict(s, par=j % 3, data='gen', first=MODES[j % 2], nopre=max(s['lens']) > 500 or D == 20,
                   tests=[['gen', [(5 * d + j) % 4 for d in range(D)]]] + ([['gen', [300] + [0] * (D - 1)]] if j in (1, 4) else []))
    for s in mixset(2 if th else 1):
        i += 1
        D = s['D']
        yield dict(s, lens=[3, 2, 4][:D], m=[4, 5] if s['P'] == 2 else 5, par=i % 3,
                   data=['gen', 'grid', 'dup'][i % 3], first=MODES[i % 2],
                   tests=[['gen', [2, 1, 3][:D]], ['train', [1, 0, 2][:D]], ['far', [1, 2, 0][:D]]])
    for j, s in enumerate(bigset(2 if th else 1)):
        D = s['D']
        yield dict(s, par=j % 3, data=['gen', 'dup'][j % 2], first=MODES[j % 2],
                   tests=[['gen', [(5 * d + j) % 4 for d in range(D)]], ['gen', [17 if d == j % D else 0 for d in range(D)]]])
    for s in mixset(0):
        i += 1
        D = s['D']
        for data in ('gen', 'grid', 'shift') if th else ('gen', 'shift' if i % 2 else 'grid'):
            tests = []
            for lens in itertools.product((0, 1, 3), repeat=D):
                tests.append(['gen', list(lens)])
            tests += [['train', [2] * D], ['far', [2] * D]]
            if s['P'] == 1:
                tests.append(['vec', [2, 0, 1][:D]])
            if not th and (D == 3 or data != 'gen'):
                tests = tests[::3] + tests[-1:] + [['gen', [0] * D]]
            yield dict(s, lens=[2, 3, 2][:D], m=[4, 4] if s['P'] == 2 else 6, par=1, data=data, first='on-the-fly',
                       tests=tests, full=th)
        if D == 3 and not th:
            continue
        yield dict(s, lens=[3, 4, 2][:D], m=[4, 6] if s['P'] == 2 else 12, par=0, data='gen', first='exact', low=True,
                   tests=[['gen', [3] * D], ['train', [2] * D]])
    for j, s in enumerate(extremeset(th)):
        D = s['D']
        yield dict(s, first=MODES[j % 2], tests=[['gen', [2, 1, 3][:D]], ['train', [1, 0, 2][:D]], ['far', [1, 2, 0][:D]]])
    for s in mixset(0):
        if s['indep']:                   # their variance is one, whatever the units
            continue
        for scale in (1e-5, 1e-7, 1e7):
            D = s['D']
            yield dict(s, lens=[3, 2, 4][:D], m=[4, 5] if s['P'] == 2 else 5, par=1, data='gen', scale=scale, varonly=True, first='exact',
                       tests=[['gen', [2, 1, 3][:D]], ['train', [2] * D], ['far', [2, 0, 1][:D]]])
