"""C04: the model covariance is the LMC sum for every kernel mix."""
import itertools

import numpy as np

from mc import models
from mc.mixset import bigset, extremeset, hugeset
from runlmc.lmc.likelihood import ExactLMCLikelihood
try:
    from runlmc.lmc.grid_kernel import GridKernel
except ImportError:
    GridKernel = None

ID = 'C04'
BOUNDS = ('every mix of 0..2 LMC kernels (ranks 1,2; 3 and 4 for some), 0..2 SLFM and 0..2 (3) independent kernels with every '
          'output index assignment, total <= 4, for 1..3 outputs in one dimension (4 outputs for single-group mixes); every '
          'assignment of <= 3 kernels to active dimensions {all,0,1} in two dimensions; every pair of kernel kinds; every '
          'ragged size list over {1,2,4} for three mixes; unusual units, smoothness and noise of inputs and outputs (extremeset); a ladder of larger models (up to 9 outputs, 8 kernels, rank 4, 130 observations, 128 grid points, 4 input dimensions); the exact covariance for every pair of active dimension sets in three (and a third of them in 4..5) dimensions; 5 data layouts; 3 parameter settings; groups omitted or passed empty')
ASSUMPTIONS = ['parameters from three fixed generic settings', 'entries compared to 1e-9']


def run(case, x):
    spec = case
    fk, kern, ks, noise = models.make_fk(spec)
    Xs, Ys = models.data(spec)
    orc = models.make_oracle(ks, noise)
    u = float(np.abs(orc.native()).max())    # unit of covariance entries
    x.state(spec)
    if spec.get('exactonly'):
        # the exact covariance has no limit on active dimensions
        fk.set_input_dim(spec['P'])
        if spec.get('far'):
            # still exactly representable at the distance of the origin
            Xs = [np.round(X * 1024) / 1024 + spec['far'] for X in Xs]
        x.op(2)
        x.close('exact likelihood covariance', ExactLMCLikelihood(fk, Xs, Ys).K, orc.K_exact(Xs), 1e-9, 1e-9 * u)
        Zs = [X[::2] + 0.125 for X in Xs]
        x.close('cross covariance', ExactLMCLikelihood.kernel_from_indices(Zs, Xs, fk), orc.cross(Zs, Xs), 1e-9, 1e-9 * u)
        return
    model = models.make_model(spec, fk=fk, Xs=Xs, Ys=Ys)
    x.op()
    axes = models.axes_of(model, spec, Xs)
    Kx = orc.K_exact(Xs)
    Ks = orc.K_ski(Xs, axes)
    n = len(Kx)
    x.close('parameters kept', np.concatenate([np.ravel(v) for v in fk.coreg_vecs]),
            np.concatenate([k['A'].ravel() for k in ks]), 1e-12, 1e-12 * min(1.0, u))
    x.close('diagonals kept', np.concatenate([np.ravel(v) for v in fk.coreg_diags]),
            np.concatenate([k['kappa'].ravel() for k in ks]), 1e-12, 1e-12 * min(1.0, u))
    x.close('noise kept', fk.noise, noise, 1e-12, 1e-12 * min(1.0, u))
    x.check(fk.Q == len(ks) and fk.D == spec['D'], 'kernel and output counts')
    for group, name in (('lmc', 'num_lmc'), ('slfm', 'num_slfm'), ('indep', 'num_indep')):
        want = {}
        for k in spec[group]:
            ad = tuple(range(spec.get('P', 1))) if k[-1] is None else tuple(sorted(k[-1]))
            want[ad] = want.get(ad, 0) + 1
        have = {ad: int(c) for ad, c in getattr(fk, name).items() if c}
        x.check(have == want, '%s should count the kernels by active dimensions: %r != %r' % (name, have, want))
    for q, B in enumerate(fk.coreg_mats()):
        x.close('coregionalization matrix %d' % q, B, orc.B(q), 1e-12, 1e-12 * u)
    x.op(4)
    probe = np.cos(np.arange(n) * 1.1)
    x.close('fast covariance product', model.kernel.K.matvec(probe), Ks.dot(probe), 1e-9, 1e-9 * u)
    if n > 300:
        for i in (0, 1, n // 3, n // 2, n - 2, n - 1):
            x.close('column %d of the fast covariance' % i, model.kernel.K.matvec(np.eye(n)[i]), Ks[i], 1e-9, 1e-9 * u)
        x.close('exact covariance', model.K(), Kx, 1e-9, 1e-9 * u)
        x.state(case)
        return
    x.close('fast covariance', model.kernel.K.as_numpy(), Ks, 1e-9, 1e-9 * u)
    x.close('fast covariance operator', model.kernel.K.as_linear_operator().matmat(np.eye(n)), Ks, 1e-9, 1e-9 * u)
    representations(x, fk, model, Ks - orc.noise_diag([len(X) for X in Xs]), u)
    x.close('exact covariance', model.K(), Kx, 1e-9, 1e-9 * u)
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    x.close('exact likelihood covariance', ex.K, Kx, 1e-9, 1e-9 * u)
    if spec.get('data') == 'grid':
        x.close('interpolation is exact on the grid', model.kernel.K.as_numpy(), Kx, 1e-8, 1e-8 * u)
    # cross covariance against ragged test inputs, some outputs empty
    for zl in ([2, 0, 1, 3, 1], [0, 1, 0, 2, 2], [1, 2, 3, 1, 0]):
        zl = (zl * 8)[:spec['D']]
        if not sum(zl):
            continue
        Zs = [np.array([[spec.get('xf', 1.0) * (0.37 * (i + 1) + 0.21 * j + 0.5 * d) for d in range(spec.get('P', 1))] for j in range(k)]
                       ).reshape(k, spec.get('P', 1)) for i, k in enumerate(zl)]
        x.op()
        x.close('cross covariance', ExactLMCLikelihood.kernel_from_indices(Zs, Xs, fk), orc.cross(Zs, Xs), 1e-9, 1e-9 * u)
        x.close('cross covariance transposed', ExactLMCLikelihood.kernel_from_indices(Xs, Zs, fk),
                orc.cross(Xs, Zs), 1e-9, 1e-9 * u)


def representations(x, fk, model, want, u):
    """Each representation, chosen by hand, is the same matrix."""
    for kind in ('sum', 'bt', 'slfm'):
        try:
            parts = [GridKernel(fk, model.dists[ad], *model.interpolants[ad], kind, ad) for ad in fk.active_dims]
        except (TypeError, AttributeError):
            return x.skip('representations not constructed as GridKernel(kernel, distances, W, W^T, kind, active dimensions)')
        x.op()
        x.close('covariance represented as %s' % kind, sum(p.as_numpy() for p in parts), want, 1e-9, 1e-9 * u)


def base(spec, **kw):
    D, P = spec['D'], spec['P']
    s = dict(spec, lens=[3, 2, 4, 2][:D], m=5 if P == 2 else 6, par=0, data='gen', omit=False)
    s.update(kw)
    return s


def cases(tier, engine):
    th = tier == 'thorough'
    for i, s in enumerate(hugeset()):
        for d in ('gen', 'dup'):
            yield dict(s, par=i % 3, data=d, omit=False)
    for i, s in enumerate(bigset(2 if th else 1)):
        yield dict(s, par=i % 3, data=['gen', 'dup'][i % 2], omit=bool(i % 2))
    for P in (3, 4, 5):
        every = [None] + [list(c) for k in range(1, P + 1) for c in itertools.combinations(range(P), k)]
        for a in every:
            for b in every if P == 3 else every[::3]:
                yield dict(D=2, P=P, lmc=[['rbf', 1, a]], slfm=[['matern32', b]], indep=[['rbf', a and a[::-1]]], idx=[1],
                           m=4, lens=[4, 3], par=0, data='gen', exactonly=True)
    for far in (-4096.0, 2.0 ** 20, -2.0 ** 30):
        for k in ('rbf', 'matern32', 'id', 'scaled:rbf'):
            for P in (1, 2, 3):
                yield dict(D=2, P=P, lmc=[[k, 1, None]], slfm=[['rbf', [P - 1]]], indep=[[k, None]], idx=[0], m=4, lens=[5, 4], par=0,
                           data='dup', exactonly=True, far=far)
    for s in extremeset(th):
        yield s
    for s in extremeset(1)[::5]:
        yield dict(s, noisef=1e-7)
    i = 0
    for D in (1, 2, 3):
        for sp in models.mixes(D, 1, ranks=(1, 2), total=4 if D < 3 or th else 3):
            i += 1
            yield base(sp, par=i % 3, omit=bool(i % 2), data=['gen', 'grid'][(i // 3) % 2])
            if th:
                yield base(sp, par=(i + 1) % 3, data='dup', omit=bool((i + 1) % 2))
    for D in (2, 3):
        for sp in models.mixes(D, 1, ranks=(3, 4), max_lmc=2, max_slfm=1, max_indep=1, total=2):
            yield base(sp, par=1)
    for D in (1, 2, 3, 4, 5):
        for sp in models.mixes(D, 1, ranks=(1,), max_lmc=2, max_slfm=3, max_indep=1, total=3):
            if sp['idx'] is None or D == 4:
                yield base(sp, par=2, omit=True, lens=[2, 3, 2, 4, 2][:D])
    for n in (3, 4):    # independent kernels only, any index
        for D in (2, 3) if n == 3 else (2,):
            for idx in itertools.product(range(D), repeat=n):
                yield base(dict(D=D, P=1, lmc=[], slfm=[], indep=[['rbf', None]] * n, idx=list(idx)), par=0)
    # two dimensions: every assignment of active dimensions
    for D in (1, 2) if not th else (1, 2, 3):
        for sp in models.mixes(D, 2, ranks=(1,), dims=(None, [0], [1]), max_lmc=2, max_slfm=2, max_indep=1,
                               total=2 if not th else 3):
            i += 1
            yield base(sp, par=i % 3, m=[5, 7], data=['gen', 'grid'][i % 2], lens=[3, 2, 2][:D])
    for dims in ([[1, 0]], [[0, 1]], [[1], [0, 1]], [[1], [0]]):
        lm = [['rbf', 1, d] for d in dims]
        yield base(dict(D=2, P=2, lmc=lm, slfm=[], indep=[['matern32', [1]]], idx=[1]), m=[7, 4])
    kinds = ['rbf', 'matern32', 'std_periodic', 'id', 'scaled:rbf']
    for a, b in itertools.product(kinds, kinds):
        for k, mix in enumerate((dict(lmc=[[a, 1, None], [b, 2, None]], slfm=[], indep=[]),
                                 dict(lmc=[[a, 1, None]], slfm=[[b, None]], indep=[]),
                                 dict(lmc=[], slfm=[[a, None]], indep=[[b, None]]))):
            yield base(dict(mix, D=2, P=1, idx=None), par=k, data=['gen', 'grid', 'shift'][k], scalar=True)
        if th:
            yield base(dict(lmc=[[a, 1, [0]]], slfm=[[b, [1]]], indep=[], D=2, P=2, idx=None))
    three = [dict(lmc=[['rbf', 1, None]], slfm=[], indep=[]), dict(lmc=[], slfm=[['rbf', None], ['matern32', None]], indep=[]),
             dict(lmc=[['rbf', 2, None]], slfm=[['matern32', None]], indep=[['rbf', None]])]
    for mix in three:
        for D in (1, 2, 3):
            for lens in itertools.product((1, 2, 4), repeat=D):
                if D < 3 or th or sorted(lens) != list(lens):
                    # one observation has no spread unless outputs are not validated: use >= 2
                    yield base(dict(mix, D=D, P=1, idx=[D - 1] if mix['indep'] else None),
                               lens=[v + 1 for v in lens], data='dup')
        for data in ('gen', 'grid', 'dup', 'shift', 'sorted'):
            for m in (1, 2, 3, 9, 16):
                yield base(dict(mix, D=2, P=1, idx=[0] if mix['indep'] else None), data=data, m=m)
                if m in (2, 4) or th:
                    yield base(dict(mix, D=2, P=2, idx=[1] if mix['indep'] else None), data=data, m=[m, 4])
