"""Build real runlmc models, and the matching dense oracle, from JSON specs."""
import numpy as np

from mc import oracle
from runlmc.approx.interpolation import autogrid
from runlmc.kern.identity import Identity
from runlmc.kern.matern32 import Matern32
from runlmc.kern.rbf import RBF
from runlmc.kern.scaled import Scaled
from runlmc.kern.std_periodic import StdPeriodic
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.interpolated_llgp import InterpolatedLLGP

# spec = dict(D, P, lmc=[[kind, rank, dims]], slfm=[[kind, dims]], indep=[[kind, dims]], idx, lens, m, par, data)


def wave(n, a, b):
    return np.sin(a * np.arange(n) + b)


def kernel_params(kind, q, par):
    base = {'rbf': [0.9 + 0.35 * q], 'matern32': [0.6 + 0.25 * q], 'std_periodic': [0.8 + 0.2 * q, 1.7 + 0.6 * q],
            'id': []}
    if kind.startswith('scaled:'):
        return kernel_params(kind[7:], q, par) + [1.3 + 0.2 * q + 0.1 * par]
    f = {0: 1.0, 1: 1.6, 2: 0.4}.get(par, 1.0)
    return [v * f for v in base[kind]]


def make_kernel(kind, p, name, dims):
    ad = None if dims is None else list(dims)
    if kind == 'rbf':
        return RBF(inv_lengthscale=p[0], name=name, active_dims=ad)
    if kind == 'matern32':
        return Matern32(inv_lengthscale=p[0], name=name, active_dims=ad)
    if kind == 'std_periodic':
        return StdPeriodic(inv_lengthscale=p[0], period=p[1], name=name, active_dims=ad)
    if kind == 'id':
        return Identity(name=name, active_dims=ad)
    if kind.startswith('scaled:'):
        k = Scaled(make_kernel(kind[7:], p[:-1], name, dims))
        k.scale[:] = p[-1]
        return k
    raise KeyError(kind)


def kernel_param_objects(kind, k):
    if kind in ('rbf', 'matern32'):
        return [k.inv_lengthscale]
    if kind == 'std_periodic':
        return [k.inv_lengthscale, k.period]
    if kind == 'id':
        return []
    return kernel_param_objects(kind[7:], k.k) + [k.scale]


def entries(spec):
    """Flat list of (group, kind, rank, dims, idx)."""
    P = spec.get('P', 1)
    full = tuple(range(P))
    out = []
    for kind, rank, dims in spec.get('lmc') or []:
        out.append(('lmc', kind, rank, full if dims is None else tuple(sorted(dims)), None))
    for kind, dims in spec.get('slfm') or []:
        out.append(('slfm', kind, 1, full if dims is None else tuple(sorted(dims)), None))
    idx = spec.get('idx')
    for i, (kind, dims) in enumerate(spec.get('indep') or []):
        out.append(('indep', kind, 1, full if dims is None else tuple(sorted(dims)), i if idx is None else idx[i]))
    return out


def values(spec):
    """Parameter values: list of dict(kind,p,dims,A,kappa), noise."""
    D = spec['D']
    par = spec.get('par', 0)
    ks = []
    for q, (grp, kind, rank, dims, idx) in enumerate(entries(spec)):
        if grp == 'indep':
            A = np.zeros((1, D))
            kappa = np.zeros(D)
            kappa[idx] = 1.0
        else:
            A = wave(rank * D, 1.7 + 0.3 * par, 0.5 + q).reshape(rank, D)
            if par == 2:
                A = A * 0.5
                A[0, q % D] = 0.0
            kappa = 0.6 + 0.3 * np.arange(D) + 0.1 * q if grp == 'lmc' else np.zeros(D)
            A = A * spec.get('scale', 1.0)
            kappa = kappa * spec.get('scale', 1.0) ** 2
        p = kernel_params(kind, q, par)
        xf = spec.get('xf', 1.0)
        if p:                            # inputs in other units, other lengthscales
            u = kind.replace('scaled:', '')
            p[0] *= spec.get('lsf', 1.0) * {'rbf': xf ** -2, 'matern32': 1 / xf, 'std_periodic': 1.0}.get(u, 1.0)
            if u == 'std_periodic':
                p[1] *= xf
        ks.append(dict(kind=kind, p=p, dims=dims, A=A, kappa=kappa))
    noise = 0.9 + 0.25 * np.arange(D) + 0.15 * par
    if par == 2:
        noise = noise[::-1].copy()
    if par == 3:                     # almost noiseless outputs
        noise = np.array([3e-4, 0.4, 1e-4])[:D]
    return ks, noise * spec.get('noisef', 1.0) * spec.get('scale', 1.0) ** 2


# Unusual but legitimate settings: units of outputs and inputs, smoothness, noise, equal names.
EXTREMES = [dict(scale=1e-4), dict(scale=0.03), dict(scale=1e3), dict(yf=1e4), dict(xf=1e3), dict(xf=1e-4), dict(lsf=1e-4), dict(lsf=1e4),
            dict(noisef=1e4), dict(same=True), dict(scale=30.0, xf=0.01, noisef=3.0)]


def data(spec):
    """Deterministic ragged data; kind 'grid' puts all inputs on grid points."""
    D, P, lens = spec['D'], spec.get('P', 1), spec['lens']
    kind = spec.get('data', 'gen')
    Xs, Ys = [], []
    t = 0
    if kind == 'grid':
        lo, hi, m = grid_args(spec)
        box = np.array([lo, hi], float)
        axes = autogrid([box], np.array(lo, float), np.array(hi, float), np.array(m))
        inner = [[g for g in ax if l <= g <= h] for ax, l, h in zip(axes, lo, hi)]
    for n in lens:
        rows = []
        for _ in range(n):
            t += 1
            if kind == 'grid':
                rows.append([inner[d][int(len(inner[d]) * ((t * (0.6180339887 + 0.1331 * d) + 0.17 * d) % 1.0))]
                             for d in range(P)])
            else:
                rows.append([3.0 * ((t * (0.6180339887 + 0.1331 * d) + 0.17 * d) % 1.0) for d in range(P)])
        X = np.array(rows, float).reshape(n, P)
        if kind == 'dup' and n > 1:
            X[-1] = X[0]
        if kind == 'shift':
            X = X - 40.0
        if kind == 'sorted' and n:
            X = X[np.argsort(X[:, 0])]
        Xs.append(X if kind == 'grid' else X * spec.get('xf', 1.0))
        y = np.cos(2.3 * np.arange(n) + 0.9 * len(Ys)) + 0.4 * len(Ys)
        Ys.append(y * spec.get('scale', 1.0) * spec.get('yf', 1.0))
    return Xs, Ys


def grid_args(spec):
    P = spec.get('P', 1)
    m = spec.get('m', 6)
    ms = list(m) if isinstance(m, (list, tuple)) else [m] * P
    sh = -40.0 if spec.get('data') == 'shift' else 0.0
    f = spec.get('xf', 1.0)
    return [f * (sh - 0.1)] * P, [f * (sh + 3.1 + 0.2 * d) for d in range(P)], ms


def make_fk(spec, ks=None, noise=None, default_groups=False):
    """The real FunctionalKernel with the oracle's values installed."""
    ent = entries(spec)
    if ks is None:
        ks, noise = values(spec)
    P = spec.get('P', 1)
    kern = []
    for q, (e, k) in enumerate(zip(ent, ks)):
        raw = (spec.get('lmc') or []) + (spec.get('slfm') or []) + (spec.get('indep') or [])
        dims = raw[q][-1]
        kern.append(make_kernel(k['kind'], k['p'], 'k' if spec.get('same') else 'k%d' % q, dims))
    nl, ns = len(spec.get('lmc') or []), len(spec.get('slfm') or [])
    kw = dict(D=spec['D'])
    lm, sl, ind = kern[:nl], kern[nl:nl + ns], kern[nl + ns:]
    if lm or not spec.get('omit'):
        kw['lmc_kernels'] = lm
        kw['lmc_ranks'] = [r for _, r, _ in spec.get('lmc') or []]
    if sl or not spec.get('omit'):
        kw['slfm_kernels'] = sl
    if ind or not spec.get('omit'):
        kw['indep_gp'] = ind
    if spec.get('idx') is not None:
        kw['indep_gp_index'] = list(spec['idx'])
    fk = FunctionalKernel(**kw)
    # structurally fixed entries (SLFM diagonals, independent kernels) are left as constructed
    fk.coreg_vecs = [k['A'] if e[0] != 'indep' else np.array(v) for e, k, v in zip(ent, ks, fk.coreg_vecs)]
    fk.coreg_diags = [k['kappa'] if e[0] == 'lmc' else np.array(v) for e, k, v in zip(ent, ks, fk.coreg_diags)]
    fk.noise = noise
    return fk, kern, ks, noise


def make_model(spec, fk=None, Xs=None, Ys=None, **kw):
    if fk is None:
        fk, kern, ks, noise = make_fk(spec)
    if Xs is None:
        Xs, Ys = data(spec)
    lo, hi, m = grid_args(spec)
    if spec.get('P', 1) == 1 and spec.get('scalar'):
        lo, hi, m = lo[0], hi[0], m[0]
    args = dict(normalize=False, lo=lo, hi=hi, m=m, max_procs=1, trace_iterations=spec.get('it', 1),
                tolerance=spec.get('tol', 1e-10))
    args.update(kw)
    return InterpolatedLLGP(Xs, Ys, functional_kernel=fk, **args)


def axes_of(model, spec, Xs):
    """Grid axes per active dimension set."""
    ax = getattr(model, 'grid_axes', None)
    if isinstance(ax, dict):
        return {tuple(k): [np.array(g) for g in v] for k, v in ax.items()}
    lo, hi, m = grid_args(spec)
    out = {}
    for e in entries(spec):
        d = list(e[3])
        out[e[3]] = autogrid([X[:, d] for X in Xs], np.array(lo)[d], np.array(hi)[d], np.array(m)[d])
    return out


def make_oracle(ks, noise):
    return oracle.LMC([dict(k) for k in ks], np.array(noise, float))


# ------------------------------------------------------------- kernel mixes
def mixes(D, P, kinds=('rbf',), ranks=(1,), max_lmc=2, max_slfm=2, max_indep=2, dims=(None,), total=4):
    """Every kernel mix within the bounds, simplest first."""
    import itertools

    def seqs(opts, n):
        return itertools.combinations_with_replacement(opts, n)
    lm_opts = [[k, r, d] for k in kinds for r in ranks for d in dims]
    opts = [[k, d] for k in kinds for d in dims]
    for nl in range(max_lmc + 1):
        for ns in range(max_slfm + 1):
            for ni in range(max_indep + 1):
                if not 0 < nl + ns + ni <= total:
                    continue
                for lm in seqs(lm_opts, nl):
                    for sl in seqs(opts, ns):
                        for ind in seqs(opts, ni):
                            idxs = [None] if ni <= D else []
                            idxs += [list(t) for t in itertools.product(range(D), repeat=ni)
                                     if list(t) != list(range(ni))] if ni else []
                            for idx in idxs:
                                yield dict(D=D, P=P, lmc=[list(v) for v in lm], slfm=[list(v) for v in sl],
                                           indep=[list(v) for v in ind], idx=idx)
