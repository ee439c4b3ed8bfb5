"""Dense oracle for predictions in every mode."""
import numpy as np

from mc import oracle


def posterior(orc, axes, Xs, y, Zs, mode):
    """(mean list, variance list) that the model must return (no normalisation)."""
    lens = [len(Z) for Z in Zs]
    Ks = orc.K_ski(Xs, axes)
    Kx = orc.K_exact(Xs)
    n = sum(lens)
    if n:
        mean = orc.ski(Zs, axes, Xs).dot(np.linalg.solve(Ks, y))
        native = np.repeat(orc.native(), lens)
        C = orc.cross(Zs, Xs)
        if mode == 'exact':
            expl = np.einsum('ij,ji->i', C, np.linalg.solve(Kx, C.T))
        elif mode == 'on-the-fly':
            expl = np.einsum('ij,ji->i', C, np.linalg.solve(Ks, C.T))
        elif mode == 'precompute':
            (dims, grids), = axes.items()
            U = oracle.grid_points(grids)
            P = max(Xs[0].shape[1], max(dims) + 1)
            full = np.zeros((len(U), P))
            full[:, list(dims)] = U
            CU = orc.ski([full] * orc.D, axes, Xs)
            nu = np.einsum('ij,ji->i', CU, np.linalg.solve(Ks, CU.T))
            expl = orc._W(Zs, grids, dims).dot(nu)
        var = np.maximum(native - expl, 0)
    else:
        mean = var = np.zeros(0)
    cut = np.cumsum(lens)[:-1]
    return np.split(mean, cut), np.split(var, cut)


def test_inputs(spec, Xs, axes, kind, lens):
    """Deterministic ragged test inputs."""
    P = spec.get('P', 1)
    out = []
    t = 0
    for i, n in enumerate(lens):
        rows = []
        for _ in range(n):
            t += 1
            if kind == 'train':
                src = Xs[t % len(Xs)]
                rows.append(src[t % len(src)])
            elif kind == 'far':
                lo = np.vstack(Xs).min(axis=0)
                hi = np.vstack(Xs).max(axis=0)
                f = spec.get('xf', 1.0)
                rows.append(lo - f * (0.8 + 2.1 * t) if t % 2 else hi + f * 0.9 * t)
            else:
                sh = -40.0 if spec.get('data') == 'shift' else 0.0
                rows.append([spec.get('xf', 1.0) * (sh + 3.0 * ((t * (0.7548776662 + 0.081 * d) + 0.29 * d) % 1.0))
                             for d in range(P)])
        out.append(np.array(rows, float).reshape(n, P))
    return out


def check_prediction(x, what, got, want, lens, rtol=1e-6, atol=1e-6, unit=1.0):
    mu, var = got
    x.check(len(mu) == len(lens) and len(var) == len(lens), '%s: %d/%d outputs' % (what, len(mu), len(var)))
    for i, n in enumerate(lens):
        x.check(np.shape(mu[i]) == (n,) and np.shape(var[i]) == (n,),
                '%s: output %d shapes %s %s, expected (%d,)' % (what, i, np.shape(mu[i]), np.shape(var[i]), n))
    x.close(what + ': mean', np.concatenate(mu), np.concatenate(want[0]), rtol, atol * unit)
    x.close(what + ': variance', np.concatenate(var), np.concatenate(want[1]), rtol, atol * unit ** 2)
    if sum(lens):
        x.check(np.concatenate(var).min() >= 0, what + ': negative variance')
