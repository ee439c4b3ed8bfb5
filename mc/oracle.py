"""
Reference model: the LMC Gaussian process written densely and naively with
numpy only.  It shares no code with runlmc.  Functions accept complex numbers
so that derivatives can be taken by complex step (exact to rounding).
"""
import numpy as np

ABS2 = np.sqrt


# ---------------------------------------------------------------- kernels
def kfun(kind, p, r):
    """Kernel value at distances r for parameters p (list)."""
    r = np.asarray(r, dtype=float)
    if kind == 'rbf':
        return np.exp(-0.5 * p[0] * r * r)
    if kind == 'matern32':
        s = np.sqrt(3.0) * p[0] * r
        return (1 + s) * np.exp(-s)
    if kind == 'std_periodic':
        return np.exp(-0.5 * p[0] * np.sin(np.pi * r / p[1]) ** 2)
    if kind == 'id':
        return np.where(r == 0, 1.0, 0.0)
    if kind.startswith('scaled:'):
        return p[-1] * kfun(kind[7:], p[:-1], r)
    raise KeyError(kind)


NPAR = {'rbf': 1, 'matern32': 1, 'std_periodic': 2, 'id': 0}


def npar(kind):
    if kind.startswith('scaled:'):
        return npar(kind[7:]) + 1
    return NPAR[kind]


def as2d(X):
    X = np.asarray(X, float)
    return X if X.ndim == 2 else X.reshape(-1, 1)


def pdist(X, Z, dims):
    """Euclidean distances over the given dimensions, by definition."""
    X = np.asarray(X, float)[:, list(dims)]
    Z = np.asarray(Z, float)[:, list(dims)]
    d = np.zeros((len(X), len(Z)))
    for k in range(X.shape[1]):
        d += (X[:, k][:, None] - Z[:, k][None, :]) ** 2
    return np.sqrt(d)


# ---------------------------------------------------------------- interpolation
def keys(x):
    x = abs(x)
    if x <= 1:
        return 1.5 * x ** 3 - 2.5 * x ** 2 + 1
    if x <= 2:
        return -0.5 * x ** 3 + 2.5 * x ** 2 - 4 * x + 2
    return 0.0


def weights1(grid, s):
    """One row of cubic-convolution weights with clamped borders."""
    g = np.asarray(grid, float)
    m = len(g)
    w = np.zeros(m)
    h = g[1] - g[0]
    t = (float(s) - g[0]) / h
    j = int(np.floor(t))
    for k in range(j - 1, j + 3):
        w[min(max(k, 0), m - 1)] += keys(t - k)
    return w


def weights(grids, X):
    """n x prod(m) weights, first dimension slowest."""
    X = np.asarray(X, float)
    if X.ndim == 1:
        X = X.reshape(-1, 1)
    rows = []
    for x in X:
        w = np.ones(1)
        for g, s in zip(grids, x):
            w = np.outer(w, weights1(g, s)).ravel()
        rows.append(w)
    m = int(np.prod([len(g) for g in grids]))
    return np.array(rows).reshape(len(X), m)


def block_diag(mats, ncols):
    n = sum(len(M) for M in mats)
    out = np.zeros((n, ncols * len(mats)))
    r = 0
    for i, M in enumerate(mats):
        out[r:r + len(M), i * ncols:(i + 1) * ncols] = M
        r += len(M)
    return out


def grid_points(grids):
    pts = [[]]
    for g in grids:
        pts = [p + [float(v)] for p in pts for v in g]
    return np.array(pts)


# ---------------------------------------------------------------- LMC model
class LMC:
    """
    kernels: list of dict(kind, p=[...], dims=(..), A=(r x D), kappa=(D,))
    noise:   (D,)
    """

    def __init__(self, kernels, noise):
        self.kernels = kernels
        self.noise = noise
        self.D = len(noise)

    def B(self, q):
        k = self.kernels[q]
        A = k['A']
        D = self.D
        B = np.zeros((D, D), dtype=np.result_type(A, k['kappa'], float))
        for a in range(D):
            for b in range(D):
                for row in A:
                    B[a, b] = B[a, b] + row[a] * row[b]
        for a in range(D):
            B[a, a] = B[a, a] + k['kappa'][a]
        return B

    def cross(self, Xs, Zs):
        """Noise-free covariance between ragged lists."""
        la = [len(X) for X in Xs]
        lb = [len(Z) for Z in Zs]
        oa = np.repeat(np.arange(len(Xs)), la)
        ob = np.repeat(np.arange(len(Zs)), lb)
        X = np.concatenate([as2d(X) for X in Xs if len(X)]) if sum(la) else None
        Z = np.concatenate([as2d(Z) for Z in Zs if len(Z)]) if sum(lb) else None
        K = np.zeros((sum(la), sum(lb)))
        if X is None or Z is None:
            return K
        for q, k in enumerate(self.kernels):
            K = K + self.B(q)[oa][:, ob] * kfun(k['kind'], k['p'], pdist(X, Z, k['dims']))
        return K

    def noise_diag(self, lens):
        return np.diag(np.repeat(np.asarray(self.noise), lens))

    def K_exact(self, Xs):
        return self.cross(Xs, Xs) + self.noise_diag([len(X) for X in Xs])

    def _W(self, Xs, grids, dims):
        m = int(np.prod([len(g) for g in grids]))
        return block_diag([weights(grids, as2d(X)[:, list(dims)])
                           for X in Xs], m)

    def ski(self, Xs, axes, Zs=None):
        """Interpolated covariance (noise-free) between Xs and Zs."""
        K = 0
        cache = {}
        for q, k in enumerate(self.kernels):
            dims = tuple(k['dims'])
            if dims not in cache:
                grids = axes[dims]
                U = grid_points(grids)
                R = pdist(U, U, range(U.shape[1]))
                cache[dims] = (self._W(Xs, grids, dims),
                               self._W(Zs if Zs is not None else Xs, grids, dims), R)
            W, V, R = cache[dims]
            KU = kfun(k['kind'], k['p'], R)
            m = len(KU)
            B = self.B(q)
            D = self.D
            G = np.zeros((D * m, D * m), dtype=np.result_type(B, KU))
            for a in range(D):
                for b in range(D):
                    G[a * m:(a + 1) * m, b * m:(b + 1) * m] = B[a, b] * KU
            K = K + W.dot(G).dot(V.T)
        return K

    def K_ski(self, Xs, axes):
        return self.ski(Xs, axes) + self.noise_diag([len(X) for X in Xs])

    def native(self):
        """Prior variance of an observation, per output (with noise)."""
        v = np.array(self.noise, dtype=float)
        for q, k in enumerate(self.kernels):
            v = v + np.diag(self.B(q)).real * float(np.real(kfun(k['kind'], k['p'], 0.0)))
        return v

    # parameters, in a canonical order: (label, getter/setter index)
    def params(self):
        out = []
        for q, k in enumerate(self.kernels):
            A = k['A']
            for i in range(A.shape[0]):
                for j in range(A.shape[1]):
                    out.append(('A', q, i, j))
            for j in range(self.D):
                out.append(('kappa', q, j))
            for j in range(npar(k['kind'])):
                out.append(('k', q, j))
        for j in range(self.D):
            out.append(('noise', j))
        return out

    def bumped(self, which, h):
        ks = [dict(k, A=np.array(k['A'], dtype=type(h)), kappa=np.array(k['kappa'], dtype=type(h)),
                   p=[type(h)(v) for v in k['p']]) for k in self.kernels]
        noise = np.array(self.noise, dtype=type(h))
        if which[0] == 'A':
            ks[which[1]]['A'][which[2], which[3]] += h
        elif which[0] == 'kappa':
            ks[which[1]]['kappa'][which[2]] += h
        elif which[0] == 'k':
            ks[which[1]]['p'][which[2]] += h
        else:
            noise[which[1]] += h
        return LMC(ks, noise)

    def dK(self, which, build, h=1e-20):
        """Complex-step derivative of build(model) wrt one parameter."""
        return np.imag(build(self.bumped(which, complex(0, h)))) / h


def loglik(K, y):
    s, ld = np.linalg.slogdet(K)
    assert s > 0
    return -0.5 * (ld + y.dot(np.linalg.solve(K, y)) + len(y) * np.log(2 * np.pi))


def dloglik(K, y, dK):
    a = np.linalg.solve(K, y)
    return 0.5 * (a.dot(dK).dot(a) - np.trace(np.linalg.solve(K, dK)))
