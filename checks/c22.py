"""C22: mean functions return their value and derivative per output."""
import itertools

import numpy as np

from runlmc.mean.constant import Constant
from runlmc.mean.zero import Zero
from runlmc.parameterization.model import Model

ID = 'C22'
BOUNDS = ('zero and constant means for 1..4 outputs, every ragged list with 0..3 inputs per output (0..2 for 4 outputs; some lists for 5, 7 and 12), inputs of float, '
          'integer and strided layout; every history of length <= 3 over {set offsets, set one offset, evaluate, derivative, store gradient} on '
          'each; every wrong number of inputs 0..5, every misshapen input position, every wrong shape of initial constants; inside a model, '
          'gradients and constraints reach the matching offsets')
ASSUMPTIONS = ['one-dimensional inputs, as the class documents; derivatives exact']


def xs_of(lens, kind):
    out = []
    for d, n in enumerate(lens):
        v = np.array([.7 * d + 1.3 * i - 1 for i in range(2 * n)])
        out.append(v[:n].astype(int) if kind == 'int' else v[::2] if kind == 'stride' else v[:n])
    return out


def check_f(x, mean, c, lens, what, kind='c'):
    Xs = xs_of(lens, kind)
    keep = [X.copy() for X in Xs]
    x.op()
    f = mean.f(Xs)
    x.check(len(f) == len(lens), what + ': one vector per output')
    for d, n in enumerate(lens):
        x.check(np.shape(f[d]) == (n,), lambda: '%s: output %d has shape %s for %d inputs' % (what, d, np.shape(f[d]), n))
        x.check(np.array_equal(f[d], np.full(n, c[d])), lambda: '%s: output %d is %s, expected %r' % (what, d, f[d], c[d]))
    x.check(all(np.array_equal(a, b) for a, b in zip(Xs, keep)), what + ': inputs changed')
    # results belong to the caller
    if any(lens):
        d = [i for i, n in enumerate(lens) if n][0]
        f[d][:] = 99.
        g = mean.f(Xs)
        x.check(np.array_equal(g[d], np.full(lens[d], c[d])), what + ': writing to a result changes the mean')


def check_g(x, mean, D, lens, what, const):
    Xs = xs_of(lens, 'c')
    x.op()
    g = mean.mean_gradient(Xs)
    if not const:
        x.check(len(g) == 0, what + ': the zero mean has no parameters')
        return
    x.check(len(g) == D, what + ': one derivative per parameter')
    for j in range(D):
        x.check(len(g[j]) == D, what + ': one vector per output')
        for d in range(D):
            x.check(np.shape(g[j][d]) == (lens[d],) and np.array_equal(g[j][d], np.full(lens[d], float(j == d))),
                    lambda: '%s: derivative of output %d by offset %d is %s' % (what, d, j, g[j][d]))


def values(case, x):
    D, lens = case['D'], case['lens']
    for kind in ('c', 'int', 'stride'):
        check_f(x, Zero(1, D), [0.] * D, lens, 'zero', kind)
        check_f(x, Constant(1, D), [0.] * D, lens, 'default constant', kind)
        c0 = np.array(([1.5, -2., 0., 3e8] + [.1 * i for i in range(20)])[:D])
        keep = c0.copy()
        m = Constant(1, D, c0)
        check_f(x, m, keep, lens, 'constant', kind)
        m.c[:] = keep + 1
        x.check(np.array_equal(c0, keep), 'constant: initial offsets changed')
        check_f(x, m, keep + 1, lens, 'constant after change', kind)
    check_g(x, Zero(1, D), D, lens, 'zero', False)
    check_g(x, Constant(1, D, np.arange(D) - 1.), D, lens, 'constant', True)
    # derivative by finite difference, exact because the mean is linear
    m = Constant(1, D, np.zeros(D))
    Xs = xs_of(lens, 'c')
    g = m.mean_gradient(Xs)
    for j in range(D):
        m.c[j] = 1.
        f = m.f(Xs)
        m.c[j] = 0.
        for d in range(D):
            x.check(np.array_equal(f[d], g[j][d]), 'constant: derivative %d/%d is the change of the mean' % (d, j))
    x.state('values', D, lens)


def history(case, x):
    D = case['D']
    c = np.array(([.5, -1.25, 2.] * 9)[:D])
    m = Constant(1, D, c.copy())
    g = None
    lens = ([2, 0, 1] * 9)[:D]
    t = 0
    for i, op in enumerate(case['ops']):
        what = '>'.join(case['ops'][:i + 1])
        t += 1
        x.op()
        if op == 'set':
            c = c * 1.5 + t
            m.c[:] = c
        elif op == 'one':
            c = c.copy()
            c[D - 1] = -t
            m.c[D - 1] = -t
        elif op == 'eval':
            check_f(x, m, c, lens, what)
        elif op == 'deriv':
            check_g(x, m, D, lens, what, True)
        elif op == 'store':
            g = np.array(([3. + t, -1., .25] * 9)[:D])
            m.update_gradient(g)
        check_f(x, m, c, lens, what)
        x.check(np.array_equal(np.asarray(m.c), c) and np.array_equal(np.asarray(m.param_array), c), what + ': offsets')
        if g is not None:
            x.check(np.array_equal(np.asarray(m.c.gradient), g) and np.array_equal(np.asarray(m.gradient), g), what + ': stored gradient')
    x.state('history', D, case['ops'])


def bad(case, x):
    D = case['D']
    for cls in (Zero, Constant):
        m = cls(1, D)
        for n in range(6):
            if n != D:
                x.op()
                x.raises('%s: %d inputs for %d outputs' % (cls.__name__, n, D), ValueError, lambda: m.f([np.zeros(2)] * n))
        for d in range(D):
            for shape in ((2, 1), (1, 1), (0, 1), (2, 2), ()):
                Xs = [np.zeros(2)] * D
                Xs[d] = np.zeros(shape)
                x.op()
                x.raises('%s: input %d of shape %s' % (cls.__name__, d, shape), ValueError, lambda: m.f(Xs))
        check_f(x, m, [0.] * D, [1] * D, '%s still usable' % cls.__name__)
    for shape in [(n,) for n in range(6) if n != D] + [(D, 1), (1, D), ()]:
        x.op()
        x.raises('constant: initial offsets of shape %s for %d outputs' % (shape, D), ValueError, lambda: Constant(1, D, np.zeros(shape)))
    x.state('bad', D)


class Host(Model):
    """A least-squares model around a mean function: gradient flows through the mean's own derivative."""

    def __init__(self, mean, Xs, Ys):
        super().__init__('host')
        self.mean, self.Xs, self.Ys = mean, Xs, Ys
        self.link_parameter(mean)

    def log_likelihood(self):
        return -.5 * sum(((y - f) ** 2).sum() for y, f in zip(self.Ys, self.mean.f(self.Xs)))

    def parameters_changed(self):
        res = [y - f for y, f in zip(self.Ys, self.mean.f(self.Xs))]
        self.mean.update_gradient(np.array([sum(r.dot(g) for r, g in zip(res, gs)) for gs in self.mean.mean_gradient(self.Xs)]))


def hosted(case, x):
    D, lens = case['D'], case['lens']
    Xs = xs_of(lens, 'c')
    Ys = [np.cos(np.arange(n) + d) + d for d, n in enumerate(lens)]
    c = np.array([.3, -1., 2.][:D])
    h = Host(Constant(1, D, c.copy()), Xs, Ys)
    x.op(2)
    want = [(Y - v).sum() for Y, v in zip(Ys, c)]
    x.close('gradient in a model', np.array(h.gradient), want, 1e-12, 1e-12)
    h.mean.c[0:1].fix()
    np.random.seed(1)
    h.optimize(optimizer='lbfgs', max_iters=50)
    now = np.asarray(h.mean.c)
    x.check(now[0] == c[0], 'fixed offset unchanged')
    for d in range(1, D):
        if lens[d]:
            x.close('fitted offset %d' % d, now[d], Ys[d].mean(), 1e-4, 1e-4)
        else:
            x.check(now[d] == c[d], 'offset %d without inputs unchanged' % d)
    z = Zero(1, D)
    z.update_gradient(np.zeros(0))
    x.check(z.size == 0, 'the zero mean has no parameters')
    x.state('hosted', D, lens)


def run(case, x):
    dict(values=values, history=history, bad=bad, hosted=hosted)[case['kind']](case, x)


def cases(tier, engine):
    th = tier == 'thorough'
    for D in (1, 2, 3, 4):
        yield dict(kind='bad', D=D)
        for lens in itertools.product(range(5 if th else 4) if D < 4 else range(4 if th else 3), repeat=D):
            yield dict(kind='values', D=D, lens=list(lens))
    for D in (5, 7, 12):
        yield dict(kind='values', D=D, lens=[(5 * d + 1) % 4 for d in range(D)])
        yield dict(kind='values', D=D, lens=[70 if d == 3 else d % 2 for d in range(D)])
    for D in (4, 6, 7, 8, 13):
        for n in (1, 2):
            for ops in itertools.product(('set', 'one', 'deriv', 'store'), repeat=n):
                yield dict(kind='history', D=D, ops=list(ops))
    for D in (1, 2, 3):
        for n in range(5 if th else 4):
            for ops in itertools.product(('set', 'one', 'eval', 'deriv', 'store'), repeat=n):
                yield dict(kind='history', D=D, ops=list(ops))
        for lens in itertools.product(range(3), repeat=D):
            yield dict(kind='hosted', D=D, lens=list(lens))
