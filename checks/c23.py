"""C23: runs are reproducible from NumPy's seed; queries draw nothing."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from mc import models
from runlmc.lmc.functional_kernel import FunctionalKernel
from runlmc.models.gpy_lmc import GPyLMC
from runlmc.models.interpolated_llgp import InterpolatedLLGP
from runlmc.models.optimization import AdaDelta

ID = 'C23'
MUT = ('noise', 'ls', 'same', 'opt', 'batch')
QRY = ('exact', 'fly', 'pre', 'quant', 'lik', 'K', 'grad', 'text', 'obj')
BOUNDS = ('every history of length <= 3 over %d mutators %s and %d queries %s (quick: all of length 2 for two mixes and half of them for the others, and a fixed part of those of length 3 of the forms mutate,query,mutate and query,mutate,mutate), with and '
          'without metrics and normalisation, for 5 kernel mixes: run twice from the same seed, and once more without the queries; every '
          'generator state around every query; 2 seeds; 12 evaluations of one setting for fresh probes; initial values for every mix of '
          '<= 4 kernels and 1..3 outputs; a complete run in fresh interpreters under 3 hash seeds' % (len(MUT), MUT, len(QRY), QRY))
ASSUMPTIONS = ['the generator is NumPy\'s global one, seeded with numpy.random.seed before the model is described',
               'runs compared to 1e-9; one probe per evaluation unless stated']
MIXES = [
    dict(D=2, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None),
    dict(D=2, P=1, lmc=[['matern32', 2, None]], slfm=[['rbf', None]], indep=[['rbf', None]], idx=[1]),
    dict(D=3, P=1, lmc=[], slfm=[['rbf', None], ['matern32', None]], indep=[], idx=None),
    dict(D=2, P=2, lmc=[['rbf', 1, [0]]], slfm=[['rbf', [1]]], indep=[], idx=None),
    dict(D=1, P=1, lmc=[], slfm=[], indep=[['matern32', None]], idx=None),
]


def full(mix):
    D = mix['D']
    return dict(mix, lens=[3, 2, 4][:D] if D > 1 else [6], m=[4, 4] if mix['P'] == 2 else 4, data='gen')


def fresh_fk(spec):
    """The functional kernel as a user writes it: random initial vectors."""
    kern = []
    vals, _ = models.values(spec)
    raw = spec['lmc'] + spec['slfm'] + spec['indep']
    for q, k in enumerate(vals):
        kern.append(models.make_kernel(k['kind'], k['p'], 'k%d' % q, raw[q][-1]))
    nl, ns = len(spec['lmc']), len(spec['slfm'])
    kw = dict(D=spec['D'])
    if nl:
        kw.update(lmc_kernels=kern[:nl], lmc_ranks=[e[1] for e in spec['lmc']])
    if ns:
        kw.update(slfm_kernels=kern[nl:nl + ns])
    if kern[nl + ns:]:
        kw.update(indep_gp=kern[nl + ns:])
    if spec.get('idx') is not None:
        kw.update(indep_gp_index=list(spec['idx']))
    return FunctionalKernel(**kw), kern


class Run:
    def __init__(self, spec, seed, metrics, normalize):
        np.random.seed(seed)
        self.spec = spec
        self.fk, self.kern = fresh_fk(spec)
        self.Xs, self.Ys = models.data(spec)
        self.model = models.make_model(spec, fk=self.fk, Xs=self.Xs, Ys=self.Ys, metrics=metrics, normalize=normalize)
        self.split = len({e[3] for e in models.entries(spec)}) > 1
        self.n = 0

    def snap(self):
        m = self.model
        return np.concatenate([np.ravel(np.array(m.param_array)), np.ravel(np.array(m.gradient))])

    def mutate(self, op):
        self.n += 1
        fk, f = self.fk, [1.3, 0.8, 1.6][self.n % 3]
        if op == 'noise':
            fk.noise = np.array(fk.noise) * f
        elif op == 'ls':
            k = self.kern[0]
            k.inv_lengthscale = float(np.asarray(k.inv_lengthscale)[0]) * f
        elif op == 'same':
            self.model[:] = np.array(self.model.param_array)
        elif op == 'opt':
            self.model.optimize(optimizer=AdaDelta(max_it=2, step_rate=0.5))
        elif op == 'batch':
            self.model.update_model(False)
            fk.noise = np.array(fk.noise) * f
            k = self.kern[-1]
            k.inv_lengthscale = float(np.asarray(k.inv_lengthscale)[0]) / f
            self.model.update_model(True)

    def query(self, op):
        m = self.model
        Zs = [X[:2] * 0.9 + 0.05 for X in self.Xs]
        if op in ('exact', 'fly', 'pre'):
            m.prediction = dict(exact='exact', fly='on-the-fly', pre='precompute')[op]
            if op == 'pre' and self.split:
                return None
            mu, var = m.predict(Zs)
            return np.concatenate(list(mu) + list(var))
        if op == 'quant':
            m.prediction = 'exact'
            return np.concatenate([q.ravel() for q in m.predict_quantiles(Zs)])
        if op == 'lik':
            return np.array([m.log_likelihood(), m.log_det_K(), m.normal_quadratic()])
        if op == 'K':
            return np.concatenate([m.K().ravel(), m.kernel.K.as_numpy().ravel()])
        if op == 'grad':
            return np.array(m.gradient)
        if op == 'obj':
            return np.concatenate([[m.objective_function()], m.objective_function_gradients()])
        str(m), repr(m.kernel.K)
        return None

    def play(self, ops, x=None):
        """Snapshots after construction and every mutator, answers of every query, next draw."""
        snaps, answers = [self.snap()], []
        for op in ops:
            if x:
                x.op()
            if op in MUT:
                self.mutate(op)
                snaps.append(self.snap())
            else:
                before = np.random.get_state()
                answers.append((op, self.query(op)))
                after = np.random.get_state()
                if x:
                    x.check(before[0] == after[0] and np.array_equal(before[1], after[1]) and before[2:] == after[2:],
                            'query %r advanced the random generator' % op)
        return snaps, answers, np.random.rand(3)


def history(case, x):
    spec = full(MIXES[case['mix']])
    args = spec, case['seed'], case['metrics'], case['norm']
    a = Run(*args).play(case['ops'], x)
    b = Run(*args).play(case['ops'])
    c = Run(*args).play([o for o in case['ops'] if o in MUT])
    what = 'seed %d, history %s' % (case['seed'], case['ops'])
    for other, name in ((b, 'the same run again'), (c, 'the run without its queries')):
        for i, (s, t) in enumerate(zip(a[0], other[0])):
            x.close('%s: parameters and gradient after %d changes, %s' % (what, i, name), s, t, 1e-9, 1e-9)
        x.close('%s: next draw, %s' % (what, name), a[2], other[2], 0, 0)
    for (op, s), (_, t) in zip(a[1], b[1]):
        if s is not None:
            x.close('%s: %s again' % (what, op), s, t, 1e-9, 1e-9)
    x.state(case)
    x.outcome(a[0][-1])


def probes(case, x):
    """Every evaluation draws its own probes."""
    spec = full(MIXES[case['mix']])
    r = Run(spec, case['seed'], case['metrics'], False)
    grads = [np.array(r.model.gradient)]
    for _ in range(11):
        r.model[:] = np.array(r.model.param_array)
        grads.append(np.array(r.model.gradient))
        x.op()
    d = {tuple(np.round(g, 9)) for g in grads}
    x.check(len(d) > 2, '12 evaluations of one setting gave %d distinct stochastic gradients' % len(d))
    # two models described one after the other start differently
    if spec['lmc'] or spec['slfm']:
        np.random.seed(case['seed'])
        a, b = fresh_fk(spec)[0], fresh_fk(spec)[0]
        np.random.seed(case['seed'] + 1)
        c = fresh_fk(spec)[0]
        for q, e in enumerate(models.entries(spec)):
            if e[0] != 'indep':
                x.check(not np.allclose(a.coreg_vecs[q], c.coreg_vecs[q]), 'another seed gives the same initial vectors')
                x.check(not np.allclose(a.coreg_vecs[q], b.coreg_vecs[q]), 'two kernels start from equal coregionalization vectors')
    x.state(case)


def initial(case, x):
    spec = case['init']
    np.random.seed(case['seed'])
    fk, kern = fresh_fk(spec)
    np.random.seed(case['seed'])
    again, _ = fresh_fk(spec)
    x.op(2)
    vals, _ = models.values(spec)
    seen = []
    for q, (e, v) in enumerate(zip(models.entries(spec), vals)):
        A, kap = np.array(fk.coreg_vecs[q]), np.array(fk.coreg_diags[q])
        x.close('initial vectors %d again' % q, again.coreg_vecs[q], A, 0, 0)
        x.check(A.shape == (e[2], spec['D']), 'vectors of kernel %d have shape %s' % (q, A.shape))
        if e[0] == 'indep':
            x.check(not A.any(), 'independent kernel %d has vectors' % q)
            x.close('diagonal of independent kernel %d' % q, kap, np.eye(spec['D'])[e[4]], 0, 0)
        else:
            x.check(np.all(np.abs(A) <= 1) and np.all(A != 0), 'initial vectors of kernel %d outside (-1, 1): %s' % (q, A))
            x.close('diagonal of kernel %d' % q, kap, np.full(spec['D'], 1.0 if e[0] == 'lmc' else 0.0), 0, 0)
            seen += list(A.ravel())
        got = [float(np.asarray(o)[0]) for o in models.kernel_param_objects(v['kind'], kern[q])]
        x.close('parameters of kernel %d' % q, got, v['p'], 1e-14, 0)
    x.check(len(set(seen)) == len(seen), 'initial coregionalization entries repeat')
    x.close('initial noise', fk.noise, np.full(spec['D'], 0.1), 1e-12, 0)
    x.state(case)


def gpy(case, x):
    """The GPy-backed model takes its start from the same generator."""
    spec = full(MIXES[0])
    Xs, Ys = models.data(spec)
    out = []
    for _ in range(2):
        np.random.seed(case['seed'])
        m = GPyLMC(Xs, Ys, [models.make_kernel('rbf', [0.9], 'k', None)], [case['rank']])
        x.op()
        out.append(np.concatenate([np.array(m.gpy_model.param_array), [m.log_likelihood()]] + [np.ravel(v) for p in m.predict(Xs) for v in p]))
        state = np.random.get_state()
        m.predict(Xs), m.predict_quantiles(Xs), m.log_likelihood()
        x.check(np.array_equal(state[1], np.random.get_state()[1]) and state[2] == np.random.get_state()[2], 'a query advanced the generator')
    x.close('GPy-backed model again', out[0], out[1], 1e-9, 1e-9)
    x.state(case)


def total(mix, seed):
    r = Run(full(MIXES[mix]), seed, False, True)
    s, a, nxt = r.play(['opt', 'fly', 'ls', 'exact', 'opt', 'quant', 'lik'])
    return [list(map(float, v)) for v in s] + [list(map(float, np.ravel(v))) for _, v in a] + [list(map(float, nxt))]


def hashes(case, x):
    here = total(case['mix'], case['seed'])
    code = ('import sys, json, warnings; warnings.simplefilter("ignore"); sys.path[:0] = %r\n'
            'import numpy as np; np.seterr(all="ignore")\n'
            'from checks import c23\n'
            'print("RESULT", json.dumps(c23.total(%d, %d)))\n' % (sys.path[:2], case['mix'], case['seed']))
    env = dict(os.environ, PYTHONHASHSEED=str(case['hash']))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, timeout=200)
    lines = [l for l in p.stdout.splitlines() if l.startswith('RESULT ')]
    x.check(lines, 'no result under hash seed %d: %s' % (case['hash'], p.stderr[-300:]))
    there = json.loads(lines[0][7:])
    for i, (a, b) in enumerate(zip(here, there)):
        x.close('item %d of the run in a process with hash seed %d' % (i, case['hash']), b, a, 1e-9, 1e-9)
    x.op(len(here))
    x.state(case)


def run(case, x):
    if 'init' in case:
        return initial(case, x)
    if 'rank' in case:
        return gpy(case, x)
    if 'hash' in case:
        return hashes(case, x)
    if 'ops' in case:
        return history(case, x)
    probes(case, x)


def cases(tier, engine):
    th = tier == 'thorough'
    for mix, h in itertools.product(range(4 if not th else len(MIXES)), (1, 2, 77)):
        if th or mix in (1, 3):
            yield dict(mix=mix, seed=5, hash=h)
    for mix in range(len(MIXES)):
        for seed in (0, 7) if not th else range(12):
            for met in (False, True):
                yield dict(mix=mix, seed=seed, metrics=met)
    for D in (1, 2, 3):
        for i, sp in enumerate(models.mixes(D, 1, ranks=(1, 2), total=4 if th else 3)):
            yield dict(init=sp, seed=i % 5)
    for D, rank in itertools.product((1, 2, 3, 6), (3, 4, 7)):
        for q in (1, 2):
            yield dict(init=dict(D=D, P=1, lmc=[['rbf', rank, None], ['matern32', rank - 1, None]][:q], slfm=[['rbf', None]] * (q - 1), indep=[], idx=None), seed=rank)
    for rank in (1, 2, 3):
        for seed in (0, 3):
            yield dict(rank=rank, seed=seed)
    ops = MUT + QRY
    for mix in range(len(MIXES)):
        hs = [[]] + [[a] for a in ops] + [[a, b] for a in ops for b in ops]
        hs += [[a, q, b] for a in MUT for q in QRY for b in MUT] if not th else [list(h) for h in itertools.product(ops, repeat=3)]
        if not th:
            hs += [[q, a, b] for q in QRY for a in ('opt', 'ls') for b in MUT]
        for i, h in enumerate(hs):
            if not th and (len(h) > 2 and i % (2 if mix in (1, 3) else 7) or len(h) == 2 and mix not in (1, 3) and i % 2):
                continue
            met, norm = [(False, False), (True, False), (False, True), (True, True)][i % 4]
            yield dict(mix=mix, seed=i % 2 + 1, ops=h, metrics=met, norm=norm)
