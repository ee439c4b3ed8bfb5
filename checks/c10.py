"""C10: process-level parallelism never changes results."""
import numpy as np

from mc import models
from mc.pool import Schedule, controlled, schedules
from mc.predict import test_inputs
from runlmc.util.inline_pool import InlinePool

ID = 'C10'
BOUNDS = ('the pool is replaced by forked workers under a controlled scheduler: every assignment of chunks to <= 3 workers (up to '
          'renaming workers) and every run/completion order, for 1..3 chunks (4 thorough), worker counts 1..3, two worker '
          'random states; for likelihood, gradient, and predictions in each mode of models above the parallel threshold '
          '(300 observations) and below it; the pool wrapper itself with 0..4 tasks and a failing task at each position; '
          'a mix with 17 probes and 45 (partly repeated) test inputs; plus runs on the real multiprocessing pool, which validate the controlled one')
ASSUMPTIONS = ['tasks of one pool call do not overlap in the controlled runs: workers share no memory, so only grouping, '
               'assignment and order can matter', 'compared to 1e-9']
CASE_LIMIT = 400


def tag(i, v):
    return (i, v * 2)


def fail_at(i, bad):
    if i == bad:
        raise KeyError(i)
    return i


def rnd(i):
    return i + 0 * np.random.rand()


def observe(model, spec, Xs, axes, modes):
    out = dict(grad=np.array(model.gradient), lik=model.log_likelihood())
    for mode in modes:
        model.prediction = mode
        Zs = test_inputs(spec, Xs, axes, 'gen', spec['tests'])
        if spec.get('dup'):
            # repeated inputs, and one input shared by two outputs
            Zs = [np.vstack([Z, Z[:2]]) for Z in Zs]
            Zs[0][1] = Zs[-1][0]
        mu, var = model.predict(Zs)
        out[mode] = np.concatenate(mu + var)
    return out


def build(spec, procs):
    fk, kern, ks, noise = models.make_fk(spec)
    Xs, Ys = models.data(spec)
    np.random.seed(12345)
    model = models.make_model(spec, fk=fk, Xs=Xs, Ys=Ys, max_procs=procs)
    return model, fk, Xs


def history(spec, procs, modes, shift=0):
    """Build, observe, update, observe. Drawn probes are fixed by the seed."""
    model, fk, Xs = build(spec, procs)
    axes = models.axes_of(model, spec, Xs)
    a = observe(model, spec, Xs, axes, modes)
    np.random.seed(777)
    fk.noise = np.array(fk.noise) * 1.5
    b = observe(model, spec, Xs, axes, modes)
    return a, b


def compare(x, what, got, want):
    for g, w, when in zip(got, want, ('initially', 'after an update')):
        for k in w:
            x.close('%s: %s %s' % (what, k, when), g[k], w[k], 1e-9, 1e-9)


REF = {}


def reference(spec, modes):
    key = repr(sorted(spec.items(), key=str)) + repr(modes)
    if key not in REF:
        REF[key] = history(spec, 1, modes)
    return REF[key]


def run(case, x):
    if case['kind'] == 'wrapper':
        return wrapper(case, x)
    spec = case['spec']
    modes = case['modes']
    want = reference(spec, modes)
    if case['kind'] == 'real':
        x.op()
        got = history(spec, case['procs'], modes)
        compare(x, 'real pool', got, want)
        x.state(case)
        return
    s = case['sched']
    with controlled(Schedule(s['k'], s['assign'], s['order'], s['seed'])) as log:
        got = history(spec, case['procs'], modes)
        x.op(sum(c for _, c in log) or 1)
        compare(x, 'schedule %s' % s, got, want)
        x.state(case['spec'], s, case['procs'])
        x.outcome(len(log))
        if case['spec']['lens'][0] >= 300 and not log and case['procs'] != 1:
            x.skip('pool not used by this model')


def wrapper(case, x):
    n, s = case['n'], case['sched']
    with controlled(Schedule(s['k'], s['assign'], s['order'], s['seed'])):
        import multiprocessing
        pool = multiprocessing.Pool(processes=case['procs']) if case['procs'] else None
        ip = InlinePool(pool)
        x.op()
        got = ip.starmap(tag, [(i, i + 1) for i in range(n)])
        x.check(list(got) == [(i, 2 * (i + 1)) for i in range(n)], lambda: 'starmap returned %r' % (got,))
        x.check(list(ip.starmap(rnd, [(i,) for i in range(n)])) == list(range(n)), 'starmap with random state')
        for bad in range(n):
            x.op()
            x.raises('task %d of %d fails' % (bad, n), KeyError, lambda: ip.starmap(fail_at, [(i, bad) for i in range(n)]))
        x.state(case)


BIG = dict(D=2, P=1, lmc=[['rbf', 1, None]], slfm=[], indep=[], idx=None, lens=[301, 3], m=4, par=0, data='gen', it=2,
           tests=[2, 1], tol=1e-8)


def cases(tier, engine):
    th = tier == 'thorough'
    fast = ['exact', 'on-the-fly']
    small = dict(BIG, lens=[4, 3])
    for procs in (2, 3) if not th else (2, 3, 8):
        yield dict(kind='real', spec=BIG, procs=procs, modes=fast + ['precompute'])
    slfm = dict(BIG, lmc=[], slfm=[['rbf', None]], indep=[['matern32', None]], idx=[1])
    yield dict(kind='real', spec=slfm, procs=2, modes=fast + ['precompute'])
    # the wrapper: exhaustive
    for procs in (0, 1, 2, 3):
        for n in range(0, 5 if th else 4):
            for k in range(1, max(n, 1) + 1):
                for a, o in schedules(k, max(1, procs)):
                    yield dict(kind='wrapper', n=n, procs=procs, sched=dict(k=k, assign=a, order=o, seed=3))
                    if procs == 0:
                        break
    # models
    for k in range(1, 5 if th else 4):
        for a, o in schedules(k, 3):
            for seed in (0, 5000) if th or k == 2 else (0,):
                W = max(2, max(a) + 1)
                yield dict(kind='model', spec=BIG, procs=W, modes=fast + (['precompute'] if th or k <= 2 else []),
                           sched=dict(k=k, assign=a, order=o, seed=seed))
                if th or k == 2:
                    yield dict(kind='model', spec=slfm, procs=W, modes=fast, sched=dict(k=k, assign=a, order=o, seed=seed))
    # many tasks per call: more than any plausible batch size, and repeated right-hand sides
    many = dict(BIG, it=17, tests=[21, 20], dup=True)
    for k in (2, 3):
        for a, o in schedules(k, 3 if th else 2):
            yield dict(kind='model', spec=many, procs=2, modes=fast, sched=dict(k=k, assign=a, order=o, seed=0))
    yield dict(kind='real', spec=many, procs=2, modes=fast)
    yield dict(kind='real', spec=many, procs=3, modes=fast)
    for a, o in schedules(2, 2):
        yield dict(kind='model', spec=small, procs=2, modes=fast + ['precompute'], sched=dict(k=2, assign=a, order=o, seed=0))
        two = dict(BIG, P=2, m=[4, 4], lens=[300, 2], lmc=[['rbf', 1, [0]]], slfm=[['rbf', [1]]])
        yield dict(kind='model', spec=two, procs=2, modes=fast, sched=dict(k=2, assign=a, order=o, seed=0))
