"""C06: gradients are derivatives of the log likelihood."""
import numpy as np

from mc import models, oracle, seams
from mc.engine import SeamMissing
from mc.mixset import bigset, extremeset, hugeset, mixset
from runlmc.lmc.likelihood import ExactLMCLikelihood

ID = 'C06'
BOUNDS = ('every kernel mix of mixset level 1 (level 2 thorough), alternately with generic, duplicated and on-grid data and '
          'three parameter settings; unusual units, smoothness and noise of inputs and outputs (extremeset); a ladder of larger models (up to 9 outputs, 8 kernels, rank 4, 4 input dimensions): every entry of the exact gradient against the complex-step derivative of the dense log '
          'density; every entry of the stochastic gradient against the closed form for the probes actually drawn (1..3 '
          'probes); for 4 observations the average over all 16 probe vectors against the derivative; every linked '
          'parameter receives its own entry; again after a parameter update')
ASSUMPTIONS = ['noise of order one', 'probe vectors observed at the public solver entry point (else that part is reported as skipped)']


def unique(ks, noise, spec):
    """Make every free parameter value distinct, so that values identify parameters."""
    t = 0
    u = spec.get('scale', 1.0)
    ent = models.entries(spec)
    for k, e in zip(ks, ent):
        if e[0] != 'indep':
            A = np.array(k['A'])
            for i in np.ndindex(A.shape):
                t += 1
                A[i] += u * 0.0137 * t
            k['A'] = A
        if e[0] == 'lmc':
            k['kappa'] = np.array([v + u * u * 0.0071 * (t + j + 1) for j, v in enumerate(k['kappa'])])
        k['p'] = [v * (1 + 0.00931 * (t + j + 1)) for j, v in enumerate(k['p'])]
        t += 3
    return ks, noise * (1 + 0.00417 * np.arange(1, len(noise) + 1))


def install(spec, ks, noise, fk, kern):
    fk.coreg_vecs = [k['A'] for k in ks]
    fk.coreg_diags = [k['kappa'] for k in ks]
    for q, k in enumerate(ks):
        for o, v in zip(models.kernel_param_objects(k['kind'], kern[q]), k['p']):
            o[:] = v
    fk.noise = noise


def flat(lik):
    out = []
    A, kd, kk, nz = (lik.coreg_vec_gradients(), lik.coreg_diags_gradients(), lik.kernel_gradients(),
                     lik.noise_gradient())
    for q in range(len(A)):
        out += list(np.ravel(A[q])) + list(np.ravel(kd[q])) + [float(v) for v in kk[q]]
    return np.array(out + list(np.ravel(nz)))


def value_of(orc, p):
    if p[0] == 'A':
        return float(orc.kernels[p[1]]['A'][p[2], p[3]])
    if p[0] == 'kappa':
        return float(orc.kernels[p[1]]['kappa'][p[2]])
    if p[0] == 'k':
        return float(orc.kernels[p[1]]['p'][p[2]])
    return float(orc.noise[p[1]])


def rtol(spec):
    """scipy's MINRES stops at a relative residual of 1e-6; far above runlmc's absolute tolerance when outputs are 1e4 (runlmc reports it)."""
    return 1e-4 if spec.get('yf') else 1e-6


def dks(orc, axes, Xs, exact):
    b = (lambda o: o.K_exact(Xs)) if exact else (lambda o: o.K_ski(Xs, axes))
    return [orc.dK(p, b) for p in orc.params()]


def wiring(x, model, orc, want, spec, what):
    """model.gradient[i] belongs to the parameter whose (unique) value is param_array[i]."""
    ent = models.entries(spec)
    free = [(value_of(orc, p), want[i]) for i, p in enumerate(orc.params())
            if not (p[0] == 'kappa' and ent[p[1]][0] != 'lmc') and not (p[0] == 'A' and ent[p[1]][0] == 'indep')]
    vals = np.array([v for v, _ in free])
    pa = np.array(model.param_array, float)
    g = np.array(model.gradient, float)
    x.check(len(pa) == len(free), '%s: %d linked parameters, expected %d' % (what, len(pa), len(free)))
    hit = set()
    exp = np.zeros(len(pa))
    for i, v in enumerate(pa):
        j = int(np.argmin(np.abs(vals - v)))
        x.check(abs(vals[j] - v) < 1e-9 * abs(v) and j not in hit, '%s: unexpected parameter value %r' % (what, v))
        hit.add(j)
        exp[i] = free[j][1]
    x.close(what + ': gradient of each parameter', g, exp, rtol(spec), 1e-7)


def verify(x, spec, model, fk, orc, Xs, Ys, rec, what):
    y = np.concatenate(Ys)
    n = len(y)
    axes = models.axes_of(model, spec, Xs)
    Kx, Ks = orc.K_exact(Xs), orc.K_ski(Xs, axes)
    # exact
    ex = ExactLMCLikelihood(fk, Xs, Ys)
    x.op(4)
    dx = dks(orc, axes, Xs, True)
    a = np.linalg.solve(Kx, y)
    x.close(what + ': alpha', ex.alpha(), a, 1e-8, 1e-9)
    Kinv = np.linalg.inv(Kx)
    want = np.array([0.5 * (a.dot(d).dot(a) - (Kinv * d).sum()) for d in dx])
    x.close(what + ': exact gradient', flat(ex), want, 1e-7, 1e-8)
    # stochastic
    probes = rec.probes(n)[-spec['it']:]
    if len(probes) != spec['it']:
        raise SeamMissing('solver not called through its public entry point')
    ds = dks(orc, axes, Xs, False)
    a = np.linalg.solve(Ks, y)
    R = np.array(probes)
    S = np.linalg.solve(Ks, R.T).T
    want = np.array([0.5 * (a.dot(d).dot(a) - np.mean([s.dot(d).dot(r) for s, r in zip(S, R)])) for d in ds])
    x.op(4)
    t = rtol(spec)
    x.close(what + ': solved outputs', model.kernel.alpha(), a, t, 1e-7)
    x.close(what + ': stochastic gradient', flat(model.kernel), want, t, 1e-7)
    wiring(x, model, orc, want, spec, what)
    x.state(spec, what, R)


def run(case, x):
    spec = case
    fk, kern, ks, noise = models.make_fk(spec)
    ks, noise = unique(ks, noise, spec)
    install(spec, ks, noise, fk, kern)
    Xs, Ys = models.data(spec)
    if case['mode'] == 'all':
        n = sum(spec['lens'])
        with seams.all_probes() as used:
            model = models.make_model(dict(spec, it=2 ** n), fk=fk, Xs=Xs, Ys=Ys)
        if not used:
            raise SeamMissing('probes not drawn with numpy.random.randint(0, 2, (iterations, n))')
        x.op(2 ** n + 4)
        orc = models.make_oracle(ks, noise)
        axes = models.axes_of(model, spec, Xs)
        Ks = orc.K_ski(Xs, axes)
        y = np.concatenate(Ys)
        want = np.array([oracle.dloglik(Ks, y, d) for d in dks(orc, axes, Xs, False)])
        x.close('gradient averaged over all probes', flat(model.kernel), want, 1e-6, 1e-7)
        x.state(spec, 'all probes')
        return
    with seams.recorded_solves() as rec:
        model = models.make_model(spec, fk=fk, Xs=Xs, Ys=Ys)
        verify(x, spec, model, fk, models.make_oracle(ks, noise), Xs, Ys, rec, 'initial')
        for k in ks:
            k['p'] = [v * 1.17 for v in k['p']]
        noise = noise[::-1] * 1.21
        install(spec, ks, noise, fk, kern)
        verify(x, spec, model, fk, models.make_oracle(ks, noise), Xs, Ys, rec, 'after an update')


def cases(tier, engine):
    th = tier == 'thorough'
    i = 0
    for s in hugeset()[1:5:1 if th else 2] + [hugeset()[4]]:
        yield dict(s, mode='rec', par=1, data='gen', it=2)
    for s in mixset(2 if th else 1):
        i += 1
        for k in range(3 if th else 1):
            yield dict(s, mode='rec', lens=[3, 2, 4][:s['D']], m=[4, 5] if s['P'] == 2 else 5, par=(i + k) % 3,
                       data=['gen', 'dup', 'grid'][(i + k) % 3], it=1 + (i + k) % 3)
    for i, s in enumerate(bigset(2 if th else 1)):
        if sum(s['lens']) < 60 or th:
            yield dict(s, mode='rec', par=i % 3, data='gen', it=1 + i % 4)
    for i, s in enumerate(extremeset(th)):
        if s.get('scale') == 1e-4:
            continue                     # scipy's MINRES stops early (and runlmc reports it): no exact oracle
        yield dict(s, mode='rec', it=1 + i % 2)
    for s in mixset(0 if not th else 1):
        yield dict(s, mode='all', lens={1: [4], 2: [2, 2], 3: [2, 2, 2]}[s['D']] if s['D'] < 3 else [2, 2, 2],
                   m=[4, 4] if s['P'] == 2 else 5, par=1, data='gen')
