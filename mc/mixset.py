"""A shared, systematically enumerated set of kernel mixes for model-level checks."""
import itertools

from mc import models


def mixset(level):
    """level 0: one per structural class; 1: all small mixes; 2: everything C04 bounds."""
    out = []

    def add(**kw):
        s = dict(D=2, P=1, lmc=[], slfm=[], indep=[], idx=None)
        s.update(kw)
        out.append(s)
    r, ma, pe, idn = 'rbf', 'matern32', 'std_periodic', 'id'
    # structural classes of the representation choice, each with D=1,2,3
    for D in (1, 2, 3):
        add(D=D, lmc=[[r, 1, None]])
        add(D=D, slfm=[[r, None]])
        add(D=D, slfm=[[r, None], [ma, None]])
        add(D=D, indep=[[r, None]] * D)
        add(D=D, lmc=[[r, 1, None], [ma, 1, None]])
        add(D=D, lmc=[[r, 1, None]], slfm=[[ma, None]], indep=[[r, None]], idx=[D - 1])
        add(D=D, slfm=[[r, None]], indep=[[ma, None]], idx=[D - 1])
    add(lmc=[[r, 2, None], [ma, 2, None]])
    add(D=3, lmc=[[r, 2, None], [ma, 3, None]], slfm=[[r, None]], indep=[[ma, None], [r, None]], idx=[2, 0])
    add(lmc=[[pe, 1, None]])
    add(lmc=[[pe, 2, None], [r, 1, None]], indep=[[pe, None]], idx=[1])
    add(slfm=[[pe, None], [idn, None]])
    add(lmc=[[idn, 1, None], [r, 1, None]])
    add(lmc=[['scaled:rbf', 1, None]], slfm=[['scaled:std_periodic', None]])
    # two input dimensions
    add(P=2, lmc=[[r, 1, None]])
    add(P=2, lmc=[[r, 1, [0]], [ma, 1, [1]]])
    add(P=2, lmc=[[r, 1, [0]]], slfm=[[ma, [1]]], indep=[[r, None]], idx=[1])
    add(P=2, slfm=[[r, [0]], [ma, [1]]])
    add(P=2, lmc=[[r, 1, [1]]])
    add(P=2, slfm=[[r, [0]], [ma, [0]]], indep=[[r, [1]]], idx=[0])
    add(P=2, D=1, lmc=[[ma, 1, None], [r, 1, [1]]])
    if level >= 1:
        for D in (1, 2, 3):
            for s in models.mixes(D, 1, ranks=(1, 2), total=2 if D == 3 else 3, max_indep=2):
                out.append(s)
        for D in (1, 2):
            for s in models.mixes(D, 2, ranks=(1,), dims=(None, [0], [1]), max_indep=1, total=2):
                out.append(s)
    if level >= 2:
        for D in (2, 3):
            for s in models.mixes(D, 1, ranks=(1, 2), total=4, max_indep=2):
                out.append(s)
        for s in models.mixes(2, 2, ranks=(1, 2), dims=(None, [0], [1]), max_indep=1, total=3):
            out.append(s)
        for a, b in itertools.product([r, ma, pe, idn, 'scaled:matern32'], repeat=2):
            add(lmc=[[a, 1, None], [b, 2, None]])
            add(lmc=[[a, 1, None]], slfm=[[b, None]])
            add(slfm=[[a, None]], indep=[[b, None]], idx=[1])
    seen, res = set(), []
    for s in out:
        k = repr(s)
        if k not in seen:
            seen.add(k)
            res.append(s)
    return res


def bigset(level=1):
    """Complete specs beyond the small bounds: more outputs, kernels, ranks, observations, grid points and input dimensions."""
    out = []

    def add(**kw):
        s = dict(D=2, P=1, lmc=[], slfm=[], indep=[], idx=None, m=6, lens=[3, 2])
        s.update(kw)
        out.append(s)
    r, ma, pe = 'rbf', 'matern32', 'std_periodic'
    # outputs
    add(D=4, lmc=[[r, 1, None]], slfm=[[ma, None]], indep=[[r, None], [ma, None]], idx=[3, 1], lens=[3, 2, 2, 4])
    add(D=5, lmc=[[r, 3, None]], lens=[2, 3, 2, 4, 2])
    add(D=5, indep=[[r, None], [ma, None], [r, None], [ma, None], [r, None]], lens=[2, 2, 3, 2, 4])
    add(D=6, slfm=[[r, None], [ma, None], [r, None]], lens=[2, 2, 3, 2, 2, 3])
    add(D=9, lmc=[[r, 2, None]], slfm=[[ma, None]], lens=[2, 2, 2, 3, 2, 2, 2, 2, 2])
    # kernels and ranks
    add(lmc=[[r, 4, None]])
    add(lmc=[[r, 1, None], [ma, 2, None], [r, 3, None], [ma, 1, None], [pe, 2, None]], lens=[4, 5])
    add(lmc=[[r, 2, None]] * 2, slfm=[[r, None], [ma, None], [r, None]], indep=[[ma, None], [r, None], [r, None]], idx=[1, 1, 0])
    add(D=3, slfm=[[r, None]] * 6, lens=[3, 4, 2])
    add(indep=[[r, None], [ma, None], [r, None], [ma, None]], idx=[1, 0, 1, 1])
    # observations and grid points (around powers of two)
    add(lmc=[[r, 1, None]], lens=[20, 33], m=28)
    add(lmc=[[r, 1, None]], slfm=[[ma, None]], lens=[64, 65], m=60)
    add(D=3, slfm=[[r, None], [ma, None]], indep=[[r, None]], idx=[1], lens=[17, 2, 9], m=61)
    add(D=1, lmc=[[ma, 1, None]], lens=[129], m=124)
    add(D=1, indep=[[r, None]], lens=[40], m=9)
    add(D=3, lmc=[[r, 1, None]], lens=[2, 40, 2], m=30)
    # input dimensions
    add(P=2, D=3, lmc=[[r, 2, None]], slfm=[[ma, [1]]], m=[9, 7], lens=[12, 8, 10])
    add(P=2, lmc=[[r, 1, [1, 0]]], slfm=[[ma, [1, 0]]], m=[5, 8], lens=[7, 6])
    add(P=2, lmc=[[r, 1, [1]]], slfm=[[r, [1]], [ma, [0]]], indep=[[r, [0]], [ma, [1]]], idx=[1, 0], m=[6, 4], lens=[5, 4])
    add(P=3, lmc=[[r, 1, [0]], [ma, 1, [1, 2]]], m=[4, 5, 6], lens=[4, 3])
    add(P=3, lmc=[[r, 1, [2, 0]]], m=[4, 5, 6], lens=[4, 3])
    add(P=3, slfm=[[r, [0]], [ma, [1]], [r, [2]]], indep=[[r, [0, 2]]], idx=[1], m=[5, 4, 6], lens=[4, 3])
    add(P=4, lmc=[[r, 1, [3]], [ma, 2, [0, 2]]], slfm=[[r, [1]]], m=[4, 5, 6, 7], lens=[4, 3])
    if level >= 2:
        add(lmc=[[r, 1, None]], slfm=[[ma, None]], lens=[128, 130], m=120)
        add(D=12, lmc=[[r, 1, None]], indep=[[ma, None]], idx=[11], lens=[2] * 12)
        add(lmc=[[r, 6, None], [ma, 5, None]])
        add(P=2, lmc=[[r, 1, None]], lens=[40, 31], m=[12, 13])
        add(P=3, lmc=[[r, 2, [0, 1]], [ma, 1, [1, 2]], [r, 1, [0, 2]]], m=[5, 6, 7], lens=[9, 8])
        for a, b in itertools.product([[0], [1], [2], [0, 1], [0, 2], [1, 2], [2, 1]], repeat=2):
            add(P=3, lmc=[[r, 1, a]], slfm=[[ma, b]], m=[4, 5, 6], lens=[3, 3])
    return out


def extremeset(level=0):
    """Complete specs at unusual but legitimate settings: units of outputs and inputs, smoothness, noise level, equal kernel names."""
    out = []
    for i, s in enumerate(mixset(0)):
        for j, e in enumerate(models.EXTREMES):
            if s['indep'] and ('scale' in e or 'noisef' in e):
                continue                 # independent kernels have unit variance: their units are fixed
            if e.get('same') and len(models.entries(s)) < 2:
                continue
            if not level and (i + j) % 2:
                continue
            out.append(dict(s, lens=[3, 4, 2][:s['D']], m=[5, 4] if s['P'] == 2 else 6, par=(i + j) % 3,
                            data=('gen', 'grid', 'dup')[(i + j // 2) % 3], **e))
    return out


def hugeset():
    """A few specs an order of magnitude beyond the ladder, for thresholds in sizes."""
    z = dict(P=1, lmc=[], slfm=[], indep=[], idx=None, m=6)
    return [dict(z, D=2, lmc=[['rbf', 1, None]], slfm=[['matern32', None]], lens=[520, 531], m=1030),
            dict(z, D=1, lmc=[['matern32', 1, None]], lens=[1100], m=513),
            dict(z, D=3, P=2, lmc=[['rbf', 2, None]], slfm=[['matern32', [1]]], lens=[200, 150, 170], m=[30, 40]),
            dict(z, D=20, lmc=[['rbf', 1, None]], indep=[['rbf', None]], idx=[17], lens=[2] * 20),
            dict(z, D=2, lmc=[['rbf', 8, None], ['matern32', 3, None]], slfm=[['rbf', None]] * 8, indep=[['matern32', None]] * 6,
                 idx=[0, 1, 1, 0, 1, 0], lens=[4, 3]),
            dict(z, D=6, slfm=[['rbf', None], ['matern32', None]] * 10, lens=[3, 2, 2, 2, 3, 2]),
            dict(z, D=33, slfm=[['rbf', None], ['matern32', None]], lens=[2 + d % 2 for d in range(33)])]
