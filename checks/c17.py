"""C17: array helpers satisfy their contracts on every small array."""
import itertools

import numpy as np

from runlmc.util.numpy_convenience import (begin_end_indices, cartesian_product, chunks, map_entries, search_descending, symm_2d_list_map,
                                           tesselate)

ID = 'C17'
BOUNDS = ('tesselate: every length list with up to 4 (thorough 5) entries 0..3 against every array length 0..6, 1-D/2-D/3-D, contiguous or '
          'strided, lengths as list/tuple/array/iterator; descending search: every array up to length 5 (6) over a 5-letter alphabet, against '
          'every threshold between, at and beyond the letters; begin/end: every non-empty length list up to length 5 over 0..3; chunks: every '
          'length 0..8 by every chunk size 1..10; Cartesian product: every 1..3 axes of sizes 0..4 and mixed types; symmetric map: order 0..5, 9, 16; '
          'element map: every shape up to 3 axes of size 0..3, C, Fortran, transposed, strided and reversed layouts, int and float; plus ladders of longer arguments (up to 100 segments, 300 elements, 6 axes)')
ASSUMPTIONS = []


def same(x, what, got, want):
    got, want = np.asarray(got), np.asarray(want)
    x.check(got.shape == want.shape and np.array_equal(got, want), lambda: '%s: got %s, expected %s' % (what, got.tolist(), want.tolist()))


def tess(case, x):
    lens = case['lens']
    for n in case.get('ns', range(7)):
        base = np.arange(n * 4.)
        arrs = [base[:n], base[::2][:n], base.reshape(n, 4)[:, :2], base.reshape(n, 2, 2), np.asfortranarray(base.reshape(n, 4)),
                base[:n].astype(int)]
        for k, a in enumerate(arrs):
            keep = a.copy()
            for form in (list, tuple, np.array, iter, lambda l: (v for v in l)):
                what = 'tesselate(%s, %s)' % (a.shape, lens)
                x.op()
                if not lens or sum(lens) != n:
                    x.raises(what, ValueError, lambda: tesselate(a, form(lens) if lens else form([])))
                    continue
                got = tesselate(a, form(lens))
                x.check(len(got) == len(lens), what + ': number of segments')
                at = 0
                for g, l in zip(got, lens):
                    same(x, what, g, a[at:at + l])
                    at += l
                same(x, what + ': input', a, keep)
        x.state('tess', lens, n)


def search(case, x):
    for xs in case['xss']:
        desc = all(p >= q for p, q in zip(xs, xs[1:]))
        for typ in (list, np.array):
            arr = typ([float(v) for v in xs])
            for t in (-1, -.5, 0, .5, 1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5) + (tuple(xs) if case.get('own') else ()):
                for inc in (True, False):
                    x.op()
                    what = 'search_descending(%s, %s, %s)' % (t, xs, inc)
                    if not desc:
                        x.raises(what, ValueError, lambda: search_descending(t, arr, inc))
                        continue
                    want = sum(1 for v in xs if (v >= t if inc else v > t))
                    same(x, what, search_descending(t, arr, inc), want)
            same(x, 'search input', arr, xs)
        x.state('search', xs)


def ends(case, x):
    for lens in case['lenss']:
        want_e = [sum(lens[:i + 1]) for i in range(len(lens))]
        want_b = [sum(lens[:i]) for i in range(len(lens))]
        for typ in (list, tuple, np.array):
            a = typ(lens)
            x.op()
            b, e = begin_end_indices(a)
            same(x, 'begins of %s' % (lens,), b, want_b)
            same(x, 'ends of %s' % (lens,), e, want_e)
            same(x, 'begin_end_indices input', a, lens)
        x.state('ends', lens)


def chunk(case, x):
    for n in case.get('ns', range(9)):
        for size in case.get('sizes', range(1, 11)):
            for typ in (list, tuple, np.array) + (() if 'ns' in case else (lambda v: ''.join(map(str, v)),)):
                l = typ(list(range(n)))
                x.op()
                got = [list(c) for c in chunks(l, size)]
                want = [list(l)[i:i + size] for i in range(0, n, size)]
                x.check(got == want, lambda: 'chunks(%s, %d): %s' % (l, size, got))
                x.check(len(l) == n, 'chunks input')
        x.state('chunks', n)


def cart(case, x):
    sizes, types = case['sizes'], case['types']
    arrays = []
    for k, (n, t) in enumerate(zip(sizes, types)):
        v = np.array([(7 * i + 3 * k) % 5 + (.5 if t == 'f' else 0) for i in range(2 * n)], dtype=float if t == 'f' else int)
        arrays.append(v[::2] if k % 2 else v[:n])
    keep = [a.copy() for a in arrays]
    x.op()
    got = cartesian_product(*arrays)
    want = list(itertools.product(*[a.tolist() for a in arrays]))
    same(x, 'cartesian_product of sizes %s' % (sizes,), got, np.array(want).reshape(len(want), len(arrays)))
    for a, k in zip(arrays, keep):
        same(x, 'cartesian_product input', a, k)
    x.state('cart', sizes, types)


def symm(case, x):
    D = case['D']
    for fill in range(3):
        arr = np.array([[100 * fill + 10 * min(i, j) + max(i, j) if fill < 2 else float(i * j) for j in range(D)] for i in range(D)],
                       dtype=object if fill else float).reshape(D, D)
        keep = arr.copy()
        for args in ((), (3,), (3, 5)):
            for dtype in (None, float, 'object'):
                f = lambda v, *a: v * 2 + sum(a)
                x.op()
                got = symm_2d_list_map(f, arr, D, *args) if dtype is None else symm_2d_list_map(f, arr, D, *args, dtype=dtype)
                same(x, 'symm_2d_list_map(D=%d)' % D, got, [[f(arr[i, j], *args) for j in range(D)] for i in range(D)] if D else np.zeros((0, 0)))
                if dtype is float:
                    x.check(got.dtype == np.float64, 'symm_2d_list_map dtype')
        same(x, 'symm_2d_list_map input', arr, keep)
        odd = np.array([[float(i - 2 * j) for j in range(D)] for i in range(D)]).reshape(D, D)
        for dtype in ('object', float):
            got = np.array(symm_2d_list_map(lambda v: v * 3 - 1, odd, D, dtype=dtype), float).reshape(D, D)
            x.check(np.array_equal(got, got.T), 'symm_2d_list_map(D=%d) of any list is symmetric' % D)
        if D > 1:
            # a sub-array of leading size
            same(x, 'symm_2d_list_map leading part', symm_2d_list_map(lambda v: v, arr, D - 1), arr[:D - 1, :D - 1])
    x.state('symm', D)


def entries(case, x):
    shape = tuple(case['shape'])
    n = int(np.prod(shape))
    for dt in (float, int):
        base = (np.arange(2 * n) * 3 % 11).astype(dt)
        full = base[:n].reshape(shape)
        lay = dict(c=full, f=np.asfortranarray(full), strided=base[::2].reshape(shape))
        if len(shape) > 1:
            lay['t'] = np.ascontiguousarray(full.T).T
            lay['swap'] = full.swapaxes(0, 1)
        if shape:
            lay['rev'] = full[::-1]
            lay['revlast'] = full[..., ::-1]
            lay['step'] = np.repeat(full, 2, axis=0)[::2]
        lay['ro'] = full.copy()
        lay['ro'].flags.writeable = False
        for name, a in sorted(lay.items()):
            keep = a.copy()
            for f in (lambda v: v * 2 + 1, lambda v: -v, lambda v: v * v):
                x.op()
                got = map_entries(f, a)
                want = np.zeros(a.shape, dtype=a.dtype)
                for i in np.ndindex(*a.shape):
                    want[i] = f(keep[i])
                same(x, 'map_entries over %s array of shape %s' % (name, a.shape), got, want)
                same(x, 'map_entries input', a, keep)
    x.state('entries', shape)


def run(case, x):
    dict(tess=tess, search=search, ends=ends, chunk=chunk, cart=cart, symm=symm, entries=entries)[case['kind']](case, x)


def cases(tier, engine):
    th = tier == 'thorough'
    for n in range(6 if th else 5):
        for lens in itertools.product(range(4), repeat=n):
            yield dict(kind='tess', lens=list(lens))
    allx = [list(v) for n in range(7 if th else 5) for v in itertools.product(range(5), repeat=n)]
    if not th:
        allx += [list(v) for n in (5, 6, 7) for v in itertools.combinations_with_replacement((4, 3, 2, 1, 0), n)]
    for i in range(0, len(allx), 100):
        yield dict(kind='search', xss=allx[i:i + 100])
    alll = [list(v) for n in range(1, 7 if th else 6) for v in itertools.product(range(4), repeat=n)]
    for i in range(0, len(alll), 200):
        yield dict(kind='ends', lenss=alll[i:i + 200])
    for k in (6, 9, 17, 40, 100):
        lens = [(7 * i + k) % 5 for i in range(k)]
        yield dict(kind='tess', lens=lens, ns=[sum(lens) - 1, sum(lens), sum(lens) + 1])
        yield dict(kind='ends', lenss=[lens, lens[::-1], [0] * k, [3] * k])
        up = sorted(lens)
        yield dict(kind='search', xss=[up[::-1], up, [4.0] * k, [4] * k + [1], [4] + [1] * k, up[::-1] + [0, 1], [3, 4] + up[::-1]])
    yield dict(kind='search', xss=[[3.0, 2.0, 2.0 + 1e-12, 1.0], [2.0, 2.0 + 1e-15, 0.5], [1e9, 1e9 + 1e-6, 3.0], [1e-12, 1e-13, 2e-13],
                                   [1e-300, 2e-300], [3.0, 2.0, 2.0 - 1e-12, 1.0], [1e9, 1e9 - 1e-6, 3.0], [2e-300, 1e-300], [0.0, -0.0, -1e-9],
                                   [4.0, 3.0 + 1e-9, 3.0, 3.0 - 1e-9, 2.0], [3.0 - 1e-9, 3.0], [np.inf, 3.0, -np.inf]], own=True)
    yield dict(kind='chunk')
    yield dict(kind='chunk', ns=[15, 16, 17, 64, 100], sizes=[1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 1000])
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for sizes in itertools.product(range(5), repeat=n):
            for types in itertools.product('if', repeat=n) if th or n < 3 else ('iii', 'fif', 'fff'):
                yield dict(kind='cart', sizes=list(sizes), types=''.join(types))
    for sizes in ([40, 3], [3, 40], [17, 16, 2], [2, 3, 2, 3], [1, 2, 1, 2, 3], [300], [0, 9, 2, 2], [2, 2, 2, 2, 2, 2]):
        for t in 'if':
            yield dict(kind='cart', sizes=sizes, types=t * len(sizes))
    for shape in ([70], [9, 8], [2, 3, 2, 2], [1, 17, 2], [2, 2, 2, 2, 2]):
        yield dict(kind='entries', shape=shape)
    for D in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33):
        yield dict(kind='symm', D=D)
    for n in range(4):
        for shape in itertools.product(range(4), repeat=n):
            yield dict(kind='entries', shape=list(shape))
