"""C17: summaries of a run."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import Space, weyl

BOUNDS = {
    'quick': 'response matrices: all of {-1,0,2}^(r x t) with r*t <= 6 (and 1 x 7), all num_init; '
        'time matrices likewise over {0,0.5,3}; longer deterministic ones up to 6 x 120, 101 x 4, 2 x 600; '
        'histories: all of {-1,0,0.5}^n, n <= 6; normalisation: all n <= 5 over 4 values x 8 scales x 3 offsets; '
        'magnitudes 1e-9..1e8 x 3 offsets x 7 data types and layouts up to 5000 evaluations, 1000 rounds, 30 dimensions; grids: d <= 12 (30 with one value), 1..7 values per dimension, 6 boxes',
    'thorough': 'as quick with r*t <= 9, n <= 8',
}
ASSUMPTIONS = ['finite responses; num_init >= 1']


def gen_min(tier):
    cap = 6 if tier == 'quick' else 9
    for r in range(1, 4):
        for t in range(2, 8):
            if r * t > cap and not (r == 1 and t == 7):
                continue
            for i0 in range(1, t):
                yield ['enum', r, t, i0]
    for r, t in [(1, 30), (2, 12), (3, 60), (5, 25), (6, 120), (4, 101), (12, 20), (33, 10), (40, 5), (101, 4), (2, 600)]:
        for i0 in [1, 2, 5, t // 2, t - 1]:
            if 0 < i0 < t:
                for key in range(3):
                    yield ['long', r, t, i0, key]


def min_ref(Y, i0):
    r, t = Y.shape
    out = np.array([[min(float(v) for v in Y[i, :k]) for k in range(i0, t + 1)] for i in range(r)])
    mean = np.array([sum(c) / r for c in out.T])
    if r > 1:
        std = np.array([math.sqrt(sum((v - m) ** 2 for v in c) / (r - 1)) for c, m in zip(out.T, mean)])
    else:
        std = np.zeros(len(mean))
    return out, mean, std, std / math.sqrt(r)


def chk_min(ctx, Y, i0):
    from bayeso.utils import utils_common as U
    Y0 = Y.copy()
    got = U.get_minimum(Y, i0)
    want = min_ref(Y0, i0)
    for g, w, name in zip(got, want, ['minima', 'mean', 'standard deviation', 'standard error']):
        ctx.eq(g, w, f'get_minimum {name} for {Y0.tolist() if Y0.size < 40 else Y0.shape}, num_init={i0}', rtol=1e-9, atol=1e-10)
    ctx.identical(Y, Y0, 'get_minimum changed its argument')
    ctx.trans()
    ctx.trace()
    ctx.state('min', Y0, i0)
    ctx.outcome(got[0])


def run_min(sc, ctx):
    if sc[0] == 'enum':
        _, r, t, i0 = sc
        for v in itertools.product([-1.0, 0.0, 2.0], repeat=r * t):
            chk_min(ctx, np.array(v).reshape(r, t), i0)
        ctx.sample(dict(rounds=r, steps=t, num_init=i0, enumerated='all of {-1,0,2}^(r*t)'))
    else:
        _, r, t, i0, key = sc
        Y = weyl((r, t), key) * 10 - 5
        if key == 1:
            Y = np.round(Y)
        if key == 2:
            Y = Y * 1e6 + 1e7
        chk_min(ctx, Y, i0)


def gen_time(tier):
    cap = 6 if tier == 'quick' else 9
    for r in range(1, 4):
        for t in range(1, 8):
            if r * t > cap and not (r == 1 and t == 7):
                continue
            for inc in [True, False]:
                for i0 in range(0, t if inc else 3):
                    yield ['enum', r, t, i0, inc]
    for r, t in [(1, 30), (2, 12), (3, 60), (5, 25), (12, 20), (40, 5), (101, 4), (2, 600)]:
        for i0 in [0, 1, 5, t - 1]:
            for inc in [True, False]:
                if inc and i0 >= t:
                    continue            # refused by the function: no evaluation would be left
                yield ['long', r, t, i0, inc]


def chk_time(ctx, T, i0, inc):
    from bayeso.utils import utils_common as U
    T0 = T.copy()
    got = U.get_time(T, i0, inc)
    rows = []
    for row in T0:
        if inc:
            row = row[i0:]
        acc, out = 0.0, [0.0]
        for v in row:
            acc += float(v)
            out.append(acc)
        rows.append(out)
    want = [sum(c) / len(c) for c in zip(*rows)]
    ctx.eq(got, want, f'get_time({T0.tolist() if T0.size < 30 else T0.shape}, {i0}, {inc})', rtol=1e-9, atol=1e-10)
    ctx.identical(T, T0, 'get_time changed its argument')
    ctx.trans()
    ctx.trace()
    ctx.state('time', T0, i0, inc)
    ctx.outcome(got)


def run_time(sc, ctx):
    if sc[0] == 'enum':
        _, r, t, i0, inc = sc
        for v in itertools.product([0.0, 0.5, 3.0], repeat=r * t):
            chk_time(ctx, np.array(v).reshape(r, t), i0, inc)
    else:
        _, r, t, i0, inc = sc
        chk_time(ctx, weyl((r, t), r) * 3, i0, inc)


def gen_best(tier):
    for n in range(1, 7 if tier == 'quick' else 9):
        for off in [0.0, -5.0, 1e6]:
            for d in [1, 2, 3]:
                yield ['enum', n, off, d]
    for n in [10, 33, 101, 250]:
        for p in [0, 1, n // 2, n - 1]:
            yield ['long', n, p, 2]


def run_best(sc, ctx):
    from bayeso.utils import utils_bo as B
    if sc[0] == 'enum':
        _, n, off, d = sc
        Ys = [np.array(v)[:, None] + off for v in itertools.product([-1.0, 0.0, 0.5], repeat=n)]
    else:
        _, n, p, d = sc
        y = weyl((n, 1), n)
        y[p, 0] = -3.0
        Ys = [y]
    X = weyl((n, d), n) * 4 - 2
    for Y in Ys:
        bx, by = B.get_best_acquisition_by_history(X.copy(), Y.copy())
        m = float(np.min(Y))
        ctx.check(float(by) == m, f'best response {by} but the smallest of {Y.ravel()[:12]} is {m}')
        ok = any(np.array_equal(X[i], bx) and Y[i, 0] == m for i in range(n))
        ctx.check(ok and np.shape(bx) == (d,), f'returned query {bx} is not a row with the smallest response, Y={Y.ravel()[:12]}')
        ctx.trans()
        ctx.trace()
        ctx.state('best', Y, d)
        ctx.outcome(by, bx)


def gen_norm(tier):
    for n in range(1, 6 if tier == 'quick' else 7):
        for scale in [1.0, 1e-6, 1e6, 0.1, 1e-9, 1e-13, 1e-200, 1e200]:
            for off in [0.0, -7.0, 1e3]:
                yield [n, scale, off]
    for n in [20, 101, 200]:
        yield [-n, 3.0, -50.0]


def run_norm(sc, ctx):
    from bayeso.utils import utils_bo as B
    n, scale, off = sc
    if n < 0:
        vs = [tuple(weyl((-n,), 5))]
    else:
        vs = itertools.product([-1.0, 0.0, 0.25, 3.0], repeat=n)
    for v in vs:
        Y = np.array(v)[:, None] * scale + off
        Y0 = Y.copy()
        got = B.normalize_min_max(Y)
        ctx.identical(Y, Y0, 'normalize_min_max changed its argument')
        want = ref.normalise(Y0)
        ctx.eq(got, want, f'normalize_min_max({Y0.ravel()[:8]})', rtol=1e-9, atol=1e-8)
        if float(np.min(Y0)) != float(np.max(Y0)):
            ctx.check(got.min() == 0.0 and abs(got.max() - 10.0) < 1e-9, f'range of the normalised responses is [{got.min()}, {got.max()}]')
            a, b = Y0.ravel(), got.ravel()
            ok = all((b[i] <= b[j]) for i in range(len(a)) for j in range(len(a)) if a[i] <= a[j]) if len(a) < 12 else \
                np.array_equal(np.argsort(a, kind='stable'), np.argsort(b, kind='stable'))
            ctx.check(ok, f'normalisation changed the order of {a[:8]}')
        else:
            ctx.identical(np.array(got), Y0, 'constant responses were changed')
        ctx.trans()
        ctx.trace()
        ctx.state('norm', Y0)


BOXES = [[0.0, 1.0], [-3.0, -1.0], [2.0, 2.0], [-1e3, 1e3], [0.25, 0.250001], [-5.0, 5.0]]


def gen_grid(tier):
    for d in range(1, 4):
        for num in range(1, 8):
            if num ** d > 400:
                continue
            for bs in itertools.product(range(len(BOXES)), repeat=d) if d < 3 else itertools.product([0, 1, 2, 3], repeat=3):
                yield [list(bs), num]
    for num in [1, 2, 3]:
        yield [[0, 1, 3, 5], num]
    yield [[0], 50]
    yield [[1], 101]
    yield [[3, 1], 25]


def run_grid(sc, ctx):
    from bayeso.utils import utils_common as U
    bs, num = sc
    R = np.array([BOXES[b] for b in bs])
    d = len(bs)
    for R_ in ([R] if d > 1 else [R, np.asfortranarray(R)]):
        got = U.get_grids(R_, num)
        ctx.check(got.shape == (num ** d, d), f'grid of {num} per dimension, d={d}: shape {got.shape}')
        axes = []
        for lo, hi in R:
            if num == 1:
                axes.append([lo])
            else:
                axes.append([lo + (hi - lo) * i / (num - 1) for i in range(num)])
        want = np.array(list(itertools.product(*axes)))
        ctx.check((got >= R[:, 0]).all() and (got <= R[:, 1]).all(), f'grid leaves the box {R.tolist()}')
        k = np.lexsort(np.round(got, 9).T[::-1])
        k2 = np.lexsort(np.round(want, 9).T[::-1])
        if num > 1:
            ctx.eq(got[k], want[k2], f'grid points for box {R.tolist()}, {num} per dimension', rtol=1e-9, atol=1e-8)
            for j in range(d):
                ctx.check(R[j, 0] in got[:, j] and R[j, 1] in got[:, j], f'grid misses an end of dimension {j} of {R.tolist()}')
        ctx.trans()
        ctx.trace()
        ctx.state('grid', R, num)


SCALES = [1e-9, 1e-6, 1e-3, 1e-2, 1.0, 40.0, 1e3, 1e5, 1e8]
FORMS = ['plain', 'int', 'float32', 'fortran', 'strided', 'readonly', 'reversed']


def formed(A, f):
    if f == 'int':
        return np.round(A).astype(np.int64)
    if f == 'float32':
        return A.astype(np.float32)
    if f == 'fortran':
        return np.asfortranarray(A)
    if f == 'strided':
        B = np.full((2 * A.shape[0], 2 * A.shape[1]), 77.0)
        B[::2, ::2] = A
        return B[::2, ::2]
    if f == 'reversed':
        return A[::-1, ::-1].copy()[::-1, ::-1]
    B = A.copy()
    if f == 'readonly':
        B.flags.writeable = False
    return B


def gen_scales(tier):
    for what in ['min', 'time', 'best', 'norm', 'grid']:
        for sc in SCALES:
            for off in [0.0, 1.0, -1e4]:
                yield [what, sc, off]


def run_scales(sc, ctx):
    """Magnitudes, offsets, data types and memory layouts; many rounds, evaluations and dimensions."""
    from bayeso.utils import utils_common as U
    from bayeso.utils import utils_bo as B
    what, scale, off = sc
    for f in FORMS:
        rt = 1e-5 if f == 'float32' else 1e-9
        mag = scale + abs(off)
        at = mag * (1e-5 if f == 'float32' else 1e-12)
        if what in ('min', 'time'):
            for r, t in [(1, 2), (2, 5), (4, 9), (300, 3), (1000, 2), (3, 1500)]:
                A = formed((10 * weyl((r, t), r) - 5) * scale + off if what == 'min' else 5 * weyl((r, t), r) * scale, f)
                A0 = np.array(A, dtype=float)
                for i0 in (1, t - 1):
                    if what == 'min':
                        got = U.get_minimum(A, i0)
                        acc = np.minimum.accumulate(A0, axis=1)[:, i0 - 1:]
                        sd = acc.std(0, ddof=1) if r > 1 else np.zeros(acc.shape[1])
                        want = (acc, acc.mean(0), sd, sd / np.sqrt(r))
                        ref_ = min_ref(A0, i0) if r * t < 60 else want
                        for g, w, n in zip(got, ref_, ['minima', 'mean', 'deviation', 'error']):
                            ctx.eq(g, w, f'{sc} {f} {r}x{t} num_init={i0}: {n}', rtol=rt, atol=at * 10)
                    else:
                        for inc in (True, False):
                            rows = A0[:, i0:] if inc else A0
                            want = np.concatenate([[0.0], np.cumsum(rows.mean(0))])
                            ctx.eq(U.get_time(A, i0, inc), want, f'{sc} {f} {r}x{t} num_init={i0} {inc}', rtol=rt, atol=at * t)
                    ctx.trans()
                ctx.check(np.array_equal(np.array(A, dtype=float), A0), f'{sc} {f}: argument changed')
        elif what == 'best':
            for n, d in [(1, 1), (3, 2), (5, 7), (40, 30), (800, 2), (1500, 1), (5000, 3)]:
              for pos in [None] if n < 100 else [None, 0, n // 2, n - 1]:
                X, Yv = formed((4 * weyl((n, d), n) - 2) * scale + off, f), (10 * weyl((n, 1), n + 1) - 5) * scale + off
                if pos is not None:
                    Yv[pos] = Yv.min() - scale
                Y = formed(Yv, f)
                bx, by = B.get_best_acquisition_by_history(X, Y)
                i = int(np.argmin(np.array(Y, dtype=float)))
                ctx.check(float(by) == float(Y[i, 0]) and any(np.array_equal(bx, X[j]) for j in range(n) if Y[j, 0] == Y[i, 0]), f'{sc} {f} n={n} d={d}: best query {bx}, {by}')
                ctx.trans()
        elif what == 'norm':
            for n in [2, 3, 7, 60, 1200, 5000]:
                Y = formed((10 * weyl((n, 1), n + 1) - 5) * scale + off, f)
                Y0 = np.array(Y, dtype=float)
                if Y0.max() - Y0.min() < 1e-7 * mag and Y0.max() != Y0.min() and f == 'float32':
                    continue
                got = B.normalize_min_max(Y)
                slop = 10 * (1e-6 if f == 'float32' else 1e-15) * mag / max(Y0.max() - Y0.min(), 1e-300) if Y0.max() != Y0.min() else 0
                ctx.eq(got, ref.normalise(Y0), f'{sc} {f} n={n}: normalised', rtol=rt, atol=1e-9 + 10 * slop)
                ctx.trans()
        else:
            more = [(11, 2), (12, 2), (30, 1), (2, 1)] if scale == 1.0 and f == FORMS[0] else []
            for d, num in [(1, 2), (2, 3), (3, 4), (5, 2), (8, 2), (1, 300), (1, 2000), (2, 40)] + more:
                R = np.sort(10 * weyl((d, 2), d) - 5, axis=1) * scale + off
                R = formed(R, f)
                R0 = np.array(R, dtype=float)
                got = U.get_grids(R, num)
                ctx.check(got.shape == (num ** d, d), f'{sc} {f} d={d} num={num}: shape {got.shape}')
                axes = [[lo + (hi - lo) * i / max(num - 1, 1) for i in range(num)] for lo, hi in R0]
                want = np.array(list(itertools.product(*axes)))
                w = np.maximum(R0[:, 1] - R0[:, 0], 1e-300)
                u = lambda P: (np.asarray(P, dtype=float) - R0[:, 0]) / w
                wide = np.all(w > 1e-6 * mag) and f != 'float32'
                if wide:
                    a, b = np.round(u(got) * (num - 1)).astype(int), np.round(u(want) * (num - 1)).astype(int)
                    ctx.check(np.array_equal(a[np.lexsort(a.T[::-1])], b[np.lexsort(b.T[::-1])]), f'{sc} {f} d={d} num={num}: combinations')
                    ctx.check(np.max(np.abs(u(got) * (num - 1) - a)) < 1e-6, f'{sc} {f} d={d} num={num}: values not equally spaced')
                lo, hi = R0[:, 0], R0[:, 1]
                ctx.check((got >= lo).all() and (got <= hi).all(), f'{sc} {f} d={d} num={num}: grid leaves the box')
                ctx.trans()
        ctx.trace()
        ctx.state(sc, f)
    ctx.outcome(what)


SPACES = [
    Space('scales', gen_scales, run_scales, 'magnitudes, data types, layouts, large sizes', chunk=2),
    Space('minimum', gen_min, run_min, 'accumulated minima over all response matrices'),
    Space('time', gen_time, run_time, 'accumulated times over all time matrices'),
    Space('best', gen_best, run_best, 'best query of all histories'),
    Space('normalise', gen_norm, run_norm, 'min-max normalisation of all response vectors'),
    Space('grid', gen_grid, run_grid, 'grids over all boxes and sizes'),
]
