"""C15: forest predictions are per-point and independent of batching and workers."""
import contextlib
import itertools
import math
import multiprocessing
import pickle
import time

import numpy as np

from mc import ref
from mc.core import Space, explore, weyl
from mc.props._rng import controlled

BOUNDS = {
    'quick': 'every tree of depth 1 and 2 over 2 features x 2 thresholds x 5 leaves in combinations of up to 3 trees, at all points on, between and outside the thresholds; '
        'batches of 1..301, 1001 and 3300 points around every multiple of the split size with real worker processes (3 delay patterns); every completion order of up to 4 (quick) worker results on a controlled pool with 1, 2, 3, 8 workers; up to 250 trees and 40 features, response scales 1e-9..1e8, 8 kinds of points, depth up to 40',
    'thorough': 'depth 3, up to 5 worker results (120 orders) and batches up to 1001',
}
ASSUMPTIONS = ['deviations are compared up to the error of computing a variance as a difference of squares (1e-14 of the squared size of the responses)',
    'completion orders are controlled where the pool is obtained as multiprocessing.Pool; otherwise only real pools are exercised']

LEAVES = [[1.0], [-2.0, 4.0], [3.0, 3.0, 3.0], [0.0, 10.0, 0.5, -7.0], [1e6, 1e6 + 1.0]]


def leaf(i):
    return [(np.array([0.1 * j, -0.2 * j]), np.array([y])) for j, y in enumerate(LEAVES[i % 5])]


def node(i, v, l, r):
    return {'index': i, 'value': v, 'left': l, 'right': r}


def trees1():
    return [node(i, v, leaf(a), leaf(b)) for i, v, (a, b) in itertools.product([0, 1], [0.0, 1.0], [(0, 1), (1, 2), (3, 0), (4, 2)])]


def trees2():
    out = []
    for k, (i, v) in enumerate(itertools.product([0, 1], [0.0, 1.0])):
        for j, w in itertools.product([0, 1], [0.0, 1.0]):
            out.append(node(i, v, node(j, w, leaf(k), leaf(k + 1)), leaf(k + 3)))
            out.append(node(i, v, leaf(k + 1), node(j, w, leaf(k + 2), leaf(k))))
            out.append(node(i, v, node(j, w, leaf(0), leaf(1)), node(1 - j, 1.0 - w, leaf(2), leaf(3))))
    return out


def trees3():
    t = trees2()
    return [node(i, v, t[a], t[b]) for i, v, (a, b) in itertools.product([0, 1], [0.0, 1.0], [(0, 5), (7, 3), (2, 40), (11, 23)])]


GRID = [-0.5, 0.0, 5e-324, 0.5, 1.0 - 2.0 ** -53, 1.0, 1.5]
POINTS = np.array(list(itertools.product(GRID, GRID)))


def judge(ctx, trees, X, mu, sd, tag):
    n = len(X)
    ctx.check(np.shape(mu) == (n, 1) and np.shape(sd) == (n, 1), f'{tag}: shapes {np.shape(mu)}, {np.shape(sd)}, expected {(n, 1)}')
    ctx.check(np.all(np.isfinite(mu)) and np.all(np.isfinite(sd)) and np.all(np.asarray(sd) >= 0), f'{tag}: not finite, or negative deviation')
    for i, x in enumerate(X):
        m, s = ref.forest_predict(trees, x)
        big = 1e-150 + max(float(np.max(np.abs(ref.tree_leaf(t, x)))) for t in trees)
        ctx.check(abs(mu[i, 0] - m) <= 1e-10 * big, f'{tag}: mean {mu[i, 0]} at {x.tolist()}, expected {m}')
        ctx.check(abs(sd[i, 0] ** 2 - s ** 2) <= 1e-10 * s * s + 1e-14 * big * big, f'{tag}: deviation {sd[i, 0]} at {x.tolist()}, expected {s}')


def all_trees(tier):
    t = trees1() + trees2()
    return t + trees3() if tier == 'thorough' else t


def gen_single(tier):
    for i in range(len(all_trees(tier))):
        yield [i]


def run_single(sc, ctx):
    """One tree, and each tree with every other: all points."""
    from bayeso.trees import trees_common as tc
    ts = all_trees(ctx.tier)
    a = ts[sc[0]]
    combos = [[a], [a, a], [a, a, a]] + [[a, b] for b in ts] + [[a, ts[(sc[0] + 7 * k) % len(ts)], ts[(3 * sc[0] + k) % len(ts)]] for k in range(6)]
    for j, trees in enumerate(combos):
        before = pickle.dumps(trees)
        mu, sd = tc.predict_by_trees(POINTS, trees)
        judge(ctx, trees, POINTS, mu, sd, f'tree {sc} combination {j}')
        ctx.check(pickle.dumps(trees) == before, f'tree {sc}: predicting changed the trees')
        ctx.trans(len(POINTS))
        ctx.trace()
        ctx.state(sc, j)
        ctx.outcome(np.round(mu, 6), np.round(sd, 4))
    ctx.sample(dict(tree=repr(a)[:200], points=POINTS[:3].tolist()))


def gen_sub(tier):
    ts = all_trees('quick')
    for i in range(0, len(ts), 3):
        yield [i]


def run_sub(sc, ctx):
    """Every ordered selection of up to 3 of 5 points, and repetitions: each point keeps its prediction."""
    from bayeso.trees import trees_common as tc
    ts = all_trees('quick')
    trees = [ts[sc[0]], ts[(sc[0] + 5) % len(ts)], ts[(sc[0] + 11) % len(ts)]]
    P = np.array([[0.0, 0.0], [0.5, 1.0], [1.0, -0.5], [1.5, 0.0], [-0.5, 1.5]])
    base = [tc.predict_by_trees(P[i:i + 1], trees) for i in range(5)]
    for k in (1, 2, 3):
        for ind in itertools.product(range(5), repeat=k):
            mu, sd = tc.predict_by_trees(P[list(ind)], trees)
            for j, i in enumerate(ind):
                ctx.check(abs(mu[j, 0] - base[i][0][0, 0]) <= 1e-12 * (1 + abs(mu[j, 0])) and abs(sd[j, 0] - base[i][1][0, 0]) <= 1e-9 * (1 + sd[j, 0]),
                    f'{sc} {ind}: point {i} predicted ({mu[j, 0]}, {sd[j, 0]}) in this batch, {base[i]} alone')
            ctx.trans(k)
            ctx.trace()
            ctx.state(sc, ind)


def forest(seed=3, d=2, n=12, num=7):
    from bayeso.trees import get_random_forest
    np.random.seed(seed)
    X = 3.0 * weyl((n, d), seed) - 1.0
    return get_random_forest(X, 8 * weyl((n, 1), 2) - 3, num, 4, 1, d)


SIZES = [1, 2, 99, 100, 101, 102, 150, 199, 200, 201, 250, 299, 300, 301]


def gen_batch(tier):
    for n in SIZES + ([400, 401, 500, 999, 1000, 1001, 3300] if tier == 'thorough' else [1001, 3300]):
        for pat in ['none', 'firstslow', 'alternate']:
            if pat == 'none' or 100 < n < 3000:
                yield [n, pat]


def run_batch(sc, ctx):
    """Real worker processes; a delay in chosen chunks changes the order in which they finish."""
    from bayeso.trees import trees_common as tc
    from bayeso import bo
    n, pat = sc
    trees = forest()
    X = 3.0 * weyl((n, 2), 8) - 1.0
    X[:, 0] = np.linspace(-1.0, 2.0, n)
    real = tc.unit_predict_by_trees

    def slow(X, list_trees):
        c = int(round(100 * (float(X[0, 0]) + 1.0)))
        time.sleep(0.15 * math.exp(-c / 60.0) if pat == 'firstslow' else 0.1 * (c % 2))
        return real(X, list_trees)
    slow.__module__, slow.__qualname__, slow.__name__ = tc.__name__, 'unit_predict_by_trees', 'unit_predict_by_trees'
    try:
        if pat != 'none':
            tc.unit_predict_by_trees = slow
        mu, sd = tc.predict_by_trees(X, trees)
    finally:
        tc.unit_predict_by_trees = real
    judge(ctx, trees, X, mu, sd, f'{sc}')
    if pat == 'none':
        mu1, sd1 = real(X, trees)
        judge(ctx, trees, X, mu1, sd1, f'{sc} unit_predict_by_trees')
        m = bo.BOwTrees(np.array([[-1.0, 2.0], [-1.0, 2.0]]), 'rf')
        mu2, sd2 = m.compute_posteriors(X, trees)
        ctx.check(np.shape(mu2) == (n,) and np.shape(sd2) == (n,), f'{sc}: posterior shapes {np.shape(mu2)}')
        ctx.check(np.allclose(mu2, mu[:, 0], rtol=1e-12, atol=1e-12) and np.allclose(sd2, sd[:, 0], rtol=1e-9, atol=1e-9), f'{sc}: posterior of the model object differs')
    ctx.trans(n)
    ctx.trace()
    ctx.state(sc)
    ctx.outcome(np.round(mu, 6))


# ------------------------------------------------------------------ controlled pool

class Result:
    def __init__(self, pool, i):
        self.pool, self.i = pool, i

    def get(self, timeout=None):
        self.pool._drain()
        return self.pool.value(self.i)

    def wait(self, timeout=None):
        self.pool._drain()

    def ready(self):
        self.pool._drain()
        return True

    def successful(self):
        return self.pool.done[self.i][0]


class FakePool:
    """Runs the submitted tasks in an order picked by the chooser; results are handed over
    the way multiprocessing does for each call."""
    chooser = None
    used = 0

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **kw):
        FakePool.used += 1
        self.done, self.pending, self.callbacks = {}, [], {}
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass
    terminate = join = close

    def _submit(self, fn, args, kw=None, cb=None):
        i = len(self.done) + len(self.pending)
        self.pending.append((i, pickle.dumps((fn, args, kw or {}))))
        self.callbacks[i] = cb
        return i

    def _drain(self):
        order = []
        while self.pending:
            i, blob = self.pending.pop(FakePool.chooser.choose(len(self.pending), 'finishes next'))
            fn, args, kw = pickle.loads(blob)
            try:
                self.done[i] = (True, pickle.loads(pickle.dumps(fn(*args, **kw))))
                if self.callbacks[i]:
                    self.callbacks[i](self.done[i][1])
            except Exception as e:
                self.done[i] = (False, e)
            order.append(i)
        return order

    def value(self, i):
        ok, v = self.done[i]
        if not ok:
            raise v
        return v

    def _all(self, fn, tasks):
        ids = [self._submit(fn, t) for t in tasks]
        order = self._drain()
        return ids, order

    def map(self, fn, it, chunksize=None):
        ids, _ = self._all(fn, [(x,) for x in it])
        return [self.value(i) for i in ids]

    def starmap(self, fn, it, chunksize=None):
        ids, _ = self._all(fn, [tuple(x) for x in it])
        return [self.value(i) for i in ids]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        _, order = self._all(fn, [(x,) for x in it])
        return iter([self.value(i) for i in order])

    def apply(self, fn, args=(), kwds=None):
        i = self._submit(fn, tuple(args), kwds)
        self._drain()
        return self.value(i)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        return Result(self, self._submit(fn, tuple(args), kwds, callback))

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._many(fn, [(x,) for x in it])

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._many(fn, [tuple(x) for x in it])

    def _many(self, fn, tasks):
        ids = [self._submit(fn, t) for t in tasks]
        pool = self

        class R(Result):
            def get(self, timeout=None):
                pool._drain()
                return [pool.value(i) for i in ids]
        return R(self, ids[0])


@contextlib.contextmanager
def fake_pool(ch, cpus):
    import multiprocessing.pool as mpool
    olds = (multiprocessing.Pool, mpool.Pool, multiprocessing.cpu_count)
    FakePool.chooser, FakePool.used = ch, 0
    try:
        multiprocessing.Pool = FakePool
        mpool.Pool = FakePool
        multiprocessing.cpu_count = lambda: cpus
        yield FakePool
    finally:
        multiprocessing.Pool, mpool.Pool, multiprocessing.cpu_count = olds


def gen_order(tier):
    for n, cpus in itertools.product([101, 200, 201, 250, 300, 301, 350] + ([399, 400, 401, 500] if tier == 'thorough' else []), [1, 2, 3, 8]):
        yield [n, cpus]


def run_order(sc, ctx):
    from bayeso.trees import trees_common as tc
    n, cpus = sc
    trees = forest(num=2)
    X = 3.0 * weyl((n, 2), 8) - 1.0

    def body(ch):
        with fake_pool(ch, cpus) as p:
            out = tc.predict_by_trees(X, trees)
            return out, p.used
    want = None
    for choices, ((mu, sd), used) in explore(body, strict=False):
        tag = f'{sc} workers finish in order {choices}'
        if want is None:
            judge(ctx, trees, X, mu, sd, tag)
            want = (np.array(mu), np.array(sd))
        ctx.check(np.shape(mu) == want[0].shape and np.array_equal(mu, want[0]) and np.array_equal(sd, want[1]), f'{tag}: the predictions change')
        ctx.trans(n)
        ctx.trace()
        ctx.state(sc, tuple(choices))
        ctx.outcome(np.round(mu[:5], 6), n)


def gen_sigma(tier):
    vals = [0.0, 1.0, -2.5, 1e6]
    sig = [0.0, 0.5, 3.0]
    for k in (1, 2, 3):
        for m in itertools.product(vals, repeat=k):
            yield [list(m)]


def run_sigma(sc, ctx):
    from bayeso.trees import trees_common as tc
    m = sc[0]
    for s in itertools.product([0.0, 0.5, 3.0], repeat=len(m)):
        for lo in (None, 0.0, 1.0):
            kw = {} if lo is None else dict(min_sigma=lo)
            got = float(tc.compute_sigma(np.array(m), np.array(s), **kw))
            e = [max(v, lo or 0.0) for v in s]
            mean = sum(m) / len(m)
            want2 = sum(v * v for v in e) / len(e) + sum((v - mean) ** 2 for v in m) / len(m)
            big = 1 + max(abs(v) for v in m)
            ctx.check(got >= 0 and abs(got * got - want2) <= 1e-10 * want2 + 1e-14 * big * big, f'{sc} {s} min={lo}: deviation {got}, expected {math.sqrt(want2)}')
            ctx.trans()
            ctx.state(sc, s, lo)
    ctx.trace()


def gen_real(tier):
    for d, n in itertools.product([1, 2, 3], [1, 2, 4, 6]):
        yield [d, n]


def run_real(sc, ctx):
    """Trees as they are built, predicted at their own rows and thresholds."""
    from bayeso.trees import trees_common as tc, get_random_forest, get_generic_trees
    d, n = sc
    X = np.round(4 * weyl((n, d), 1)) / 2
    Y = 8 * weyl((n, 1), 2) - 3
    for seed in range(10 if ctx.tier == 'quick' else 60):
        np.random.seed(seed)
        for trees in (get_random_forest(X, Y, 4, 3, 1, 1), get_generic_trees(X, Y, 3, 4, 1, 1.0, False, d, True)):
            T = set()

            def walk(t):
                if isinstance(t, dict):
                    T.add((t['index'], float(t['value'])))
                    walk(t['left'])
                    walk(t['right'])
            for t in trees:
                walk(t)
            P = [x for x in X]
            for i, v in T:
                p = X[0].copy()
                p[i] = v
                P.append(p)
            P = np.array(P)
            mu, sd = tc.predict_by_trees(P, trees)
            judge(ctx, trees, P, mu, sd, f'{sc} seed={seed}')
            ctx.trans(len(P))
            ctx.trace()
            ctx.state(sc, seed, len(trees))


def gen_ext(tier):
    for d, num, seed in itertools.product([1, 4, 15, 40], [1, 5, 33, 110, 250], range(2)):
        yield ['forest', d, num, seed]
    for ys, xs in itertools.product([1e-9, 1e-3, 1.0, 1e4, 1e8], [1e-9, 1.0, 1e6]):
        yield ['scale', ys, xs, 0]
    for kind in ['int', 'float32', 'F', 'strided', 'readonly', 'reversed', 'outside', 'same']:
        yield ['points', kind, 0, 0]
    for depth, leaf_ in itertools.product([1, 3, 12, 40], [1, 4, 25]):
        yield ['shape', depth, leaf_, 0]


def run_ext(sc, ctx):
    """Many trees and dimensions, magnitudes, kinds of points, deep trees and big leaves."""
    from bayeso.trees import trees_common as tc, get_random_forest, get_generic_trees
    from bayeso import bo
    what = sc[0]
    n, d, num, depth, leaf_, seed, ys, xs_ = 30, 3, 6, 5, 1, 1, 1.0, 1.0
    if what == 'forest':
        d, num, seed = sc[1:]
    elif what == 'scale':
        ys, xs_ = sc[1:3]
    elif what == 'shape':
        depth, leaf_ = sc[1:3]
        n = 90
    X, Y = xs_ * (3.0 * weyl((n, d), 1) - 1.0), ys * (8 * weyl((n, 1), 2) - 3)
    np.random.seed(seed)
    for j, trees in enumerate((get_random_forest(X, Y, num, depth, leaf_, max(1, d // 2)), get_generic_trees(X, Y, num, depth, leaf_, 0.7, False, d, True))):
        P = xs_ * (4.0 * weyl((23 if num > 40 else 45, d), 7) - 1.5)
        P[:5] = X[:5]
        Q = P
        if what == 'points':
            k = sc[1]
            if k == 'int':
                P = np.round(P)
                Q = P.astype(int)
            elif k == 'float32':
                Q = P.astype(np.float32)
                P = Q.astype(float)
            elif k == 'F':
                Q = np.asfortranarray(P)
            elif k == 'strided':
                Q = np.repeat(P, 2, axis=0)[::2]
            elif k == 'readonly':
                Q = P.copy()
                Q.setflags(write=False)
            elif k == 'reversed':
                P = P[::-1].copy()
                Q = P[::-1].copy()[::-1]
            elif k == 'outside':
                P = Q = P * 1e6
            else:
                P[:] = P[7]
                Q = P
        mu, sd = tc.predict_by_trees(Q, trees)
        judge(ctx, trees, P, mu, sd, f'{sc} {j}')
        b = np.column_stack([np.minimum(X.min(0), P.min(0)) - 1e-3, np.maximum(X.max(0), P.max(0)) + 1e-3])
        gm, gs = bo.BOwTrees(b, 'rf').compute_posteriors(Q, trees)
        ctx.check(np.shape(gm) == (len(P),) and np.shape(gs) == (len(P),), f'{sc} {j}: posterior shapes {np.shape(gm)}, {np.shape(gs)}')
        ctx.eq(gm, mu[:, 0], f'{sc} {j}: mean of the model object', rtol=1e-9, atol=1e-12 * ys)
        ctx.eq(gs, sd[:, 0], f'{sc} {j}: deviation of the model object', rtol=1e-7, atol=1e-9 * ys)
        ctx.trans(len(P))
        ctx.trace()
        ctx.state(*sc, j)


SPACES = [
    Space('extents', gen_ext, run_ext, 'many trees and dimensions, magnitudes, kinds of points', chunk=2),
    Space('trees', gen_single, run_single, 'all small trees and combinations at all points', chunk=2),
    Space('selections', gen_sub, run_sub, 'every ordered selection of points', chunk=2),
    Space('real pool', gen_batch, run_batch, 'batches around the split sizes with real workers', chunk=2),
    Space('completion orders', gen_order, run_order, 'every order in which workers finish', chunk=1),
    Space('deviation', gen_sigma, run_sigma, 'the deviation formula'),
    Space('built trees', gen_real, run_real, 'trees as built, at their own thresholds', chunk=1),
]
