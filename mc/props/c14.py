"""C14: every tree partitions its training data and respects its limits."""
import itertools

import numpy as np

from mc.core import Space, explore, weyl
from mc.props._rng import controlled

BOUNDS = {
    'quick': 'every data set over {0,1,2} with up to 3 rows in one dimension and 2 rows in two, every outcome of all random draws (with replacement: every bootstrap); '
        'structured data with up to 9 rows, 3 dimensions, all limits, outcomes within 1 deviation of the default one (2 for 4 rows in one dimension); up to 70 rows with 6 enumerated generator states; every subsample of up to 4 rows; response scales 1e-9..1e4 x input scales 1e-9..1e8, up to 1300 rows, 60 features, 100 trees, 30 limits, 15 sampling ratios, 5 array kinds',
    'thorough': '4 rows in one and 3 in two dimensions exhaustively; 3 deviations (2 for 9 rows); 30 generator states, up to 200 rows',
}
ASSUMPTIONS = ['numpy.random.choice/uniform/randint/permutation are replaced by enumerated answers: every subset (both orders) or index tuple, and for locations the lower end, two inner points and a point next to the upper end',
    'where the generator is not consulted through these functions the runs are still judged, but not exhaustive']


def variance(y):
    m = sum(y) / len(y)
    return sum((v - m) ** 2 for v in y) / len(y)


def rows_of(leaf):
    return [(tuple(np.asarray(x, dtype=float).tolist()), float(np.ravel(y)[0])) for x, y in leaf]


def gather(ctx, node, tag):
    """Rows below a node, each once."""
    if isinstance(node, list):
        return rows_of(node)
    ctx.check(isinstance(node, dict) and {'index', 'value', 'left', 'right'} <= set(node), f'{tag}: malformed node {type(node)} {list(node)[:6]}')
    L, R = gather(ctx, node['left'], tag), gather(ctx, node['right'], tag)
    i, v = node['index'], float(node['value'])
    for side in (node['left'], node['right']):
        ctx.check(not isinstance(side, list) or len(side) > 0, f'{tag}: empty leaf')
    unsplit = isinstance(node['left'], list) and isinstance(node['right'], list) and sorted(L) == sorted(R) \
        and (all(x[i] < v for x, _ in L) or all(x[i] >= v for x, _ in L))
    if unsplit:
        return L
    ctx.check(all(x[i] < v for x, _ in L), f'{tag}: a row left of x[{i}] < {v} is {[x for x, _ in L]}')
    ctx.check(all(x[i] >= v for x, _ in R), f'{tag}: a row right of x[{i}] >= {v} is {[x for x, _ in R]}')
    return L + R


def judge_node(ctx, node, d, depth, depth_max, size_min, nf, rand, tag, root=True, key=None):
    rows = gather(ctx, node, tag)
    i, v = node['index'], float(node['value'])
    ctx.check(isinstance(i, (int, np.integer)) and not isinstance(i, bool) and 0 <= i < d, f'{tag}: split feature {i!r}')
    col = [x[i] for x, _ in rows]
    ctx.check(min(col) <= v <= max(col), f'{tag}: split value {v} outside the range [{min(col)}, {max(col)}] of its rows')
    ctx.check(depth <= max(depth_max, 1), f'{tag}: a split at depth {depth}, limit {depth_max}')
    if not root:
        ctx.check(len(rows) > size_min, f'{tag}: a node with {len(rows)} rows was split, minimum leaf size {size_min}')
    L = [y for x, y in rows if x[i] < v]
    R = [y for x, y in rows if x[i] >= v]
    cuts = {}
    for j in range(d):
        u = sorted(set(x[j] for x, _ in rows))
        cuts[j] = [0.5 * (a + b) for a, b in zip(u, u[1:]) if a < 0.5 * (a + b)]      # (neighbouring floats may have no midpoint)
    if not rand:
        sc = lambda j, c: variance([y for x, y in rows if x[j] < c]) + variance([y for x, y in rows if x[j] >= c])
        slack = 1e-9 * max(abs(y) for _, y in rows) ** 2
        if any(cuts.values()) and nf == d and all(len(c) <= 20 for c in cuts.values()):
            best = min(sc(j, c) for j in cuts for c in cuts[j])
            ctx.check(bool(L) and bool(R), f'{tag}: node with {len(rows)} rows was not split although it can be, best score {best}', key)
            if L and R:
                ctx.check(variance(L) + variance(R) <= best + slack, f'{tag}: split x[{i}] < {v} scores {variance(L) + variance(R)}, the best midpoint {best}', key)
        if cuts[i]:
            w = max(col) - min(col)
            ctx.check(bool(L) and bool(R), f'{tag}: feature {i} can be split but was not at {v}', key)
            if L and R:
                ctx.check(any(abs(v - c) <= 1e-9 * (w + abs(c)) for c in cuts[i]), f'{tag}: split value {v} is not a midpoint of {sorted(set(col))}')
                mine = variance(L) + variance(R)
                better = sum(1 for c in cuts[i] if sc(i, c) < mine - slack)
                ctx.check(better <= max(0, len(cuts[i]) - 20), f'{tag}: {better} of {len(cuts[i])} midpoints of feature {i} are better than {v}')
        elif nf == d:
            ctx.check(not any(cuts.values()), f'{tag}: constant feature {i} chosen although another can be split', key)
    if not L or not R:
        ctx.check(isinstance(node['left'], list) and isinstance(node['right'], list), f'{tag}: a node that does not separate its rows has further splits')
        return rows
    for side in ('left', 'right'):
        ch = node[side]
        if isinstance(ch, list):
            ctx.check(len(ch) <= size_min or depth >= depth_max, f'{tag}: a leaf of {len(ch)} rows at depth {depth} was not split further (depth limit {depth_max}, leaf size {size_min})')
        else:
            judge_node(ctx, ch, d, depth + 1, depth_max, size_min, nf, rand, tag, False, key)
    return rows


def judge(ctx, tree, X, Y, drawn, num, replace, depth_max, size_min, nf, rand, tag, key=None):
    d = X.shape[1]
    rows = judge_node(ctx, tree, d, 1, depth_max, size_min, nf, rand, tag, key=key)
    data = [(tuple(x.tolist()), float(y[0])) for x, y in zip(np.asarray(X, dtype=float), np.asarray(Y, dtype=float))]
    ctx.check(len(rows) == num, f'{tag}: leaves hold {len(rows)} rows, {num} were to be drawn')
    for r in rows:
        ctx.check(r in data, f'{tag}: a leaf holds {r}, which is not a row of the data')
    if not replace:
        left = list(data)
        for r in rows:
            ctx.check(r in left, f'{tag}: row {r} appears twice')
            left.remove(r)
    if drawn is not None:
        ctx.check(sorted(rows) == sorted(drawn), f'{tag}: leaves hold {sorted(rows)}, drawn {sorted(drawn)}')
    for x, y in rows:
        n = tree
        while isinstance(n, dict):
            n = n['left'] if x[n['index']] < n['value'] else n['right']
        ctx.check((x, y) in rows_of(n), f'{tag}: training row {(x, y)} is routed to a leaf that does not hold it: {rows_of(n)}')


class Drawn:
    """Watches the public subsampling function."""
    def __init__(self):
        from bayeso.trees import trees_common as tc
        self.tc, self.real, self.log = tc, tc.subsample, []

    def __enter__(self):
        def subsample(*a, **k):
            r = self.real(*a, **k)
            self.log.append([(tuple(np.asarray(x, dtype=float).tolist()), float(y[0])) for x, y in zip(*r)])
            return r
        self.tc.subsample = subsample
        return self

    def __exit__(self, *a):
        self.tc.subsample = self.real


def build(X, Y, ntrees, depth, size, ratio, replace, nf, rand, forest=False):
    from bayeso.trees import trees_generic_trees, trees_random_forest
    with Drawn() as dr:
        if forest:
            t = trees_random_forest.get_random_forest(X, Y, ntrees, depth, size, nf)
        else:
            t = trees_generic_trees.get_generic_trees(X, Y, ntrees, depth, size, ratio, replace, nf, rand)
    return t, dr.log


def go(ctx, sc, X, Y, ntrees, depth, size, ratio, replace, nf, rand, forest=False, deviations=None, key=None):
    num = int(len(X) * ratio)
    if num == 0:
        return
    X0, Y0 = X.copy(), Y.copy()

    def body(ch):
        with controlled(ch) as c:
            t, log = build(X, Y, ntrees, depth, size, ratio, replace, nf, rand, forest)
        return t, log
    for choices, (trees, log) in explore(body, deviations=deviations, strict=False, max_runs=200000):
        if choices == 'CAPPED':
            ctx.capped.append(sc)
            break
        tag = f'{sc} depth={depth} leaf={size} ratio={ratio} replace={replace} features={nf} random={rand} draws={choices[:40]}'
        ctx.check(isinstance(trees, list) and len(trees) == ntrees, f'{tag}: {len(trees)} trees')
        for i, t in enumerate(trees):
            judge(ctx, t, X0, Y0, log[i] if len(log) == ntrees else None, num, replace, depth, size, nf, rand, tag, key)
        ctx.trans(len(choices) + 1)
        ctx.trace()
        ctx.state(sc, depth, size, ratio, replace, nf, rand, tuple(choices))
        ctx.outcome(repr(trees)[:3000])
    ctx.identical(X, X0, f'{sc}: inputs changed')
    ctx.identical(Y, Y0, f'{sc}: outputs changed')


YS = {'distinct': [0.3, -1.0, 4.0, 1.5, -2.2], 'tied': [1.0, 1.0, -1.0, -1.0, 1.0], 'const': [2.0] * 5}


def gen_small(tier):
    big = tier == 'thorough'
    for n, d in [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2)] + ([(4, 1), (3, 2)] if big else []):
        for x in itertools.product([0.0, 1.0, 2.0], repeat=n * d):
            if n * d >= 4 and x[0] != min(x):       # the alphabet is symmetric enough: fix the smallest first
                continue
            yield [n, d, list(x)]


def run_small(sc, ctx):
    n, d, x = sc
    X = np.array(x).reshape(n, d)
    for yk in YS:
        Y = np.array(YS[yk][:n])[:, None]
        for depth, size, nf in itertools.product([1, 2, 3], [1, 2], range(1, d + 1)):
            if depth == 3 and n < 3 or size == 2 and n < 3:
                continue
            tag = sc + [yk]
            if n < 4:
                go(ctx, tag, X, Y, 1, depth, size, 1.0, True, nf, False, forest=True)
            go(ctx, tag, X, Y, 1, depth, size, 1.0, False, nf, False)
            go(ctx, tag, X, Y, 1, depth, size, 1.0, False, nf, True)
    ctx.sample(dict(X=X.tolist(), Y=YS['distinct'][:n]))


KINDS = ['plain', 'onecol', 'dup', 'constcol', 'alldup', 'adjacent', 'neg', 'int']


def structured(n, d, kind):
    X = np.round(10 * weyl((n, d), 3)) / 2 - 1.0
    if kind == 'plain':
        X = 4 * weyl((n, d), 3) - 2
    if kind == 'constcol':
        X[:, 0] = 1.5
    elif kind == 'onecol':
        X[:, -1] = 0.0
    elif kind == 'alldup':
        X[:] = X[0]
    elif kind == 'dup':
        X[n // 2:] = X[:n - n // 2]
    elif kind == 'adjacent':
        X = 1.0 + np.round(3 * weyl((n, d), 3)) * 2.0 ** -52
    elif kind == 'neg':
        X = -1e6 * weyl((n, d), 5)
    elif kind == 'int':
        X = np.round(3 * weyl((n, d), 1)).astype(float)
    return X


def gen_mid(tier):
    for n, d, kind in itertools.product([4, 6, 9], [1, 2, 3], KINDS):
        for nf in range(1, d + 1):
            yield [n, d, kind, nf]


def run_mid(sc, ctx):
    n, d, kind, nf = sc
    X = structured(n, d, kind)
    Y = (8 * weyl((n, 1), 2) - 3)
    if kind == 'int':
        Y = np.round(Y)
    dev = (3 if n < 9 else 2) if ctx.tier == 'thorough' else (1 if n > 4 or d > 1 else 2)
    for (depth, size), rand, (ratio, rep) in itertools.product([(1, 1), (2, 1), (5, 1), (3, 2), (4, 3), (9, n)], [False, True], [(1.0, True), (1.0, False), (0.5, False), (1.5, True), (0.75, True)]):
        if ctx.tier == 'quick' and (depth in (2, 9) and (rand or ratio != 1.0) or n == 6 and ratio in (0.5, 1.5) or n == 9 and kind in ('neg', 'onecol', 'int')):
            continue
        go(ctx, sc, X, Y, 1, depth, size, ratio, rep, nf, rand, deviations=dev if (depth, size) != (5, 1) or rand else 1)
    go(ctx, sc, X, Y, 3, 3, 1, 1.0, True, nf, False, forest=True, deviations=1)


def gen_large(tier):
    for n, d, kind in itertools.product([21, 22, 23, 40, 70] + ([200] if tier == 'thorough' else []), [1, 3], ['plain', 'dup', 'neg']):
        for nf in (range(1, d + 1)):
            yield [n, d, kind, nf]


def run_large(sc, ctx):
    n, d, kind, nf = sc
    X, Y = structured(n, d, kind), 8 * weyl((n, 1), 2) - 3
    for seed in range(30 if ctx.tier == 'thorough' else 6):
        for depth, size, rand in [(1, 1, False), (5, 1, False), (12, 4, False), (6, 2, True)]:
            for ratio, rep in [(1.0, True), (0.6, False)]:
                np.random.seed(seed)
                trees, log = build(X, Y, 2, depth, size, ratio, rep, nf, rand)
                for i, t in enumerate(trees):
                    judge(ctx, t, X, Y, log[i] if len(log) == 2 else None, int(n * ratio), rep, depth, size, nf, rand, f'{sc} seed={seed} {depth} {size} {rand} {ratio}')
                ctx.trans(2)
                ctx.trace()
                ctx.state(sc, seed, depth, size, rand, ratio)


def gen_sub(tier):
    for n, ratio, rep in itertools.product([1, 2, 3, 4], [0.25, 0.34, 0.5, 0.75, 0.99, 1.0, 1.5, 2.0], [True, False]):
        if (rep or ratio <= 1.0) and int(n * ratio) > 0 and (not rep or n ** int(n * ratio) <= 5000):
            yield [n, ratio, rep]


def run_sub(sc, ctx):
    from bayeso.trees import trees_common
    n, ratio, rep = sc
    X = np.arange(2.0 * n).reshape(n, 2)
    Y = -1.0 - np.arange(float(n))[:, None]

    def body(ch):
        with controlled(ch):
            return trees_common.subsample(X, Y, ratio, rep)
    seen = set()
    for choices, (a, b) in explore(body, strict=False):
        k = int(n * ratio)
        ctx.check(a.shape == (k, 2) and b.shape == (k, 1), f'{sc}: shapes {a.shape}, {b.shape}, expected {k} rows')
        ind = [int(round(-1.0 - v)) for v in b[:, 0]]
        for r, i in zip(a, ind):
            ctx.check(0 <= i < n and np.array_equal(r, X[i]), f'{sc}: row {r.tolist()} with response {b.ravel().tolist()} is not a row of the data')
        ctx.check(rep or len(set(ind)) == k, f'{sc}: repetition {ind}')
        seen.add(tuple(sorted(ind)))
        ctx.trans()
        ctx.trace()
        ctx.state(sc, tuple(choices))
        ctx.outcome(n, tuple(ind))


def gen_bo(tier):
    for d, seed in itertools.product([1, 2, 3, 4, 5, 9], range(6 if tier == 'quick' else 20)):
        yield [d, seed]


def run_bo(sc, ctx):
    """The forest used by an optimisation step."""
    from bayeso import bo
    d, seed = sc
    m = bo.BOwTrees(np.array([[-3.0, 3.0]] * d), 'rf')
    for n, kind in [(1, 'plain'), (3, 'plain'), (8, 'dup'), (25, 'plain')]:
        X, Y = structured(n, d, kind), 8 * weyl((n, 1), 2) - 3
        for kw in ({}, dict(num_trees=3, depth_max=2, size_min_leaf=3)):
            np.random.seed(seed)
            with Drawn() as dr:
                trees = m.get_trees(X, Y, **kw)
            ctx.check(len(trees) == kw.get('num_trees', 100), f'{sc}: {len(trees)} trees')
            for i, t in enumerate(trees):
                judge(ctx, t, X, Y, dr.log[i] if len(dr.log) == len(trees) else None, n, True, kw.get('depth_max', 5), kw.get('size_min_leaf', 1), int(np.sqrt(d)), False, f'{sc} n={n} {kw}')
            ctx.trans(len(trees))
            ctx.trace()
            ctx.state(sc, n, len(trees))


def gen_scale(tier):
    yield ['penalty', 3e4]
    yield ['penalty', 3e5]


def run_scale(sc, ctx):
    """Responses so large that the fixed penalty for an empty side is no longer dominant."""
    s = sc[1]
    X = np.column_stack([np.full(6, 0.5), np.arange(6.0)])
    Y = s * np.array([0.0, 1, -1, 1, -1, 0])[:, None]
    go(ctx, sc, X, Y, 1, 1, 1, 1.0, False, 2, False, key='split-empty-side-penalty')


def gen_ext(tier):
    for ys, off, xs_ in itertools.product([1e-9, 1e-4, 1.0, 1e3, 1e4], [0.0, 5.0], [1e-9, 1.0, 1e8]):
        yield ['scale', ys, off, xs_]
    for n, d, nf in [(120, 2, 2), (120, 12, 3), (270, 1, 1), (30, 30, 5), (30, 30, 30), (15, 60, 7), (40, 10, 9), (520, 2, 1), (1300, 1, 1)]:
        yield ['size', n, d, nf]
    for depth, size in itertools.product([1, 2, 7, 20, 60], [1, 2, 5, 10, 30, 100]):
        yield ['limits', depth, size, 0]
    for ratio, rep in itertools.product([0.04, 0.1, 0.3, 0.66, 0.97, 1.0, 2.5, 7.0], [True, False]):
        if rep or ratio <= 1.0:
            yield ['draws', ratio, rep, 0]
    for kind in ['int', 'F', 'strided', 'readonly', 'intY']:
        yield ['arrays', kind, 0, 0]
    for num in (1, 2, 5, 8, 31, 100):
        yield ['trees', num, 0, 0]


def run_ext(sc, ctx):
    """Magnitudes, sizes, limits, sampling ratios, kinds of arrays, numbers of trees."""
    what = sc[0]
    n, d, nf, depth, size, num, ys, off, xs_, ratios = 26, 3, None, 5, 1, 2, 1.0, 0.0, 1.0, [(1.0, True), (0.6, False)]
    if what == 'scale':
        ys, off, xs_ = sc[1:]
    elif what == 'size':
        n, d, nf = sc[1:]
    elif what == 'limits':
        depth, size = sc[1:3]
        n = 110
    elif what == 'draws':
        ratios = [(sc[1], sc[2])]
        n = 50
    elif what == 'trees':
        num = sc[1]
    X, Y = xs_ * (4 * weyl((n, d), 3) - 2), ys * (8 * weyl((n, 1), 2) - 3 + off)
    A, B = X, Y
    if what == 'arrays':
        k = sc[1]
        if k == 'int':
            X = np.round(5 * X)
            A = X.astype(int)
        elif k == 'intY':
            Y = np.round(Y)
            B = Y.astype(int)
        elif k == 'float32':
            A, B = X.astype(np.float32), Y.astype(np.float32)
            X, Y = A.astype(float), B.astype(float)
        elif k == 'F':
            A = np.asfortranarray(X)
        elif k == 'strided':
            A, B = np.repeat(X, 2, axis=0)[::2], np.repeat(Y, 3, axis=0)[::3]
        else:
            A, B = X.copy(), Y.copy()
            A.setflags(write=False)
            B.setflags(write=False)
    for seed, (ratio, rep), rand in itertools.product(range(2), ratios, [False, True]):
        for f in ([nf] if nf else sorted({1, (d + 1) // 2, d})):
            np.random.seed(seed)
            forest_ = (ratio, rep, rand) == (1.0, True, False) and seed == 1
            trees, log = build(A, B, num, depth, size, ratio, rep, f, rand, forest=forest_)
            tag = f'{sc} seed={seed} ratio={ratio} replace={rep} features={f} random={rand}'
            ctx.check(len(trees) == num, f'{tag}: {len(trees)} trees')
            for i, t in enumerate(trees):
                judge(ctx, t, X, Y, log[i] if len(log) == num else None, int(n * ratio), rep, depth, size, f, rand, tag)
            ctx.trans(num)
            ctx.trace()
            ctx.state(tag)


SPACES = [
    Space('extents', gen_ext, run_ext, 'magnitudes, sizes, limits, sampling ratios, kinds of arrays', chunk=1),
    Space('small', gen_small, run_small, 'all small data sets, all outcomes of the random draws'),
    Space('structured', gen_mid, run_mid, 'structured data, all limits, outcomes within a deviation bound', chunk=1),
    Space('large', gen_large, run_large, 'more than twenty midpoints, enumerated generator states', chunk=1),
    Space('subsample', gen_sub, run_sub, 'all subsamples'),
    Space('forest', gen_bo, run_bo, 'forests of the model object', chunk=1),
    Space('scale', gen_scale, run_scale, 'very large responses', chunk=1),
]
