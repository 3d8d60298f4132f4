"""C16: Thompson sampling queries the minimiser of a posterior sample."""
import contextlib
import inspect
import itertools

import numpy as np

from mc import ref
from mc.core import Space
from mc.props import _loop
from mc.props._step import BOXES, EXTREME, SAMPLERS, box, data, large

BOUNDS = {
    'quick': 'one step: every position of the minimum among up to 6 candidates (the ends and the middle of up to 300) x value patterns x 5 samplers x boxes, every number of failing draws 0..8; arguments of the draw against the reference posterior over settings; '
        'near-deterministic posteriors on grids; runs: 4 samplers x init 1..3 x iterations 0..3 x boxes x response forms x fault positions, scripted and real steps; 9 extreme boxes, up to 210 data, 600 candidates, 15 dimensions, runs of 130 iterations, 8 kinds of data',
    'thorough': 'every permutation of 6 sample values, runs of up to 5 iterations on all boxes',
}
ASSUMPTIONS = ['the drawn function is scripted where it is obtained from gp.sample_functions, and the step of a run where it is obtained from thompson_sampling_gp_iteration; '
    'where they are not consulted, only the unscripted spaces decide']
RAND = SAMPLERS[:4]


@contextlib.contextmanager
def scripted(sample=None, candidates=None, faults=0, log=None):
    """Fixes candidates and/or the drawn function."""
    from bayeso.bo import base_bo
    from bayeso.gp import gp
    real_s, real_g = gp.sample_functions, base_bo.BaseBO.get_samples
    st = dict(draws=0)

    def sample_functions(mu, Sigma, num_samples=1):
        st['draws'] += 1
        if st['draws'] <= faults:
            raise ValueError('injected: not positive definite')
        if log is not None:
            log.append((np.array(mu), np.array(Sigma), num_samples))
        if sample is None:
            return real_s(mu, Sigma, num_samples)
        s = np.asarray(sample, dtype=float)
        return np.array([np.roll(s, 0) if i == 0 else -s for i in range(num_samples)])

    def get_samples(self, *a, **k):
        x = real_g(self, *a, **k)
        if candidates is not None:
            st['got'] = np.array(candidates)
            return np.array(candidates)
        st['got'] = np.array(x)
        return x
    try:
        gp.sample_functions = sample_functions
        base_bo.BaseBO.get_samples = get_samples
        yield st
    finally:
        gp.sample_functions = real_s
        base_bo.BaseBO.get_samples = real_g


def it(b, X, Y, **kw):
    from bayeso import thompson_sampling as ts
    return ts.thompson_sampling_gp_iteration(b, X, Y, **kw)


def cands(b, k):
    b = np.asarray(b, dtype=float)
    f = (np.arange(k) + 0.5) / k
    return b[:, 0] + np.stack([np.mod(f * (1 + 2 * j), 1.0) for j in range(len(b))], axis=1) * (b[:, 1] - b[:, 0])


def gen_script(tier):
    for bn, k, nrm in itertools.product(['unit1', 'neg2', 'three', 'int2'], [1, 2, 3, 6], [True, False]):
        yield [bn, k, nrm]
    for bn, k in itertools.product(['unit1', 'three'], [64, 150, 300]):
        yield [bn, k, True]


def run_script(sc, ctx):
    """The returned query is the candidate where the drawn function is smallest."""
    bn, k, nrm = sc
    b = box(bn)
    X, Y = data('usual', b)
    C = cands(b, k)
    vals = [[-1e3 if j == p else 5.0 * j - 7.0 for j in range(k)] for p in range(k)]
    vals += [[10.0 + (j - p) ** 2 for j in range(k)] for p in range(k)]
    vals += [[-30.0 - (1.0 if j == p else 0.0) - 0.1 * j for j in range(k)] for p in range(k)]
    vals += [[1e-9 * abs(j - p) for j in range(k)] for p in range(k)]
    if k > 6:
        vals = [v for v in vals[::1] if int(np.argmin(v)) in (0, 1, k // 2, k - 2, k - 1)]
    vals += list(itertools.permutations(range(k))) if (k <= 3 or k <= 6 and ctx.tier == 'thorough') else []
    for v in vals:
        for f in ([0, 1, 7] if v is vals[0] else [0]):
            with scripted(v, C, f) as st:
                p = it(b, X, Y, normalize_Y=nrm, num_samples=k)
            if not st['draws'] or 'got' not in st:
                return
            want = C[int(np.argmin(v))]
            ctx.check(np.shape(p) == (len(b),), f'{sc}: query of shape {np.shape(p)}')
            ctx.check(np.array_equal(p, want), f'{sc}: drawn function {list(v)} at {C.tolist()}, {f} failed draws: query {np.asarray(p).tolist()}, expected {want.tolist()}')
            ctx.trans()
            ctx.trace()
            ctx.state(sc, tuple(v), f)
            ctx.outcome(np.asarray(p))
    ctx.sample(dict(candidates=C.tolist(), function=list(vals[0]), query=np.asarray(p).tolist()))


def gen_fault(tier):
    for bn, f in itertools.product(['unit1', 'neg2'], range(9)):
        yield [bn, f]


def run_fault(sc, ctx):
    """Draws that fail numerically are repeated with more jitter; when none succeeds the step fails."""
    bn, f = sc
    b = box(bn)
    X, Y = data('usual', b)
    C = cands(b, 4)
    v = [3.0, -1.0, 2.0, 5.0]
    log = []
    try:
        with scripted(v, C, f, log) as st:
            p = it(b, X, Y, num_samples=4)
    except ValueError:
        ctx.check(f >= 8, f'{sc}: gave up after {st["draws"]} draws')
        p = None
    if st['draws']:
        ctx.check(p is None or np.array_equal(p, C[1]), f'{sc}: query {p}')
        ctx.check(p is not None or f >= 8, f'{sc}: no query')
        if f >= 8:
            ctx.check(p is None, f'{sc}: a query although every draw failed')
    ctx.trans(f + 1)
    ctx.trace()
    ctx.state(sc)


def gen_post(tier):
    for bn, dn, nrm, smp in itertools.product(['unit1', 'neg2', 'three', 'int2', 'off2'], ['usual', 'dup', 'two', 'corner', 'one'], [True, False], SAMPLERS):
        yield [bn, dn, nrm, smp]


def run_post(sc, ctx):
    bn, dn, nrm, smp = sc
    b = box(bn)
    X, Y = data(dn, b)
    one_step(ctx, sc, b, X, Y, nrm, smp, {1: 7, 2: 3, 3: 2}[len(b)] if smp == 'grid' else 5)


def one_step(ctx, sc, b, X, Y, nrm, smp, n, **kw):
    """One function is drawn, from the posterior of the model fitted to the data, at the sampled candidates."""
    from bayeso.gp import gp_kernel
    X0, Y0 = X.copy(), Y.copy()
    log = []
    with scripted(None, None, 0, log) as st:
        p = it(b, X, Y, normalize_Y=nrm, str_sampling_method=smp, num_samples=n, **kw)
    ctx.identical(X, X0, f'{sc}: inputs changed')
    ctx.identical(Y, Y0, f'{sc}: responses changed')
    bb = np.asarray(b, dtype=float)
    ctx.check(np.shape(p) == (len(b),) and np.all(p >= bb[:, 0]) and np.all(p <= bb[:, 1]), f'{sc}: query {p} outside {bb.tolist()}')
    if 'got' in st:
        C = st['got']
        ctx.check(len(C) == (n ** len(b) if smp == 'grid' else n), f'{sc}: {len(C)} candidates')
        ctx.check(any(np.array_equal(p, c) for c in C), f'{sc}: query {p} is not a candidate')
        if log:
            ctx.check(len(log) == 1 or len(set(l[2] for l in log)) == 1, f'{sc}: {len(log)} draws')
            mu, S, num = log[0]
            Yn = ref.normalise(Y) if nrm else Y
            _, _, h = gp_kernel.get_optimized_kernel(X, Yn, None, 'matern52', str_optimizer_method='BFGS')
            m, V = ref.gp_posterior('matern52', X, Yn, C, h)
            cond = np.linalg.cond(ref.train_gram('matern52', X, h))
            sc_ = 1 + float(np.max(np.abs(Yn)))
            if cond < 1e10:
                ctx.check(np.shape(mu) == (len(C),) and np.allclose(mu, m[:, 0], rtol=0, atol=sc_ * (1e-5 + 1e-14 * cond)), f'{sc}: drawn around {mu}, the posterior mean is {m[:, 0]}')
                ctx.check(np.allclose(S, V, rtol=0, atol=(1 + h['signal'] ** 2) * (1e-5 + 1e-14 * cond)), f'{sc}: drawn with a covariance other than the posterior one')
            ctx.check(num == 1, f'{sc}: {num} functions drawn')
    ctx.trans()
    ctx.trace()
    ctx.state(sc)
    ctx.outcome(np.round(p, 6))


def gen_det(tier):
    for d, w, s in itertools.product([1, 2], range(7 if tier == 'quick' else 16), [1.0, -1.0]):
        yield [d, w, s]


def run_det(sc, ctx):
    """Dense data leave hardly any freedom: the query must be a near-minimiser of the posterior mean."""
    from bayeso.gp import gp
    d, w, s = sc
    b = np.array([[0.0, 1.0]] * d)
    g = np.linspace(0, 1, 13 if d == 1 else 6)
    X = np.array(list(itertools.product(g, repeat=d)))
    Y = s * np.sin(3.0 * X[:, :1] + 0.9 * w) * 4.0 + (np.sum(X, axis=1)[:, None] - 0.4 * w) ** 2
    for nrm in (True, False):
        k = 25 if d == 1 else 6
        p = it(b, X, Y, normalize_Y=nrm, str_sampling_method='grid', num_samples=k)
        G = np.array(list(itertools.product(np.linspace(0, 1, k), repeat=d)))
        i = [j for j in range(len(G)) if np.allclose(G[j], p, atol=1e-9)]
        ctx.check(len(i) == 1, f'{sc}: query {p} is not on the grid')
        mu, sd, S = gp.predict_with_optimized_hyps(X, ref.normalise(Y) if nrm else Y, G, str_cov='matern52', str_optimizer_method='BFGS')
        mu, sd = mu[:, 0], sd[:, 0]
        low = -float(np.min(np.linalg.eigvalsh(0.5 * (S + S.T))))       # a numerically indefinite covariance is drawn with jitter
        extra = 0.0 if low < -1e-9 else float(np.sqrt(max(1e-2, 1e3 * low)))
        j = int(np.argmin(mu))
        slack = 12 * (sd[i[0]] + sd[j] + extra)
        ctx.check(mu[i[0]] - mu[j] <= slack + 1e-9, f'{sc} normalise={nrm}: query {p} has mean {mu[i[0]]} +- {sd[i[0]]}, the minimum is {mu[j]} +- {sd[j]} (jitter {extra})')
        ctx.outcome(bool(slack < 0.5 * (np.max(mu) - np.min(mu))), sc)
        ctx.trans()
        ctx.trace()
        ctx.state(sc, nrm)


FORMS = ['float', 'int', 'np', '0d', '1d', '2d']


def gen_runs(tier):
    boxes = list(BOXES) if tier == 'thorough' else ['unit1', 'neg1', 'flat2', 'mixed2', 'three']
    K = 5 if tier == 'thorough' else 3
    for bn, smp, n0, k in itertools.product(boxes, RAND, [1, 2, 3], range(K + 1)):
        yield [bn, smp, n0, k]


def drive(ctx, sc, b, smp, n0, k, form, script, fault=None, ns=3, **kw_):
    from bayeso import thompson_sampling as ts
    seen = []
    t = _loop.Target(form, fault, RuntimeError)
    real = ts.thompson_sampling_gp_iteration
    sig = inspect.signature(real)
    bb = np.asarray(b, dtype=float)
    pts = cands(b, 8)

    def step(*a, **kw):
        args = sig.bind(*a, **kw)
        args.apply_defaults()
        args = args.arguments
        seen.append((np.array(args['X']), np.array(args['Y'], dtype=float), dict(args)))
        return np.array(pts[(3 * len(seen)) % 8]) if script else real(*a, **kw)
    nrm = bool(k % 2)
    tag = f'{sc} responses={form} scripted={script} fault={fault}'
    try:
        ts.thompson_sampling_gp_iteration = step
        try:
            out = ts.thompson_sampling_gp(b, t, n0, k, normalize_Y=nrm, str_sampling_method=smp, num_samples=ns, **kw_)
        except RuntimeError:
            ctx.check(fault is not None, f'{tag}: the run failed')
            ctx.check(len(t.calls) == fault + 1, f'{tag}: {len(t.calls)} evaluations although evaluation {fault} failed')
            out = None
    finally:
        ts.thompson_sampling_gp_iteration = real
    ctx.check(out is not None or fault is not None, f'{tag}: nothing returned')
    if out is not None:
        ctx.check(fault is None or fault >= n0 + k, f'{tag}: the failure of the target was swallowed')
        X, Y = out
        n = n0 + k
        ctx.check(np.shape(X) == (n, len(b)) and np.shape(Y) == (n, 1), f'{tag}: shapes {np.shape(X)}, {np.shape(Y)}, expected {n} rows')
        ctx.check(len(t.calls) == n, f'{tag}: {len(t.calls)} evaluations, expected {n}')
        ctx.check(np.all(X >= bb[:, 0]) and np.all(X <= bb[:, 1]) and np.all(np.isfinite(X)), f'{tag}: points outside {bb.tolist()}: {X.tolist()}')
        for i in range(n):
            ctx.identical(np.ravel(t.calls[i]), X[i], f'{tag}: evaluation {i} was made elsewhere than at row {i}')
            ctx.check(float(Y[i, 0]) == t.values[i], f'{tag}: row {i} records {Y[i, 0]}, the target returned {t.values[i]}')
        if seen:
            ctx.check(len(seen) == k, f'{tag}: {len(seen)} steps')
            for j, (sx, sy, a) in enumerate(seen):
                ctx.check(np.array_equal(sx, X[:n0 + j]) and sy.shape == (n0 + j, 1) and np.array_equal(sy, np.asarray(Y, dtype=float)[:n0 + j]), f'{tag}: step {j} was given {sx.tolist()}, {sy.tolist()}')
                ctx.check(a.get('normalize_Y') == nrm and a.get('str_sampling_method') == smp and a.get('num_samples') == ns and np.array_equal(a['range_X'], b), f'{tag}: settings given to step {j}: {a}')
    ctx.trans(n0 + k)
    ctx.trace()
    ctx.state(sc, form, script, fault)


def run_runs(sc, ctx):
    bn, smp, n0, k = sc
    b = box(bn)
    for form in FORMS:
        drive(ctx, sc, b, smp, n0, k, form, True)
    for fault in range(n0 + k):
        drive(ctx, sc, b, smp, n0, k, 'float', True, fault)
    if bn not in ('narrow1', 'point1', 'wide1') and (k < 3 or ctx.tier == 'thorough'):
        drive(ctx, sc, b, smp, n0, k, 'float', False)


def gen_ext(tier):
    for bn, smp in itertools.product(EXTREME, SAMPLERS):
        if bn != 'sixty' or smp != 'grid':
            yield ['box', bn, smp]
    for n, d, smp in [(60, 2, 'sobol'), (130, 1, 'uniform'), (20, 8, 'halton'), (210, 3, 'uniform'), (12, 15, 'gaussian')]:
        yield ['data', n, [d, smp]]
    for ns, smp in itertools.product([1, 2, 17, 150, 600], SAMPLERS[:4]):
        yield ['candidates', ns, smp]
    for kind in ['int', 'zeros', 'thousands', 'minute', 'negative', 'readonly', 'F', 'strided']:
        yield ['kind', kind, 0]
    for n0, k in [(1, 5), (4, 7), (6, 1), (11, 11), (30, 2), (1, 40), (120, 3), (2, 130)]:
        for smp in RAND:
            yield ['run', [n0, k], smp]


def run_ext(sc, ctx):
    """Extreme boxes, many data and candidates, kinds of data, long runs."""
    what, v, smp = sc
    if what == 'box':
        b = np.array(EXTREME[v])
        for j, dn in enumerate(['usual', 'dup', 'corner', 'one']):
            X, Y = data(dn, b)
            one_step(ctx, [*sc, dn], b, X, Y, j % 2 == 0, smp, 2 if smp == 'grid' else 4, debug=j == 2)
    elif what == 'data':
        b, X, Y = large(smp[0], v)
        for nrm in (True, False):
            one_step(ctx, [*sc, nrm], b, X, Y, nrm, smp[1], 6)
    elif what == 'candidates':
        for bn, nrm in [('unit1', True), ('three', False)]:
            b = box(bn)
            X, Y = data('usual', b)
            one_step(ctx, [*sc, bn], b, X, Y, nrm, smp, v)
    elif what == 'kind':
        for bn, nrm, sm in itertools.product(['int2', 'unit1', 'three'], [True, False], ['uniform', 'grid']):
            b = box(bn)
            X, Y = data('usual', b)
            if v == 'int':
                X, Y = np.round(X).astype(int), np.round(3 * Y).astype(int)
            elif v == 'readonly':
                X.setflags(write=False)
                Y.setflags(write=False)
            elif v == 'F':
                X = np.asfortranarray(X)
            elif v == 'strided':
                X, Y = np.repeat(X, 2, axis=0)[::2], np.repeat(Y, 2, axis=0)[::2]
            else:
                Y = {'zeros': 0 * Y, 'thousands': 1e3 * Y + 3e3, 'minute': 1e-9 * Y, 'negative': -np.abs(Y) - 5.0}[v]
            one_step(ctx, [*sc, bn, nrm, sm], b, X, Y, nrm, sm, 3, debug=nrm)
    else:
        for j, bn in enumerate(['unit1', 'neg2', 'three', 'int2']):
            for form in ('float', '2d'):
                drive(ctx, [*sc, bn], box(bn), smp, v[0], v[1], form, True, ns=[1, 5, 20, 400][j], debug=j == 1)
        if v[0] + v[1] < 12:
            drive(ctx, [*sc, 'real'], box('three'), smp, v[0], v[1], 'float', False, ns=6)


SPACES = [
    Space('extents', gen_ext, run_ext, 'extreme boxes, many data and candidates, kinds of data, long runs', chunk=1),
    Space('minimiser', gen_script, run_script, 'every position of the minimum of the drawn function', chunk=1),
    Space('failing draws', gen_fault, run_fault, 'every number of failing draws'),
    Space('posterior', gen_post, run_post, 'what the function is drawn from', chunk=4),
    Space('determined', gen_det, run_det, 'near-deterministic posteriors', chunk=1),
    Space('runs', gen_runs, run_runs, 'complete runs, response forms and fault positions', chunk=4),
]
