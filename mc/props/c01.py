"""C01: every suggested query and every candidate lies inside the search space."""
import itertools

import numpy as np

from mc.core import Space
from mc.props._step import ACQ, BOXES, DATA, KS, LARGE, SAMPLERS, box, build, count, data, gen_ext, large, plan_ext, step

BOUNDS = {
    'quick': '3 surrogates x 6 acquisitions x 5 samplers x normalisation x 14 boxes (1..4 dimensions) x 2 data sets each, L-BFGS-B and the DIRECT fallback; CMA-ES x 6 acquisitions x 2 surrogates x 4 boxes; '
        'runs of 3 steps feeding the suggestion back, all modes; forms of the box array; up to 60 dimensions, 210 data, 600 candidates (5000 for forests); 9 extreme boxes; 10 option settings; 6 kinds of data',
    'thorough': 'all data sets for every setting, every sampler with CMA-ES, all kernels, runs of 6 steps',
}
ASSUMPTIONS = ['DIRECT is not installed here: selecting it exercises the documented fall-back']


def judge(ctx, b, p, info, cnt, tag):
    b = np.asarray(b, dtype=float)
    d = len(b)
    p = np.asarray(p)
    ctx.check(p.shape == (d,), f'{tag}: suggestion of shape {p.shape}')
    ctx.check(np.all(np.isfinite(p)) and np.all(p >= b[:, 0]) and np.all(p <= b[:, 1]), f'{tag}: suggestion {p.tolist()} outside {b.tolist()}')
    c = np.asarray(info['next_points'])
    ctx.check(c.shape == (cnt, d), f'{tag}: candidates of shape {c.shape}, expected {(cnt, d)}')
    ctx.check(np.all(np.isfinite(c)) and np.all(c >= b[:, 0]) and np.all(c <= b[:, 1]), f'{tag}: a candidate lies outside {b.tolist()}: {c.tolist()[:6]}')
    ctx.check(np.shape(info['acquisitions']) == (cnt,), f'{tag}: acquisition values of shape {np.shape(info["acquisitions"])}')
    ctx.trans()
    ctx.trace()
    ctx.outcome(np.round(p, 6))


def gen_settings(tier):
    for sur in ['gp', 'tp', 'rf']:
        for acq, smp, nrm, (bi, bn) in itertools.product(ACQ, SAMPLERS, [True, False], list(enumerate(BOXES))):
            yield [sur, acq, smp, nrm, bn]


def run_settings(sc, ctx):
    sur, acq, smp, nrm, bn = sc
    b = box(bn)
    i = ACQ.index(acq) + SAMPLERS.index(smp) + 2 * nrm + list(BOXES).index(bn)
    ds = DATA if ctx.tier == 'thorough' else [DATA[i % 9], DATA[(i + 4) % 9]]
    for j, dn in enumerate(ds):
        X, Y = data(dn, b)
        opt = 'DIRECT' if j % 2 and i % 3 == 0 and sur != 'rf' else 'L-BFGS-B'
        ns = [1, 2, 3][(i + j) % 3]
        m = build(sur, b, acq, opt, nrm, KS[(i + j) % 4])
        p, info = step(sur, m, X, Y, smp, ns, [None, 0, 7][(i + j) % 3])
        judge(ctx, b, p, info, count(sur, opt, smp, ns, len(b)), f'{sc} data={dn} {opt} samples={ns}')
        ctx.state(sc, dn, opt, ns)
    ctx.sample(dict(surrogate=sur, acquisition=acq, sampler=smp, box=BOXES[bn], data=ds, suggestion=p.tolist()))


def gen_cma(tier):
    for sur, acq, bn in itertools.product(['gp', 'tp'], ACQ, ['unit2', 'neg2', 'mixed2', 'int2', 'off2', 'three', 'flat2', 'four'] if tier == 'thorough' else ['unit2', 'mixed2', 'three', 'off2', 'flat2']):
        for smp in (SAMPLERS if tier == 'thorough' else [SAMPLERS[(ACQ.index(acq) + len(bn)) % 5]]):
            yield [sur, acq, smp, bn]


def run_cma(sc, ctx):
    sur, acq, smp, bn = sc
    b = box(bn)
    i = ACQ.index(acq)
    dn = DATA[(i + len(bn)) % 9]
    X, Y = data(dn, b)
    m = build(sur, b, acq, 'CMA-ES', i % 2 == 0)
    tag = f'{sc} CMA-ES data={dn}'
    flat = bool(np.any(b[:, 0] == b[:, 1]))
    try:
        p, info = step(sur, m, X, Y, smp, 3, i)
    except ValueError as e:
        if not flat:
            raise
        ctx.fail(f'{tag}: {type(e).__name__}: {e}', key='cmaes-degenerate-dimension')
        return
    judge(ctx, b, p, info, 1, tag)
    ctx.state(sc, dn)


def gen_runs(tier):
    for sur, bn in itertools.product(['gp', 'tp', 'rf'], BOXES):
        for mode in (['regular', 'combined', 'converged'] if sur == 'gp' else ['regular']):
            for acq in (ACQ if tier == 'thorough' else [ACQ[(len(bn) + len(mode)) % 6], 'ei']):
                yield [sur, bn, mode, acq, 6 if tier == 'thorough' else 3]


def run_runs(sc, ctx):
    """Steps of one object, each fed the suggestion of the previous one."""
    sur, bn, mode, acq, k = sc
    b = box(bn)
    X, Y = data('two', b)
    m = build(sur, b, acq, 'L-BFGS-B', mode != 'converged')
    for s in range(k):
        smp = SAMPLERS[(s + len(bn)) % 5]
        p, info = step(sur, m, X, Y, smp, 2, s, mode)
        judge(ctx, b, p, info, count(sur, 'L-BFGS-B', smp, 2, len(b)), f'{sc} step {s}')
        w = np.maximum(np.asarray(b, dtype=float)[:, 1] - b[:, 0], 1e-12)
        z = (p - b[:, 0]) / w
        X = np.vstack([X, p])
        Y = np.vstack([Y, [[float(np.sum(np.cos(3 * z)))]]])
        ctx.state(sc, s)


FORMS = ['c', 'fortran', 'reversed', 'readonly', 'strided', 'f32', 'int64', 'int32']


def gen_forms(tier):
    for sur, f in itertools.product(['gp', 'tp', 'rf'], FORMS):
        yield [sur, f]


def form(b, f):
    if f == 'fortran':
        return np.asfortranarray(b)
    if f == 'reversed':
        return b[::-1].copy()[::-1]
    if f == 'readonly':
        b = b.copy()
        b.setflags(write=False)
        return b
    if f == 'strided':
        big = np.full((2 * b.shape[0], 2 * b.shape[1]), 99, dtype=b.dtype)
        big[::2, ::2] = b
        return big[::2, ::2]
    if f == 'f32':
        return b.astype(np.float32)
    if f in ('int64', 'int32'):
        return b.astype(f)
    return b


def run_forms(sc, ctx):
    sur, f = sc
    for bn in (['int2'] if f.startswith('int') else ['int2', 'three', 'neg2']):
        b = form(box(bn).astype(float), f)
        for smp, dn in itertools.product(SAMPLERS, ['usual', 'dup']):
            X, Y = data(dn, b)
            X, Y = form(X, f if not f.startswith('int') else 'c'), form(Y, f if f in ('fortran', 'reversed', 'readonly') else 'c')
            m = build(sur, b, 'ei', 'L-BFGS-B', True)
            p, info = step(sur, m, X, Y, smp, 2, 3)
            judge(ctx, b, p, info, count(sur, 'L-BFGS-B', smp, 2, len(b)), f'{sc} {bn} {smp} {dn}')
            ctx.state(sc, bn, smp, dn)


def gen_large(tier):
    for sur, i in itertools.product(['gp', 'tp', 'rf'], range(len(LARGE) + 1)):
        if i == len(LARGE):
            yield [sur, 'cma']
        elif sur != 'tp' or LARGE[i][1] < 50 or tier == 'thorough':
            yield [sur, i]
    yield ['rf', 'default']


def run_large(sc, ctx):
    """High dimensions, many data, many candidates."""
    sur, i = sc
    d, n, smp, ns = LARGE[i] if i not in ('default', 'cma') else (3, 8, 'sobol', 5000) if i == 'default' else (8, 10, 'uniform', 3)
    b, X, Y = large(d, n)
    for j, acq in enumerate(ACQ if ctx.tier == 'thorough' else ACQ[:3] if n < 50 and ns < 100 and d < 10 else ['ei']):
        opt = 'CMA-ES' if i == 'cma' else 'L-BFGS-B'
        m = build(sur, b, acq, opt, j % 2 == 0, KS[j % 4])
        p, info = step(sur, m, X, Y, smp, ns, 3)
        judge(ctx, b, p, info, count(sur, opt, smp, ns, d), f'{sc} d={d} n={n} {smp} {ns} {acq}')
        ctx.state(sc, acq)


def run_ext(sc, ctx):
    """Extreme boxes, every option of the model objects, many data and candidates, kinds of data."""
    sur = sc[1]
    for b, X, Y, acq, smp, ns, seed, kw in plan_ext(sc):
        m = build(sur, b, acq, 'L-BFGS-B', seed != 5 and seed != 3, **kw)
        tag = f'{sc} {acq} {smp} samples={ns} seed={seed}'
        p, info = step(sur, m, X, Y, smp, ns, seed)
        judge(ctx, b, p, info, count(sur, 'L-BFGS-B', smp, ns, len(b)), tag)
        ctx.state(tag)


SPACES = [
    Space('extremes', gen_ext, run_ext, 'extreme boxes, every option, many data and candidates, kinds of data', chunk=1),
    Space('large', gen_large, run_large, 'high dimensions, many data, many candidates', chunk=1),
    Space('settings', gen_settings, run_settings, 'one step for every combination of settings', chunk=6),
    Space('cma', gen_cma, run_cma, 'CMA-ES as the acquisition optimiser', chunk=1),
    Space('runs', gen_runs, run_runs, 'sequences of steps, suggestion fed back', chunk=2),
    Space('forms', gen_forms, run_forms, 'memory layouts and number types of the box', chunk=1),
]
