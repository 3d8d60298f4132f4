"""C04: a run records exactly the evaluations it made, in order."""
import itertools

import numpy as np

from mc import menu
from mc.core import Space, weyl
from mc.props import _loop as L

BOUNDS = {
    'quick': 'scripted steps: 6 entry points x 3 surrogates x d in {1,2,3} x n0 in {1,2,4} x iterations in {1,2,5} x 7 forms of the returned value; '
        'a fault of 4 exception types at every evaluation followed by a complete second run; two runs on one object; integer and single-precision initial arrays; a slow evaluation or step at every position; 15 responses from 1e-300 to 1e300 at every position; 6 acquisitions x 5 samplers x normalisation x 11 further options; '
        'real steps: 6 entry points x 3 surrogates x samplers x acquisitions, 1..3 iterations; boxes of every kind up to 60 dimensions, up to 130 iterations, 600 candidates, special suggestions, 9 patterns of responses over 18 evaluations',
    'thorough': 'n0 up to 6, iterations up to 9, real runs with up to 6 iterations',
}
ASSUMPTIONS = ['the target does not modify the array it is given', 'responses are finite numbers, exactly representable in double precision',
    'scripted steps replace the optimize method of the model object; if a loop does not use it, only the record itself is checked']
FORMS = ['float', 'int', 'np', '0d', '1d', '2d', 'f32']
EXC = {'ValueError': ValueError, 'StopIteration': StopIteration, 'KeyboardInterrupt': KeyboardInterrupt, 'AssertionError': AssertionError}


def box(d):
    return np.array([[-2.0, 3.0], [0.0, 1.0], [10.0, 20.0]])[:d]


def inside(b, w):
    return b[:, 0] + (b[:, 1] - b[:, 0]) * w


def script(b, salt):
    def step(j, X, Y):
        pts = inside(b, weyl((4, len(b)), 11 + salt + 7 * j))
        acq = np.array([0.5, -1.5, 0.25, -0.5])
        return pts[1].copy(), L.info_for(len(X), pts, acq, Y, (0.125 * (j + 1), 7.0 + 0.25 * j))
    return step


def apis():
    return [(a, s) for a in L.API_CLASS for s in ('gp', 'tp', 'rf')] + [(a, 'gp') for a in L.API_FUN]


def gen_scripted(tier):
    ns = [1, 2, 4] if tier == 'quick' else [1, 2, 3, 4, 6]
    its = [1, 2, 5] if tier == 'quick' else [1, 2, 3, 5, 9]
    for (a, s), d, n0, it in itertools.product(apis(), [1, 2, 3], ns, its):
        yield [a, s, d, n0, it]
    for a, s in apis():
        for n0, it in [(130, 2), (2, 60), (45, 45)]:
            yield [a, s, 2, n0, it]


def initial(kind, b, n0, form_int=False):
    X0 = inside(b, weyl((n0, len(b)), 3)) if kind != 'sampled' else None
    Y0 = np.array(([[9.0], [-6.5], [2.25], [0.0], [1.0], [-2.0]] * n0)[:n0]) if kind == 'all' else None
    return X0, Y0


def run_scripted(sc, ctx):
    api, sur, d, n0, it = sc
    kind = api.split(':')[1]
    b = box(d)
    for form in FORMS:
        for debug in (False, True):
            t = L.Target(form)
            m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=4, debug=debug)
            spy = L.Spy(m, script(b, 0))
            X0, Y0 = initial(kind, b, n0)
            keep = None if X0 is None else X0.copy(), None if Y0 is None else Y0.copy()
            out = run(X0, Y0, n0, 5)
            tag = f'{sc} form={form} debug={debug}'
            ini = X0 if X0 is not None else m.get_initials('sobol', n0, seed=5)
            L.check_record(ctx, kind, out, t, 0, ini, Y0, n0, it, spy, 0, tag)
            ctx.check(spy.seen, f'{tag}: the model object was never asked for a step')
            if X0 is not None:
                ctx.identical(X0, keep[0], f'{tag}: the given initial points were modified')
            if Y0 is not None:
                ctx.identical(Y0, keep[1], f'{tag}: the given responses were modified')
            ctx.trans(n0 + it)
            ctx.trace()
            ctx.state(sc, form, debug)
            ctx.outcome(out[1])
    # integer-valued given responses, read-only and strided inputs
    if kind != 'sampled':
        for variant in ('int', 'intX', 'allint', 'f32X', 'readonly', 'strided', 'F', 'repeated'):
            t = L.Target('float')
            m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=4)
            spy = L.Spy(m, script(b, 0))
            X0, Y0 = initial(kind, b, n0)
            if variant == 'int' and Y0 is not None:
                Y0 = np.array(([[9], [-6], [2], [0], [1], [-2]] * n0)[:n0])
            elif variant in ('intX', 'allint', 'f32X'):
                X0 = np.round(X0).astype(np.float32 if variant == 'f32X' else int)
                if variant == 'allint' and Y0 is not None:
                    Y0 = np.array(([[9], [-6], [2], [0], [1], [-2]] * n0)[:n0])
            elif variant == 'readonly':
                X0.setflags(write=False)
                if Y0 is not None:
                    Y0.setflags(write=False)
            elif variant == 'strided':
                X0 = np.repeat(X0, 2, axis=0)[::2]
            elif variant == 'repeated':
                X0[:] = X0[0]           # the same initial point several times is still evaluated each time
            else:
                X0 = np.asfortranarray(X0)
            out = run(X0, Y0, n0, 5)
            L.check_record(ctx, kind, out, t, 0, X0, Y0, n0, it, spy, 0, f'{sc} {variant} arrays')
            ctx.trans(n0 + it)
            ctx.trace()
    ctx.sample(dict(entry=api, surrogate=sur, d=d, initial=n0, iterations=it))


def gen_fault(tier):
    for (a, s), d, n0, it in itertools.product(apis(), [1, 2], [1, 3], [1, 4]):
        total = it if a.endswith('all') else n0 + it
        for f in range(total):
            for e in EXC:
                yield [a, s, d, n0, it, f, e]


def run_fault(sc, ctx):
    api, sur, d, n0, it, f, e = sc
    kind = api.split(':')[1]
    b = box(d)
    t = L.Target('float', fault=f, exc=EXC[e])
    m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=4)
    spy = L.Spy(m, script(b, 0))
    X0, Y0 = initial(kind, b, n0)
    caught = None
    try:
        run(X0, Y0, n0, 5)
    except BaseException as ex:
        if type(ex) is not EXC[e] or ex.args != ('injected fault',):
            raise
        caught = ex
    ctx.check(caught is not None, f'{sc}: the exception of evaluation {f} did not reach the caller')
    ctx.check(len(t.calls) == f + 1, f'{sc}: {len(t.calls)} evaluations although number {f} raised')
    # a second, complete run on the same object
    t.fault, t.base = None, 100.0
    c0, s0 = len(t.calls), len(spy.seen)
    t.values = t.values + [None] * (c0 - len(t.values))
    out = run(X0, Y0, n0, 5)
    ini = X0 if X0 is not None else m.get_initials('sobol', n0, seed=5)
    L.check_record(ctx, kind, out, t, c0, ini, Y0, n0, it, spy, s0, f'{sc}: run after the fault')
    ctx.trans(f + 1 + n0 + it)
    ctx.trace(2)
    ctx.state(*sc)


def gen_twice(tier):
    for (a, s), d, n0, it in itertools.product(apis(), [1, 2], [1, 3], [1, 3]):
        yield [a, s, d, n0, it]


def run_twice(sc, ctx):
    api, sur, d, n0, it = sc
    kind = api.split(':')[1]
    b = box(d)
    t = L.Target('float')
    m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=4)
    spy = L.Spy(m, script(b, 0))
    first = None
    for r, (nn, seed) in enumerate([(n0, 5), (n0 + 1, 6), (n0, 5), (1, 0)]):
        X0, Y0 = initial(kind, b, nn)
        c0, s0 = len(t.calls), len(spy.seen)
        out = run(X0, Y0, nn, seed)
        ini = X0 if X0 is not None else m.get_initials('sobol', nn, seed=seed)
        L.check_record(ctx, kind, out, t, c0, ini, Y0, nn, it, spy, s0, f'{sc}: run {r} on the same object')
        if r == 0:
            first = tuple(np.array(o, copy=True) for o in out), out
        ctx.trans(nn + it)
        ctx.trace()
        ctx.state(*sc, r)
    for a, c in zip(*first):
        ctx.identical(c, a, f'{sc}: a later run changed the result of the first')


VALUES = [0.0, -0.0, 1.0, -1.0, 1e-300, 1e-12, -1e-7, 123456.5, -1e6, 1e10, -3e11, 7e15, 1e18, -1e100, 1e300]


def gen_values(tier):
    for (a, s), v in itertools.product(apis(), range(len(VALUES))):
        yield [a, s, v]


def run_values(sc, ctx):
    """Responses of every size, at every position and everywhere, are recorded as returned; steps are scripted, so no model sees them."""
    api, sur, vi = sc
    kind = api.split(':')[1]
    b = box(2)
    n0, it = 2, 3
    for pos in [*range(n0 + it), 'all', 'alternate']:
        for form in ('float', 'np', '2d'):
            t = L.Target(form)
            t.at = (pos, VALUES[vi])
            m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=4, normalize_Y=bool(vi % 2))
            spy = L.Spy(m, script(b, 0))
            X0, Y0 = initial(kind, b, n0)
            if Y0 is not None:
                Y0[1] = VALUES[vi]
                if pos in ('all', 'alternate'):
                    Y0[0] = VALUES[vi]
            out = run(X0, Y0, n0, 5)
            ini = X0 if X0 is not None else m.get_initials('sobol', n0, seed=5)
            L.check_record(ctx, kind, out, t, 0, ini, Y0, n0, it, spy, 0, f'{sc} response {VALUES[vi]} at {pos} ({form})')
            ctx.trans(n0 + it)
            ctx.trace()
            ctx.state(*sc, pos, form)
            ctx.outcome(out[1])


def gen_options(tier):
    for a, s in apis():
        for acq, smp, norm in itertools.product(['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore'], ['uniform', 'sobol', 'grid', 'halton', 'gaussian'], [True, False]):
            yield [a, s, acq, smp, norm]


def run_options(sc, ctx):
    """No option of a run changes what is recorded."""
    api, sur, acq, smp, norm = sc
    kind = api.split(':')[1]
    b = box(2)
    n0, it = 2, 3
    opts = [dict(str_mlm_method=x) for x in ('combined', 'converged')] + [dict(use_ard=False), dict(str_exp='name'), dict(debug=True, str_exp='name'), dict(str_modelselection_method='loocv'),
        dict(prior_mu=lambda X: np.ones((X.shape[0], 1))), dict(str_cov='se'), dict(str_optimizer_method_bo='CMA-ES'), dict(str_optimizer_method_bo='DIRECT'), dict(str_optimizer_method_gp='Nelder-Mead')]
    for o in opts:
        if sur == 'rf' and 'str_optimizer_method_bo' in o:
            continue
        t = L.Target('float')
        m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=3, str_acq=acq, str_sampling_method_ao=smp, normalize_Y=norm, **o)
        spy = L.Spy(m, script(b, 0))
        X0, Y0 = initial(kind, b, n0)
        out = run(X0, Y0, n0, 5)
        ini = X0 if X0 is not None else m.get_initials('sobol', n0, seed=5)
        L.check_record(ctx, kind, out, t, 0, ini, Y0, n0, it, spy, 0, f'{sc} {o}')
        ctx.trans(n0 + it)
        ctx.trace()
        ctx.state(*sc, str(sorted(o)), str(list(o.values())[0])[:9])


def gen_real(tier):
    its = [1, 3] if tier == 'quick' else [1, 3, 6]
    for (a, s) in apis():
        for d, it in itertools.product([1, 2], its):
            for smp in ['uniform', 'sobol', 'grid', 'halton', 'gaussian']:
                for acq in (['ei', 'ucb'] if smp != 'uniform' else ['ei', 'pi', 'ucb', 'aei', 'pure_exploit', 'pure_explore']):
                    if s == 'tp' and (it == 1 or acq in ('pi', 'aei')) and tier == 'quick':
                        continue
                    if s == 'rf' and (it == 3 and d == 2 or acq in ('pi', 'aei')) and tier == 'quick':
                        continue
                    yield [a, s, d, it, smp, acq]


def run_real(sc, ctx):
    api, sur, d, it, smp, acq = sc
    kind = api.split(':')[1]
    b = box(d)
    fun = lambda x: float(np.round(np.sum((x - b[:, 0] - 0.3 * (b[:, 1] - b[:, 0])) ** 2), 6))
    t = L.Target('float', fun=fun)
    init = smp if smp != 'grid' else 'uniform'
    m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=2, str_sampling_method_ao=smp, str_initial_method_bo=init, str_acq=acq)
    spy = L.Spy(m)
    X0 = inside(b, weyl((3, d), 3)) if kind != 'sampled' else None
    Y0 = np.array([[fun(x)] for x in X0]) if kind == 'all' else None
    for r in range(2):
        c0, s0 = len(t.calls), len(spy.seen)
        out = run(X0, Y0, 3, 4)
        ini = X0 if X0 is not None else m.get_initials(init, 3, seed=4)
        L.check_record(ctx, kind, out, t, c0, ini, Y0, 3, it, spy, s0, f'{sc} (run {r})')
        ctx.check(np.all(out[0] >= b[:, 0]) and np.all(out[0] <= b[:, 1]), f'{sc}: a row lies outside the box')
        ctx.trans(3 + it)
        ctx.trace()
    ctx.state(*sc)
    ctx.outcome(out[1])


def gen_slow(tier):
    for (a, s), n0, it in itertools.product(apis(), [1, 3], [1, 3]):
        yield [a, s, n0, it]


def run_slow(sc, ctx):
    """One evaluation (or one step) of the run is slow, at every position: its row's time shows it."""
    import time
    api, sur, n0, it = sc
    kind = api.split(':')[1]
    b = box(2)
    skip = n0 if kind == 'all' else 0
    for slow in [('evaluation', i) for i in range(n0 + it - skip)] + [('step', j) for j in range(it)]:
        t = L.Target('float')

        def target(bx):
            if slow == ('evaluation', len(t.calls)):
                time.sleep(0.012)
            return t(bx)
        m, run = L.make(api, b.copy(), it, target, surrogate=sur, num_samples_ao=4)
        inner = script(b, 0)

        def step(j, X, Y):
            if slow == ('step', j):
                time.sleep(0.012)
            return inner(j, X, Y)
        spy = L.Spy(m, step)
        X0, Y0 = initial(kind, b, n0)
        out = run(X0, Y0, n0, 5)
        ini = X0 if X0 is not None else m.get_initials('sobol', n0, seed=5)
        L.check_record(ctx, kind, out, t, 0, ini, Y0, n0, it, spy, 0, f'{sc} slow {slow}')
        row = slow[1] if slow[0] == 'evaluation' else n0 - skip + slow[1]
        ctx.check(out[2][row] >= 0.006, f'{sc}: {slow[0]} {slow[1]} took 12 ms, the time recorded for its row is {out[2][row]}')
        ctx.trans(n0 + it)
        ctx.trace()
        ctx.state(*sc, slow)


SHAPES = {
    'five': [[-1.0 - i, 2.0 + 3 * i] for i in range(5)], 'thirteen': [[-0.5 * i, 1.0 + i] for i in range(13)], 'sixty-four': [[-1.0, 1.0 + i] for i in range(64)],
    'tiny': [[0.0, 1e-6], [-1e-4, 1e-3]], 'huge': [[-1e8, 3e9], [1e5, 1e6]], 'offset': [[1e6, 1e6 + 1.0], [-7.5, -7.25]], 'flat': [[2.0, 2.0], [-1.0, 1.0]], 'negative': [[-9.0, -8.0], [-300.0, -100.0], [-1e-3, -1e-4]],
    'integer': [[0, 10], [-5, 5]], 'zero': [[-1.0, 0.0], [0.0, 1.0], [-1.0, 1.0]],
}
COUNTS = [(n, k) for n in range(1, 10) for k in (1, 2, 3)] + [(1, 10), (3, 11), (5, 16), (10, 17), (16, 21), (33, 32), (2, 130), (210, 1), (1, 210), (520, 3)]


PATTERNS = {
    'plateau': lambda i: 5.0 - i if i < 4 else 1.0, 'late-plateau': lambda i: 20.0 - i if i < 10 else -3.0, 'up': lambda i: float(i), 'down': lambda i: -float(i),
    'steps': lambda i: float(i // 5), 'zeros-then-one': lambda i: float(i == 13), 'first-best': lambda i: float(i > 0), 'shrinking': lambda i: 2.0 ** -(4.0 * i), 'swing': lambda i: (-1.0) ** i * i,
}


def gen_ext(tier):
    for a, s in apis():
        for p in PATTERNS:
            yield [a, s, 'pattern', p]
        for bn in SHAPES:
            yield [a, s, 'box', bn]
        for i in range(len(COUNTS)):
            yield [a, s, 'count', i]
        for ns in (1, 2, 3, 5, 8, 10, 128, 600):
            yield [a, s, 'samples', ns]
        for where in ('known', 'edge', 'zero', 'same'):
            yield [a, s, 'suggestion', where]


def run_ext(sc, ctx):
    """Boxes of every kind, many counts, numbers of candidates, special suggestions."""
    api, sur, what, v = sc
    kind = api.split(':')[1]
    b, n0, it, ns, seeds, inits = box(2), 2, 3, 4, [5], ['sobol']
    if what == 'box':
        b = np.array(SHAPES[v])
        seeds, inits = [0, 1, 77, 2 ** 31 - 1], ['sobol', 'halton', 'uniform']
    elif what == 'count':
        n0, it = COUNTS[v]
    elif what == 'samples':
        ns = v
    elif what == 'pattern':
        it = 16
    lo, w = b[:, 0].astype(float), (b[:, 1] - b[:, 0]).astype(float)
    for seed, init in itertools.product(seeds, inits) if kind == 'sampled' else [(5, 'sobol')]:
        for form in ('float', '2d'):
            if n0 + it > 100 and form == '2d':
                continue
            t = L.Target(form)
            if what == 'suggestion':
                t.at = ('all', 2.5)
            elif what == 'pattern':
                t.at = (PATTERNS[v], None)
            kw = dict(str_initial_method_bo=init) if kind == 'sampled' else {}
            m, run = L.make(api, b.copy(), it, t, surrogate=sur, num_samples_ao=ns, **kw)
            X0, Y0 = (lo + w * (0.05 + 0.9 * weyl((n0, len(b)), 3)) if kind != 'sampled' else None), None
            if kind == 'all':
                Y0 = np.cos(np.arange(n0, dtype=float) * 1.9)[:, None] * 4

            def step(j, X, Y):
                pts = lo + w * (0.01 + 0.98 * weyl((ns, len(b)), 11 + 7 * j))
                acq = np.cos(np.arange(ns) * 2.1 + j)
                k = int(np.argmin(acq))
                if what == 'suggestion':
                    if v == 'known':
                        pts[:] = np.asarray(X)[0]
                    elif v == 'edge':
                        pts[k] = b[:, j % 2]
                    elif v == 'zero':
                        pts[k] = 0.0
                    else:
                        pts = lo + w * (0.01 + 0.98 * weyl((ns, len(b)), 11))
                return pts[k].copy(), L.info_for(len(X), pts, acq, Y, (0.125 * (j + 1), 7.0 + 0.25 * j))
            spy = L.Spy(m, step)
            out = run(X0, Y0, n0, seed)
            ini = X0 if X0 is not None else m.get_initials(init, n0, seed=seed)
            tag = f'{sc} initial={n0} iterations={it} seed={seed} {init} {form}'
            L.check_record(ctx, kind, out, t, 0, ini, Y0, n0, it, spy, 0, tag)
            if what != 'suggestion':
                for j in range(it):
                    ctx.identical(out[0][n0 + j], spy.points[j], f'{tag}: row {n0 + j} is not the suggestion of step {j}')
            ctx.trans(n0 + it)
            ctx.trace()
            ctx.state(tag)


SPACES = [
    Space('extents', gen_ext, run_ext, 'boxes of every kind, counts, numbers of candidates, special suggestions'),
    Space('scripted', gen_scripted, run_scripted, 'loops over scripted steps, all forms of the returned value'),
    Space('faults', gen_fault, run_fault, 'an exception at every evaluation, then another run'),
    Space('repeated', gen_twice, run_twice, 'four runs on one object'),
    Space('values', gen_values, run_values, 'responses of every size'),
    Space('options', gen_options, run_options, 'every option of a run'),
    Space('times', gen_slow, run_slow, 'a slow evaluation or step at every position'),
    Space('real', gen_real, run_real, 'loops over the real models', chunk=2),
]
