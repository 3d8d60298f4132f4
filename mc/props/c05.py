"""C05: an already evaluated point is not evaluated again while a new one exists."""
import itertools

import numpy as np

from mc.core import Space
from mc.props import _loop as L

BOUNDS = {
    'quick': 'both loop interfaces: every assignment of 5 kinds (equal to a history point, within the tolerance of one, just outside it, new) to up to 4 candidates, '
        'every ranking (with ties), histories of 1..3 points at 4 kinds of place (inside, at the origin, in a corner, holding a point twice), candidates tied to each history point in 4 directions, d in {1,2,3}, 5 iterations on the same candidates; '
        'the choice function itself on the same space and on batches of 60 candidates; d up to 60 at 7 scales, 700 candidates, histories of 1100 points, runs of 12 iterations',
    'thorough': '5 candidates, 8 iterations',
}
ASSUMPTIONS = ['the duplicate tolerance is 1e-8 in Euclidean distance; candidates are placed at 1e-9, 0.9e-8, 1.1e-8 and 1e-6 from history points',
    'among candidates of equal acquisition value any may be chosen']
TOL = 1e-8
KINDS = ['dup0', 'dup1', 'near', 'out', 'new']


PLACES = ['usual', 'origin', 'corner', 'equal']


def setup(d, h, kinds, place='usual', turn=0):
    """place: where the history lies; turn: which history point and direction the candidates refer to."""
    box = np.array([[-2.0, 3.0], [0.0, 1.0], [100.0, 200.0]])[:d]
    if place == 'origin':
        box = np.array([[-2.0, 3.0], [0.0, 1.0], [-5.0, 0.5]])[:d]
    lo, w = box[:, 0], box[:, 1] - box[:, 0]
    hist = np.array([lo + w * (0.2 + 0.25 * i + 0.05 * np.arange(d)) for i in range(h)])
    if place == 'origin':
        hist[turn % h] = 0.0
    elif place == 'corner':
        hist[turn % h] = np.where((np.arange(d) + turn) % 2 == 0, box[:, 0], box[:, 1])
    elif place == 'equal':          # the history itself holds a point twice
        hist[-1] = hist[0]
    pts = []
    dirs = [np.ones(d), np.eye(d)[0], -np.eye(d)[-1], -np.ones(d)]
    for i, k in enumerate(kinds):
        a = hist[(turn + 1) % h] if k == 'dup1' else hist[turn % h]
        e = dirs[(i + turn) % 4]
        if k == 'near':
            p = a + [1e-9, 0.9e-8][(i + turn) % 2] * e / np.linalg.norm(e)
        elif k == 'out':
            p = a + [1e-6 * (i + 1), 1.1e-8][(i + turn // 2) % 2] * e / np.linalg.norm(e)
        elif k == 'new':
            p = lo + w * (0.11 + 0.17 * i + 0.03 * np.arange(d))
        else:
            p = a.copy()
        pts.append(p)
    return box, hist, np.array(pts)


def dup(p, X):
    return bool(np.any(np.sqrt(np.sum((X - p) ** 2, axis=1)) < TOL))


def allowed(sugg, pts, acq, X):
    """Points the loop may evaluate next."""
    if not dup(sugg, X):
        return [sugg]
    new = [i for i in range(len(pts)) if not dup(pts[i], X)]
    if not new:
        return None
    best = min(acq[i] for i in new)
    return [pts[i] for i in new if acq[i] == best]


def rankings(k):
    base = [-3.0, -0.5, 0.25, 4.0, 9.0][:k]
    for p in itertools.permutations(range(k)):
        yield [base[i] for i in p]
    if k > 1:
        yield [-1.0] * k
        yield [-1.0, -1.0] + [2.0] * (k - 2)
        yield [2.0] * (k - 1) + [-1.0]
        yield [0.0, -1e-12] + [1e-12] * (k - 2)


def gen_loop(tier):
    K = 4 if tier == 'quick' else 5
    for k in range(1, K + 1):
        for kinds in itertools.product(KINDS, repeat=k):
            for h in ([1, 3] if k < 4 else [2]):
                yield [list(kinds), h]


def run_loop(sc, ctx):
    kinds, h = sc
    k = len(kinds)
    iters = 5 if ctx.tier == 'quick' else 8
    rks = list(rankings(k))
    for r, acq in enumerate(rks):
        d = 1 + r % 3
        for api in (['class:all', 'fun:all'] if k < 4 or r % 4 == 0 else [['class:all', 'fun:all'][r % 2]]):
            sur = ['gp', 'tp', 'rf'][r // 2 % 3] if api == 'class:all' else 'gp'
            place, turn = PLACES[(r + k) % 4], r // 3
            box, hist, pts = setup(d, h, kinds, place, turn)
            acq_ = np.array(acq)

            def script(j, X, Y):
                return pts[int(np.argmin(acq_))].copy(), L.info_for(len(X), pts.copy(), acq_.copy(), Y, (0.1, 0.1))
            t = L.Target('float')
            m, run = L.make(api, box, iters, t, surrogate=sur, num_samples_ao=k, debug=bool(r % 2))
            spy = L.Spy(m, script)
            out = run(hist.copy(), np.arange(h, dtype=float)[:, None])
            X = out[0]
            tag = f'{api} {sur} candidates {kinds} acquisitions {acq} history of {h} ({place}, {turn}) d={d}'
            L.check_record(ctx, 'all', out, t, 0, hist, np.arange(h, dtype=float)[:, None], h, iters, spy, 0, tag)
            for j in range(iters):
                past, got = X[:h + j], X[h + j]
                want = allowed(pts[int(np.argmin(acq_))], pts, acq, past)
                if want is None:
                    ctx.check(dup(got, past), f'{tag}: iteration {j} evaluated {got}, which is neither a candidate nor in the history')
                else:
                    ctx.check(any(np.array_equal(got, w) for w in want),
                        f'{tag}: iteration {j} evaluated {got.tolist()}, expected {[w.tolist() for w in want]} (history {past.tolist()})')
                ctx.trans()
                ctx.state(kinds, acq, h, d, j)
            ctx.trace()
            ctx.outcome(np.round(X, 6))
    ctx.sample(dict(candidates=kinds, history=h))


def gen_direct(tier):
    K = 4 if tier == 'quick' else 5
    for k in range(1, K + 1):
        for kinds in itertools.product(KINDS, repeat=k):
            yield [list(kinds)]


def run_direct(sc, ctx):
    from bayeso.utils import utils_bo
    kinds, = sc
    for acq in rankings(len(kinds)):
        for j, (d, h, place) in enumerate(itertools.product([1, 2, 3], [1, 2, 3], PLACES)):
            if len(kinds) > 3 and (j + len(kinds)) % 2:
                continue
            _, hist, pts = setup(d, h, kinds, place, j // 4)
            got = utils_bo.get_next_best_acquisition(pts.copy(), np.array(acq), hist.copy())
            new = [i for i in range(len(pts)) if not dup(pts[i], hist)]
            ctx.check(np.shape(got) == (d,), f'get_next_best_acquisition {kinds} {acq}: shape {np.shape(got)}')
            if new:
                best = min(acq[i] for i in new)
                ctx.check(any(np.array_equal(got, pts[i]) for i in new if acq[i] == best),
                    f'get_next_best_acquisition({pts.tolist()}, {acq}, {hist.tolist()}) = {got.tolist()}')
            else:
                ctx.check(dup(got, hist), f'get_next_best_acquisition({pts.tolist()}, {acq}, {hist.tolist()}) = {got.tolist()}, not in the history')
            ctx.trans()
            ctx.trace()
            ctx.state(kinds, acq, d, h)


def gen_many(tier):
    for n in (20, 60, 128, 300):
        for h in (1, 10, 45, 120):
            for dd in (0, 1, 5, n // 2, n - 1, n):
                for d in (1, 2, 8):
                    if dd <= h:
                        yield [n, h, dd, d]


def run_many(sc, ctx):
    """Many candidates: the dd best-ranked ones are in the (long) history."""
    from mc.core import weyl
    from bayeso.utils import utils_bo
    n, h, dd, d = sc
    pts = weyl((n, d), 5) * 4 - 2
    acq = np.sin(np.arange(n) * 1.7) * 5
    order = np.argsort(acq)
    hist = weyl((h, d), 9) * 4 + 5
    pos = [(7 * i + 3) % h for i in range(dd)]
    if len(set(pos)) < dd:
        pos = list(range(dd))
    for i in range(dd):
        hist[pos[i]] = pts[order[i]]
    got = utils_bo.get_next_best_acquisition(pts.copy(), acq.copy(), hist.copy())
    if dd < n:
        ctx.identical(got, pts[order[dd]], f'{dd} best of {n} candidates are in a history of {h}, d={d}')
    else:
        ctx.check(dup(got, hist), f'all {n} candidates are in the history; got {got}')
    box = np.array([[-10.0, 10.0]] * d)
    for api in ['class:all', 'fun:all']:
        t = L.Target('float')
        m, run = L.make(api, box, 2, t, num_samples_ao=n)

        def script(j, X, Y):
            return pts[order[0]].copy(), L.info_for(len(X), pts.copy(), acq.copy(), Y, (0.1, 0.1))
        L.Spy(m, script)
        out = run(hist.copy(), np.zeros((h, 1)))
        for j in range(2):
            if dd + j < n:
                ctx.identical(out[0][h + j], pts[order[dd + j]], f'{api} {sc}: iteration {j}')
            else:
                ctx.check(dup(out[0][h + j], out[0][:h + j]), f'{api} {sc}: iteration {j}')
    ctx.trans(5)
    ctx.trace(3)
    ctx.state(*sc)


SCALES = {'1e-6': 1e-6, '1e-3': 1e-3, '1': 1.0, '1e3': 1e3, '1e5': 1e5}
VARIANTS = [dict(), dict(str_sampling_method_ao='halton', str_acq='ucb'), dict(str_sampling_method_ao='uniform', str_acq='pi', normalize_Y=False), dict(str_sampling_method_ao='gaussian', str_acq='aei', str_mlm_method='combined'),
    dict(str_sampling_method_ao='grid', str_acq='pure_exploit', str_mlm_method='converged'), dict(str_acq='pure_explore', str_cov='eq', use_ard=False), dict(str_cov='matern32', str_optimizer_method_gp='Nelder-Mead', str_optimizer_method_bo='CMA-ES')]
PATTERNS = ['all', 'first', 'last', 'norm', 'pair']


def gen_ext(tier):
    for d, sc in itertools.product([1, 2, 4, 10, 25, 60], SCALES):
        for pat in PATTERNS:
            if d > 1 or pat == 'all':
                yield ['scale', d, sc, pat]
    for v, iters, h in itertools.product(range(len(VARIANTS)), [1, 3, 12], [1, 4, 13]):
        yield ['variant', v, iters, h]
    for n, h, d in itertools.product([2, 150, 700], [2, 260, 1100], [1, 3, 12]):
        yield ['size', n, h, d]


def play(ctx, api, box, hist, pts, acq, iters, tag, kw):
    """The loop on fixed candidates, checked iteration by iteration."""
    acq = np.asarray(acq, dtype=float)

    def script(j, X, Y):
        return pts[int(np.argmin(acq))].copy(), L.info_for(len(X), pts.copy(), acq.copy(), Y, (0.1, 0.1))
    t = L.Target('float')
    h = len(hist)
    m, run = L.make(api, box, iters, t, num_samples_ao=len(pts), **kw)
    spy = L.Spy(m, script)
    out = run(hist.copy(), np.arange(h, dtype=float)[:, None])
    X = np.asarray(out[0], dtype=float)
    L.check_record(ctx, 'all', out, t, 0, hist, np.arange(h, dtype=float)[:, None], h, iters, spy, 0, tag)
    for j in range(iters):
        want = allowed(pts[int(np.argmin(acq))], pts, acq, X[:h + j])
        if want is None:
            ctx.check(dup(X[h + j], X[:h + j]), f'{tag}: iteration {j} evaluated a point that is neither a candidate nor in the history')
        else:
            ctx.check(any(np.array_equal(X[h + j], w) for w in want), lambda: f'{tag}: iteration {j} evaluated {X[h + j].tolist()[:6]}, expected {[w.tolist()[:6] for w in want]}')
        ctx.trans()
        ctx.state(tag, j)
    ctx.trace()
    ctx.outcome(np.round(X[h:], 9))


def run_ext(sc, ctx):
    """Magnitudes, dimensions, options and sizes."""
    from mc.core import weyl
    from bayeso.utils import utils_bo
    what = sc[0]
    if what == 'scale':
        _, d, sn, pat = sc
        s = SCALES[sn]
        box = np.array([[-2.0 * s, 3.0 * s], [0.0, s], [s, 2 * s]] * d)[:d]
        lo, w = box[:, 0], box[:, 1] - box[:, 0]
        hist = lo + w * (0.1 + 0.8 * weyl((4, d), 3))
        e = {'all': np.ones(d), 'first': np.eye(d)[0], 'last': np.eye(d)[-1], 'norm': np.where(np.arange(d) % 2, 1.0, -1.0), 'pair': np.eye(d)[0] - np.eye(d)[-1]}[pat]
        u = e / np.linalg.norm(e)
        new = lo + w * (0.15 + 0.7 * weyl((2, d), 8))
        offs = [0.0, 0.5e-8 * u, 0.97e-8 * u, 1.03e-8 * u, 0.9e-8 * e, 1.9e-8 * u, 1e-7 * u] if s <= 1.0 else [0.0, 0.5e-8 * u if s < 1e5 else 0.0, 3e-8 * u if s < 1e5 else 1e-7 * u, 1e-7 * u, 2e-6 * u, 1e-4 * u, 1e-2 * u]
        near = [hist[i % 4] + o for i, o in enumerate(offs)]
        sets = [([near[i]] + [near[(i + 1) % 7], new[0]], [-1.0, 0.0, 2.0]) for i in range(7)] + [(near + list(new), list(np.arange(9.0))), (near[::-1] + list(new), list(np.arange(9.0) * 1e-3)), (list(new) + near, [3.0, 4.0] + list(-np.arange(7.0)))]
        for i, (pts, acq) in enumerate(sets):
            pts = np.array(pts)
            gap = [abs(np.sqrt(np.sum((p - x) ** 2)) - TOL) for p in pts for x in hist]
            if min(gap) < 1e-11:            # on the boundary within rounding
                continue
            for api in ('class:all', 'fun:all'):
                play(ctx, api, box, hist, pts, acq, 4, f'{sc} set {i} {api}', {})
            got = utils_bo.get_next_best_acquisition(pts.copy(), np.array(acq), hist.copy())
            fresh = [k for k in range(len(pts)) if not dup(pts[k], hist)]
            ctx.check(bool(fresh) and np.array_equal(got, pts[min(fresh, key=lambda k: acq[k])]), f'{sc} set {i}: next best candidate {np.asarray(got).tolist()[:6]}')
    elif what == 'variant':
        _, v, iters, h = sc
        for d, api in itertools.product([1, 2, 3], ['class:all', 'fun:all']):
            box = np.array([[-2.0, 3.0], [0.0, 1.0], [100.0, 200.0]])[:d]
            lo, w = box[:, 0], box[:, 1] - box[:, 0]
            hist = lo + w * (0.1 + 0.8 * weyl((h, d), 3))
            for nd in (0, 1, 5):
                pts = lo + w * (0.05 + 0.9 * weyl((8, d), 11))
                for i in range(nd):
                    pts[i] = hist[(i + v) % h]
                acq = np.array([-5.0, -4.0, -4.5, -4.2, -4.9, 0.0, 1.0, 1e-3]) * (1.0 if v % 2 else 1e-6)
                play(ctx, api, box, hist, pts, acq, iters, f'{sc} d={d} {api} {nd} known', dict(VARIANTS[v]))
    else:
        _, n, h, d = sc
        box = np.array([[-10.0, 10.0]] * d)
        for k in (1, min(n, h) // 2, min(n, h)):
            pts, hist = weyl((n, d), 5) * 8 - 4, weyl((h, d), 9) * 4 + 5
            acq = np.cos(np.arange(n) * 2.3)
            order = np.argsort(acq)
            for i in range(k):
                hist[(h - 1 - i) if k % 2 else (i * (h // max(k, 1)))] = pts[order[i]]
            for api in ('class:all', 'fun:all'):
                play(ctx, api, box, hist, pts, acq, 3, f'{sc} {api} {k} known', {})


SPACES = [
    Space('extents', gen_ext, run_ext, 'magnitudes, dimensions, options and sizes', chunk=2),
    Space('loops', gen_loop, run_loop, 'both loops on all small candidate sets, rankings and histories', chunk=6),
    Space('choice', gen_direct, run_direct, 'the choice of the next best candidate'),
    Space('many', gen_many, run_many, 'many candidates and long histories'),
]
