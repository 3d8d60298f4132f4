"""C03: samplers return the right count inside the box and are reproducible from a seed."""
import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np

from mc import core
from mc.core import Space, close
from mc.props import _loop
from mc.props._step import BOXES, EXTREME, SAMPLERS, box, build, count, data, step

BOUNDS = {
    'quick': '5 samplers x 14 boxes x 8 counts x 9 seeds on 3 model objects; up to 520 dimensions and 5000 points; every ordered pair of preceding calls from a menu of 9; 3 fresh processes; '
        'seeded steps of both process models x 5 samplers x 6 boxes x 3 modes, CMA-ES x 12 settings; initial points of the 6 run interfaces; 9 extreme boxes, forms of the box array, every count up to 40, many seeds; how the points of each method fill 9 boxes',
    'thorough': 'preceding call sequences of length 3, 40 seeds, every acquisition function in the seeded steps, more CMA-ES settings',
}
ASSUMPTIONS = ['seeded steps are compared up to 1e-6 of the box width', 'the random forest itself is documented to draw from the global random state: for it only the candidates are claimed']
RAND = ['uniform', 'gaussian', 'sobol', 'halton']
SEEDS = [0, 1, 2, 7, 42, 123, 1000, 2 ** 31 - 1, 2 ** 32 - 1]
COUNTS = [1, 2, 3, 4, 5, 8, 17, 33]


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def judge(ctx, x, b, n, tag):
    b = np.asarray(b, dtype=float)
    ctx.check(isinstance(x, np.ndarray) and x.shape == (n, len(b)), f'{tag}: shape {np.shape(x)}, expected {(n, len(b))}')
    ctx.check(np.all(np.isfinite(x)) and np.all(x >= b[:, 0]) and np.all(x <= b[:, 1]), f'{tag}: points outside {b.tolist()}: {x.tolist()[:5]}')


def gen_large(tier):
    for meth in SAMPLERS:
        for d, n in [(5, 40), (8, 128), (13, 7), (20, 300), (40, 5), (130, 9), (520, 3), (1, 1000), (2, 5000), (3, 257)]:
            if meth == 'grid' and d > 20:
                continue
            yield [meth, d, {1: n, 2: 70, 3: 13, 5: 4, 8: 2}.get(d, 1) if meth == 'grid' else n]


def run_large(sc, ctx):
    """High dimensions and large counts."""
    meth, d, n = sc
    b = np.array([[-1.0 - i, 2.0 + 3 * i] if i % 4 else [-5.0, -4.5] for i in range(d)])
    ms = [build(s, b, 'ei', 'L-BFGS-B', True) for s in ('gp', 'tp', 'rf')]
    got = []
    for j, s in enumerate([0, 7, 2 ** 32 - 1]):
        tag = f'{sc} seed={s}'
        before = state()
        x = ms[j].get_samples(meth, num_samples=n, seed=s)
        judge(ctx, x, b, n ** d if meth == 'grid' else n, tag)
        ctx.identical(ms[j - 1].get_samples(meth, num_samples=n, seed=s), x, f'{tag}: another object gives other points')
        if meth != 'grid':
            ctx.identical(ms[j - 2].get_initials(meth, n, seed=s), x, f'{tag}: get_initials gives other points')
            ctx.check(len(np.unique(x, axis=0)) == len(x) or meth == 'gaussian', f'{tag}: points repeat')
            for g in got:
                ctx.check(not np.array_equal(g, x), f'{tag}: another seed gave the same points')
        ctx.check(state() == before, f'{tag}: the global random state changed')
        got.append(x)
        ctx.trans(3)
        ctx.trace()
        ctx.state(sc, s)


def gen_get(tier):
    for meth, bn in itertools.product(SAMPLERS, BOXES):
        yield [meth, bn]


def run_get(sc, ctx):
    meth, bn = sc
    b = box(bn)
    d = len(b)
    seeds = SEEDS + (list(range(3, 34)) if ctx.tier == 'thorough' else [])
    ms = [build(s, b, 'ei', 'L-BFGS-B', True) for s in ('gp', 'tp', 'rf')]
    for n in COUNTS:
        if meth == 'grid' and n ** d > 1300:
            continue
        want = n ** d if meth == 'grid' else n
        got = {}
        for j, s in enumerate(seeds + [None]):
            tag = f'{sc} count={n} seed={s}'
            np.random.seed(j)
            before = state()
            x = ms[j % 3].get_samples(meth, num_samples=n, seed=s)
            ctx.check(state() == before, f'{tag}: the global random state changed')
            judge(ctx, x, b, want, tag)
            np.random.seed(j + 1000)
            y = ms[(j + 1) % 3].get_samples(meth, num_samples=n, seed=s)
            judge(ctx, y, b, want, tag)
            if s is not None or meth == 'grid':
                ctx.identical(y, x, f'{tag}: another object gives other points')
            if meth != 'grid':
                np.random.seed(5)
                z = ms[(j + 2) % 3].get_initials(meth, n, seed=s)
                judge(ctx, z, b, want, tag)
                if s is not None:
                    ctx.identical(z, x, f'{tag}: get_initials gives other points')
                else:
                    np.random.seed(5)
                    u = ms[j % 3].get_initials(meth, n)
                    if np.all(b[:, 0] < b[:, 1]):
                        ctx.check(not np.array_equal(u, z), f'{tag}: unseeded points follow the global random state')
            if s is not None:
                got[s] = x
            ctx.trans(3)
            ctx.trace()
            ctx.state(sc, n, s)
            ctx.outcome(x)
        if meth != 'grid' and np.any(b[:, 0] < b[:, 1]):
            ks = list(got)
            for i in range(len(ks)):
                for j in range(i):
                    ctx.check(not np.array_equal(got[ks[i]], got[ks[j]]), f'{sc} count={n}: seeds {ks[j]} and {ks[i]} give the same points {got[ks[i]].tolist()[:3]}')
    ctx.sample(dict(method=meth, box=BOXES[bn], count=3, seed=0, points=np.asarray(ms[0].get_samples(meth, num_samples=3, seed=0)).tolist()[:3]))


OPS = ['none', 'global', 'same', 'same-unseeded', 'other-method', 'more', 'initials', 'other-box', 'step', 'rng']


def do(op, m, meth, b):
    if op == 'global':
        np.random.seed(3)
        np.random.uniform(size=4)
    elif op == 'same':
        m.get_samples(meth, num_samples=4, seed=9)
    elif op == 'same-unseeded':
        m.get_samples(meth, num_samples=3)
    elif op == 'other-method':
        for o in SAMPLERS:
            if o != meth:
                m.get_samples(o, num_samples=2, seed=1)
    elif op == 'more':
        m.get_samples(meth, num_samples=31 if meth != 'grid' else 4, seed=0)
    elif op == 'initials':
        m.get_initials('halton', 3, seed=2)
    elif op == 'other-box':
        build('gp', np.array([[-3.0, 5.0]] * len(b)), 'ei', 'L-BFGS-B', True).get_samples(meth, num_samples=4, seed=0)
    elif op == 'step':
        X, Y = data('two', b)
        step('gp', build('gp', b, 'ei', 'L-BFGS-B', True), X, Y, 'uniform', 1, 0)
    elif op == 'rng':
        np.random.seed(None)


def gen_hist(tier):
    k = 3 if tier == 'thorough' else 2
    for meth in SAMPLERS:
        for hist in itertools.product(OPS[1:] + ([] if tier == 'thorough' else ['none']), repeat=k):
            yield [meth, list(hist)]


_BASE = {}


def run_hist(sc, ctx):
    meth, hist = sc
    for sur, bn, seed in itertools.product(['gp', 'rf'], ['three', 'neg2'], [0, 42]):
        b = box(bn)
        m = build(sur, b, 'ei', 'L-BFGS-B', True)
        want = build('tp', b, 'ei', 'L-BFGS-B', True).get_samples(meth, num_samples=4, seed=seed)
        for op in hist:
            do(op, m, meth, b)
        x = m.get_samples(meth, num_samples=4, seed=seed)
        ctx.identical(x, want, f'{sc} {sur} {bn} seed={seed}: points after these calls')
        ctx.identical(m.get_samples(meth, num_samples=4, seed=seed), want, f'{sc} {sur} {bn} seed={seed}: second call')
        ctx.trans(len(hist) + 2)
        ctx.trace()
        ctx.state(sc, sur, bn, seed)


CHILD = r'''
import sys, json
import numpy as np
sys.path.insert(0, %r)
%s
from bayeso import bo
out = []
for meth in ['uniform', 'gaussian', 'sobol', 'halton', 'grid']:
    for b in %s:
        for n in (1, 3, 6):
            for s in (0, 1, 42, 2 ** 31):
                out.append(bo.BOwGP(np.array(b)).get_samples(meth, num_samples=n, seed=s).tolist())
X = np.array([[0.1, -0.9], [0.8, -0.3], [0.5, -0.5]]); Y = np.array([[1.0], [0.2], [-0.4]])
for cls in (bo.BOwGP, bo.BOwTP):
    for o in ('L-BFGS-B', 'CMA-ES'):
        p, i = cls(np.array([[0.0, 1.0], [-1.0, -0.1]]), str_optimizer_method_bo=o).optimize(X, Y, num_samples=3, seed=0)
        out.append([p.tolist()] + i['next_points'].tolist())
print('RESULT ' + json.dumps(out))
'''
PROC_BOXES = ['unit1', 'neg2', 'three', 'flat2']


def gen_proc(tier):
    for i in range(3 if tier == 'quick' else 6):
        yield [i]


def run_proc(sc, ctx):
    """The same points in freshly started interpreters with other hash seeds and random states."""
    i, = sc
    pre = ['', 'np.random.seed(77); np.random.uniform(size=9)', 'import random; random.seed(5); np.random.seed(1)', 'import scipy.stats', 'np.random.seed(0)', 'import cma'][i]

    def child(pre, hs):
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD % (core.REPO, pre, repr([BOXES[k] for k in PROC_BOXES]))], env=env, capture_output=True, text=True, timeout=200)
        line = [l for l in r.stdout.splitlines() if l.startswith('RESULT ')]
        ctx.check(bool(line), f'{sc}: the process failed: {r.stderr[-1500:]}')
        return json.loads(line[0][7:])
    a, b = child(pre, 11 + i), child('', 0)
    ctx.check(len(a) == len(b), f'{sc}: {len(a)} and {len(b)} results')
    for j, (x, y) in enumerate(zip(a, b)):
        ctx.check(close(x, y, 1e-6, 1e-6) if j >= len(a) - 4 else x == y, f'{sc}: result {j} differs between processes: {x[:3]} / {y[:3]}')
        ctx.trans()
        ctx.state(sc, j)
    ctx.trace(2)


ACQ = ['ei', 'pure_explore', 'ucb', 'pi', 'aei', 'pure_exploit']


def gen_step(tier):
    for sur, smp, bn in itertools.product(['gp', 'tp'], SAMPLERS, ['unit1', 'neg1', 'mixed2', 'flat2', 'int2', 'three']):
        for mode in (['regular', 'combined', 'converged'] if sur == 'gp' else ['regular']):
            for acq in (ACQ if tier == 'thorough' else [ACQ[(SAMPLERS.index(smp) + len(bn)) % 2]]):
                yield [sur, 'L-BFGS-B', smp, bn, mode, acq]
    for sur, smp, bn in itertools.product(['gp', 'tp'], SAMPLERS[:4], ['unit2', 'neg2', 'int2', 'three'] if tier == 'thorough' else ['unit2', 'three']):
        for acq in (ACQ if tier == 'thorough' else ['ei' if smp != 'sobol' else 'ucb']):
            yield [sur, 'CMA-ES', smp, bn, 'regular', acq]


def run_step(sc, ctx):
    sur, opt, smp, bn, mode, acq = sc
    b = box(bn)
    w = np.maximum(np.asarray(b, dtype=float)[:, 1] - b[:, 0], 1e-9)
    X, Y = data('usual', b)
    for seed in ([0, 5] if opt != 'CMA-ES' else [0]):
        got = []
        for r in range(3):
            m = build(sur, b, acq, opt, True)
            if r == 2 and mode != 'converged' and opt != 'CMA-ES':          # same object a second time, after another seed
                step(sur, m, X, Y, smp, 2, 99, mode)
            np.random.seed(100 + r)
            random.seed(r)
            before = state()
            if r == 2 and opt == 'CMA-ES':
                continue
            p, info = step(sur, m, X.copy(), Y.copy(), smp, 2, seed, mode)
            ctx.check(state() == before, f'{sc} seed={seed}: a seeded step changed the global random state')
            got.append((p, info['next_points']))
            ctx.trans()
        for p, c in got[1:]:
            ctx.check(np.all(np.abs(p - got[0][0]) <= 1e-6 * w), f'{sc} seed={seed}: suggestion {p.tolist()} on repetition, {got[0][0].tolist()} first')
            ctx.check(c.shape == got[0][1].shape and np.all(np.abs(c - got[0][1]) <= 1e-6 * w), f'{sc} seed={seed}: candidates differ on repetition: {c.tolist()[:4]} / {got[0][1].tolist()[:4]}')
        ctx.trace()
        ctx.state(sc, seed)
        ctx.outcome(np.round(got[0][0], 6))


def gen_forest(tier):
    for smp, bn in itertools.product(SAMPLERS, BOXES):
        yield [smp, bn]


def run_forest(sc, ctx):
    """Random forests: the candidates are the seeded samples."""
    smp, bn = sc
    b = box(bn)
    X, Y = data('usual', b)
    for seed in [0, 5]:
        n = 2 if smp == 'grid' else 6
        want = build('gp', b, 'ei', 'L-BFGS-B', True).get_samples(smp, num_samples=n, seed=seed)
        for r in range(2):
            np.random.seed(100 + r)
            p, info = step('rf', build('rf', b, 'ei', None, True), X, Y, smp, n, seed)
            ctx.identical(np.asarray(info['next_points']), want, f'{sc} seed={seed}: candidates')
            ctx.trans()
        ctx.trace()
        ctx.state(sc, seed)


def gen_initial(tier):
    for api, meth, n, seed in itertools.product(['class:sampled', 'fun:sampled'], RAND, [1, 3, 6], [0, 1, 42]):
        yield [api, meth, n, seed]


def run_initial(sc, ctx):
    api, meth, n, seed = sc
    for bn in ['neg1', 'three', 'flat2']:
        b = box(bn)
        want = build('gp', b, 'ei', 'L-BFGS-B', True).get_initials(meth, n, seed=seed)
        for sur in (['gp', 'tp', 'rf'] if api.startswith('class') else ['gp']):
            for r in range(2):
                np.random.seed(r)
                t = _loop.Target()
                kw = dict(str_initial_method_bo=meth)
                m, run = _loop.make(api, b, 1, t, surrogate=sur, **kw)
                _loop.Spy(m, lambda k, X, Y: (np.mean(b, axis=1), _loop.info_for(len(X), [np.mean(b, axis=1)], [0.0], Y, (0.1, 0.1))))
                out = run(num_init=n, seed=seed)
                ctx.identical(np.asarray(out[0])[:n], want, f'{sc} {bn} {sur}: initial points of a run')
                ctx.trans()
        ctx.trace()
        ctx.state(sc, bn)


FORMS = ['plain', 'float32', 'int', 'readonly', 'fortran', 'strided', 'reversed']


def gen_ext(tier):
    for meth, bn in itertools.product(SAMPLERS, EXTREME):
        if meth != 'grid' or bn != 'sixty':
            yield ['box', meth, bn]
    for meth, f in itertools.product(SAMPLERS, FORMS):
        yield ['form', meth, f]
    for meth, d in itertools.product(SAMPLERS, [1, 2, 3]):
        yield ['counts', meth, d]
    for meth, bn in itertools.product(RAND, ['unit1', 'three', 'mixed2']):
        yield ['seeds', meth, bn]


def run_ext(sc, ctx):
    """Extreme boxes, kinds of arrays, every count, many seeds."""
    what, meth, v = sc
    tasks = []
    if what == 'box':
        b = np.array(EXTREME[v])
        tasks = [(b, n, s, {}) for n, s in itertools.product([1, 2, 3, 5, 16, 50] if meth != 'grid' else [1, 2, 3, 9], [0, 3, 99, 2 ** 32 - 1])]
    elif what == 'form':
        b = np.array([[0, 10], [-5, 5], [100, 228]], dtype={'float32': np.float32, 'int': np.int64}.get(v, float))
        if v == 'readonly':
            b.setflags(write=False)
        elif v == 'fortran':
            b = np.asfortranarray(b)
        elif v == 'strided':
            b = np.repeat(b, 2, axis=0)[::2]
        elif v == 'reversed':
            b = b[::-1]
        tasks = [(b, n, s, kw) for n, s, kw in itertools.product([1, 2, 4, 7], [0, 8], [{}, dict(debug=True)])]
    elif what == 'counts':
        b = np.array([[-7.5, -2.25], [0.0, 1.0], [10.0, 20.0]])[:v]
        top = 300 if meth != 'grid' else {1: 300, 2: 40, 3: 13}[v]
        tasks = [(b, n, n % 5, {}) for n in range(1, top + 1)] + [(b, n, 3, {}) for n in (511, 512, 513, 1024, 2048, 4000)[:6 if meth != 'grid' else 0]]
    else:
        tasks = [(box(v), 4, s, {}) for s in list(range(130)) + [10 ** k for k in range(3, 10)] + [2 ** k for k in range(8, 32)]]
    seen = {}
    obj = {}
    for i, (b, n, s, kw) in enumerate(tasks):
        key = (i % 3, bool(kw))
        if key not in obj:
            obj[key] = build(['gp', 'tp', 'rf'][i % 3], b, 'ei', ['L-BFGS-B', 'DIRECT'][i % 2 if len(kw) else 0], True, **kw)
        m = obj[key]
        tag = f'{sc} count={n} seed={s} {kw}'
        before = state()
        x = m.get_samples(meth, num_samples=n, seed=s)
        judge(ctx, x, b, n ** len(b) if meth == 'grid' else n, tag)
        y = build('gp', np.array(b, dtype=float), 'ei', 'L-BFGS-B', True).get_samples(meth, num_samples=n, seed=s)
        if what == 'form' and v == 'float32':
            ctx.eq(x, y, f'{tag}: another object gives other points', rtol=1e-5, atol=1e-4)
        else:
            ctx.identical(x, y, f'{tag}: another object gives other points')
        if meth != 'grid':
            ctx.identical(m.get_initials(meth, n, seed=s), x, f'{tag}: get_initials gives other points')
        ctx.check(state() == before, f'{tag}: the global random state changed')
        if what == 'seeds':
            k = x.tobytes()
            ctx.check(k not in seen, lambda: f'{tag}: the same points as with seed {seen[k]}')
            seen[k] = s
        ctx.trans(3)
        ctx.trace()
        ctx.state(tag)


PRIMES = [2, 3, 5, 7, 11, 13]


def gen_spread(tier):
    for meth, bn in itertools.product(SAMPLERS, ['unit1', 'neg1', 'wide1', 'unit2', 'neg2', 'mixed2', 'int2', 'three', 'six']):
        yield [meth, bn]


def run_spread(sc, ctx):
    """The points fill the box in the way the method is named after."""
    meth, bn = sc
    b = box(bn) if bn != 'six' else np.array([[-1.0 - i, 2.0 + 3 * i] for i in range(6)])
    d = len(b)
    lo, w = b[:, 0].astype(float), (b[:, 1] - b[:, 0]).astype(float)
    m = [build(s, b, 'ei', 'L-BFGS-B', True) for s in ('gp', 'tp', 'rf')]
    if meth == 'grid':
        for n in [1, 2, 3, 4, 5, 7]:
            if n ** d > 5000:
                continue
            x = m[n % 3].get_samples('grid', num_samples=n)
            want = np.array(list(itertools.product(*[np.linspace(l, l + v, n) for l, v in zip(lo, w)])))
            for y in want:
                hit = np.sum(np.all(np.abs(x - y) <= 1e-9 * (np.abs(lo) + w), axis=1))
                ctx.check(hit == 1, f'{sc} {n} values per dimension: grid point {y.tolist()} occurs {hit} times')
            ctx.trans()
            ctx.trace()
            ctx.state(*sc, n)
        return
    for i, seed in enumerate([0, 1, 5, 42, 1000, 2 ** 31 - 1] + (list(range(50, 70)) if ctx.tier == 'thorough' else [])):
        tag = f'{sc} seed={seed}'
        if meth in ('sobol', 'halton'):
            for j in range(d):
                p = 2 if meth == 'sobol' else PRIMES[j]
                for n in [p, p ** 2, p ** 3] + ([p ** 6, p ** 7] if p < 4 else []):
                    u = np.sort((m[i % 3].get_samples(meth, num_samples=n, seed=seed)[:, j] - lo[j]) / w[j])
                    k = np.arange(n)
                    ctx.check(np.all(u >= k / n - 1e-6) and np.all(u <= (k + 1) / n + 1e-6),
                        lambda: f'{tag}: {n} points, dimension {j}: not one in each of {n} equal intervals (sorted, scaled: {u[:8].tolist()})')
                    ctx.trans()
                    ctx.state(*sc, seed, j, n)
        else:
            u = (m[i % 3].get_samples(meth, num_samples=2500, seed=seed) - lo) / w
            for j in range(d):
                if meth == 'uniform':
                    c = np.histogram(u[:, j], 10, (0.0, 1.0))[0] / 2500.0
                    ctx.check(np.all(np.abs(c - 0.1) < 0.05), f'{tag}, dimension {j}: shares of the tenths {c.tolist()}')
                else:
                    ctx.check(abs(float(np.mean(u[:, j])) - 0.5) < 0.04, f'{tag}, dimension {j}: mean at {np.mean(u[:, j])} of the width')
                    c = float(np.mean(np.abs(u[:, j] - 0.5) < 0.25))
                    ctx.check(abs(c - 0.6827) < 0.08, f'{tag}, dimension {j}: {c} of the points within a quarter of the centre')
                    c = float(np.mean(np.abs(u[:, j] - 0.5) >= 0.5 - 1e-9))
                    ctx.check(c < 0.0455 + 0.035, f'{tag}, dimension {j}: {c} of the points at the bounds')
                ctx.state(*sc, seed, j)
            r = np.corrcoef(u.T) if d > 1 else np.eye(1)
            ctx.check(np.max(np.abs(r - np.eye(d))) < 0.15, f'{tag}: the dimensions are correlated: {r.tolist()}')
            ctx.check(float(np.max(np.abs(np.mean((u[1:] - u.mean(0)) * (u[:-1] - u.mean(0)), axis=0) / u.var(0)))) < 0.15, f'{tag}: consecutive points are correlated')
            ctx.trans()
        ctx.trace()


SPACES = [
    Space('spread', gen_spread, run_spread, 'the points fill the box', chunk=1),
    Space('extremes', gen_ext, run_ext, 'extreme boxes, kinds of arrays, every count, many seeds', chunk=2),
    Space('large', gen_large, run_large, 'high dimensions and large counts'),
    Space('samples', gen_get, run_get, 'every method, box, count and seed', chunk=1),
    Space('histories', gen_hist, run_hist, 'seeded sampling after every sequence of other calls', chunk=8),
    Space('processes', gen_proc, run_proc, 'seeded sampling in fresh interpreters', chunk=1),
    Space('steps', gen_step, run_step, 'seeded optimisation steps', chunk=2),
    Space('forest', gen_forest, run_forest, 'candidates of seeded forest steps', chunk=4),
    Space('initial points', gen_initial, run_initial, 'initial points of seeded runs', chunk=4),
]
