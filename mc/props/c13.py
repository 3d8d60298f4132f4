"""C13: acquisition functions equal their definitions."""
import itertools

import numpy as np

from mc import ref
from mc.core import Space

BOUNDS = {
    'quick': 'all (mean, std, response set) over 11 x 8 x 18 values for the six functions, '
        'optional jitter/kappa/noise from menus; batches: every subset/permutation of a 4-point menu, '
        'batch sizes 1..6, 64, 257 and 5000; up to 36 deviations from the best response; magnitudes 1e-8..1e7 x 3 offsets x 6 forms with extreme noise, jitter and kappa',
    'thorough': 'as quick with finer menus (27 x 14 x 18)',
}
ASSUMPTIONS = ['double precision; comparison tolerance 1e-6 relative',
    'standard deviation 0 together with jitter 0 is outside the definition (0/0)']

NAMES = ['pi', 'ei', 'ucb', 'aei', 'pure_exploit', 'pure_explore']


def ysets():
    return [[0.0], [1.0], [-2.5], [0.0, 0.0], [3.0, 1.0], [1.0, 3.0], [-1.0, 2.0, 5.0],
        [5.0, 2.0, -1.0], [10.0, 0.0, 4.0, 7.0], [100.0, 1000.0], [-1e3, -1e2, 0.0],
        list(np.linspace(3, -3, 24)), list(np.linspace(-1, 9, 130)), list(np.linspace(20, -1, 3000)), list(np.linspace(-1, 20, 3000)), list(np.abs(np.linspace(-4, 9, 700)) - 1.0), [2.0] * 400 + [2.0 - 1e-9] + [2.0] * 400, [4.0] * 1200]


def means(t):
    m = [-1e3, -10.0, -1.0, -0.1, 0.0, 1e-6, 0.5, 1.0, 3.0, 10.0, 1e3]
    if t == 'thorough':
        m += list(np.linspace(-4, 4, 16))
    return m


def stds(t):
    s = [0.0, 1e-9, 1e-5, 1e-2, 0.3, 1.0, 4.0, 1e3]
    if t == 'thorough':
        s += [0.05, 0.1, 0.7, 2.0, 10.0, 50.0]
    return s


def call(A, name, m, s, Y, noise):
    if name == 'aei':
        return A.aei(m, s, Y, noise)
    if name == 'pure_exploit':
        return A.pure_exploit(m)
    if name == 'pure_explore':
        return A.pure_explore(s)
    return getattr(A, name)(m, s, Y)


def gen_values(tier):
    for name in NAMES:
        for i in range(len(ysets())):
            for noise in ([0.01, 0.5, 1e-3, 3.0] if name == 'aei' else [0.01]):
                yield [name, i, noise]


def tol(m, s, Y):
    return 1e-9 * (abs(m) + s + float(np.max(np.abs(Y))) + 1.0)


def run_values(sc, ctx):
    from bayeso import acquisition as A
    from bayeso.utils import utils_bo
    name, iy, noise = sc
    Y = np.array(ysets()[iy])[:, None]
    fn = utils_bo.choose_fun_acquisition(name, noise)
    for m in means(ctx.tier):
        for s in stds(ctx.tier):
            am, as_ = np.array([m]), np.array([s])
            got = call(A, name, am.copy(), as_.copy(), Y.copy(), noise)
            want = ref.acq(name, m, s, Y, noise)
            ctx.check(np.shape(got) == (1,), f'{name}: shape {np.shape(got)}')
            ctx.check(np.isfinite(got[0]), f'{name}({m},{s}) is not finite')
            if abs(got[0] - want) > 1e-6 * abs(want) + tol(m, s, Y):
                ctx.fail(f'{name}(mean={m}, std={s}, Y={Y.ravel()[:6]}, noise={noise}) = {got[0]!r}, definition gives {want!r}')
            if name == 'pi':
                ctx.check(0.0 <= got[0] <= 1.0, f'pi = {got[0]} outside [0, 1]')
            if name in ('ei', 'aei'):
                ctx.check(got[0] >= -1e-5, f'{name} = {got[0]} is negative')
            by = fn(pred_mean=am.copy(), pred_std=as_.copy(), Y_train=Y.copy())
            ctx.identical(by, got, f'choice by name {name} differs from the function')
            by2 = utils_bo.choose_fun_acquisition(name, noise)(am.copy(), as_.copy(), Y.copy())
            ctx.identical(by2, got, f'choice by name {name} with positional arguments differs')
            ctx.trans(3)
            ctx.trace()
            ctx.state(name, m, s, iy, noise)
            ctx.outcome(round(float(got[0]), 9))
    ctx.sample(dict(function=name, responses=Y.ravel()[:6].tolist(), noise=noise))


def gen_opts(tier):
    for iy in range(len(ysets())):
        for name in ['pi', 'ei', 'aei']:
            for j in [1e-5, 1e-3, 0.1, 1.0]:
                yield [name, iy, 'jitter', j]
        for k in [0.0, 0.5, 2.0, 10.0]:
            for inc in [True, False]:
                yield ['ucb', iy, 'kappa', [k, inc]]
                yield ['ucb', None, 'kappa', [k, inc]]


def run_opts(sc, ctx):
    from bayeso import acquisition as A
    name, iy, kind, v = sc
    Y = None if iy is None else np.array(ysets()[iy])[:, None]
    for m in means(ctx.tier):
        for s in stds(ctx.tier):
            am, as_ = np.array([m]), np.array([s])
            if kind == 'jitter':
                got = A.aei(am, as_, Y, 0.2, jitter=v) if name == 'aei' else getattr(A, name)(am, as_, Y, jitter=v)
                want = ref.acq(name, m, s, Y, 0.2, jitter=v)
            else:
                got = A.ucb(am, as_, Y, kappa=v[0], increase_kappa=v[1]) if Y is not None else \
                    A.ucb(am, as_, kappa=v[0], increase_kappa=v[1])
                want = ref.acq('ucb', m, s, Y, kappa=v[0], increase=v[1])
            t = tol(m, s, Y if Y is not None else np.zeros(1))
            ctx.check(abs(got[0] - want) <= 1e-6 * abs(want) + t,
                f'{name}({m},{s},{kind}={v}) = {got[0]!r}, definition gives {want!r}')
            ctx.trans()
            ctx.trace()
            ctx.state(name, iy, kind, v, m, s)


POINTS = [(0.5, 0.3), (-1.0, 0.0), (2.0, 1.5), (0.0, 1e-3)]


def gen_batch(tier):
    for name in NAMES:
        for r in range(1, len(POINTS) + 1):
            for p in itertools.permutations(range(len(POINTS)), r):
                yield [name, list(p), 1]
        for k in [5, 6, 64, 257, 1000, 5000]:
            yield [name, [0, 1, 2, 3], k]


def run_batch(sc, ctx):
    from bayeso import acquisition as A
    name, idx, k = sc
    if k == 1:
        pts = [POINTS[i] for i in idx]
    else:
        pts = [(POINTS[i % 4][0] + 0.01 * i, POINTS[i % 4][1] + 0.002 * i) for i in range(k)]
    m = np.array([p[0] for p in pts])
    s = np.array([p[1] for p in pts])
    for iy in (1, 4, 8, 11):
        Y = np.array(ysets()[iy])[:, None]
        got = call(A, name, m.copy(), s.copy(), Y, 0.1)
        ctx.check(got.shape == m.shape, f'{name}: batch of {len(m)} gives shape {got.shape}')
        want = np.array([ref.acq(name, a, b, Y, 0.1) for a, b in pts])
        ctx.eq(got, want, f'{name} on a batch of {len(pts)} points', atol=1e-8)
        ctx.trans()
        ctx.trace()
        ctx.state(name, idx, k, iy)


def gen_tail(tier):
    for name in ['pi', 'ei', 'aei']:
        for best in [0.0, -3.5, 40.0]:
            for sd in [1e-4, 0.02, 0.7, 1.0, 6.0, 300.0]:
                yield [name, best, sd]


def run_tail(sc, ctx):
    """Points almost certain (not) to improve: tiny values keep their size, up to rounding."""
    from bayeso import acquisition as A
    name, best, sd = sc
    for n in (1, 3):
        Y = np.array([best, best + 1.0, best + 7.0][:n])[:, None]
        for z in np.arange(-36.0, 9.0, 1.5 if ctx.tier == 'quick' else 0.25):
            m = best - z * (sd + 1e-5)
            for noise in ([0.01, 1.0] if name == 'aei' else [0.01]):
                got = float(call(A, name, np.array([m]), np.array([sd]), Y, noise)[0])
                want = ref.acq(name, m, sd, Y, noise)
                zz = (best - m) / (sd + 1e-5)
                slop = 1e-15 * abs(zz) * (1 + abs(m) + abs(best)) / (abs(best - m) + 1e-12) * abs(zz) + 1e-15 * (1 + zz * zz)
                scale = ref.acq('pi', m, sd, Y) if name == 'pi' else abs(best - m) * ref.acq('pi', m, sd, Y) + sd * ref._pdf(zz)
                t = (20 * slop + 1e-10) * scale + 1e-290
                ctx.check(abs(got - want) <= t, f'{name}(mean={m!r}, std={sd}, best={best}, noise={noise}) = {got!r}, definition gives {want!r} (tolerance {t:.1e})')
                ctx.trans()
            ctx.state(sc, n, round(float(z), 2))
            ctx.outcome(want)
    ctx.trace()


def gen_scales(tier):
    for name in NAMES:
        for scale in [1e-8, 1e-5, 1e-3, 0.05, 1.0, 30.0, 1e4, 1e7]:
            for off in [0.0, 1.0, -1e4]:
                yield [name, scale, off]


def run_scales(sc, ctx):
    """Magnitudes, offsets, data types, layouts; extreme noise, jitter and kappa."""
    from bayeso import acquisition as A
    name, scale, off = sc
    base_m = np.array([-5.0, -1.0, -0.3, 0.0, 0.2, 0.9, 1.0, 2.0, 6.0])
    base_s = np.array([0.0, 1e-3, 0.04, 0.3, 1.0, 2.5, 9.0])
    M, S = [a.ravel() for a in np.meshgrid(base_m, base_s, indexing='ij')]
    variants = {'pi': [dict(jitter=j) for j in (1e-12, 1e-8, 30.0, 1e4)], 'ei': [dict(jitter=j) for j in (1e-12, 1e-8, 30.0, 1e4)],
        'ucb': [dict(kappa=k, increase_kappa=i) for k in (1e-6, 0.03, 50.0, 1e3, 1e6, -1.0) for i in (True, False)],
        'aei': [dict(noise=v) for v in (1e-9, 1e-4, 30.0, 1e4, 1e7)]}.get(name, [])
    for ny, form in itertools.product([1, 2, 3, 8, 60], ['plain', 'float32', 'strided', 'reversed', 'int responses', 'wide last']):
        Y = np.linspace(0.1, 7.0, ny)[:, None] * scale + off
        if form == 'reversed':
            Y = Y[::-1]
        m, s = M * scale + off, S * scale
        if form == 'wide last':
            m = np.concatenate([m, [off + 1e3 * scale]])
            s = np.concatenate([s, [1e4 * scale]])
        if form == 'int responses':
            Y = np.round(Y).astype(np.int64)
        if form == 'float32':
            m, s, Y = m.astype(np.float32), s.astype(np.float32), Y.astype(np.float32)
        if form == 'strided':
            m, s = np.repeat(m, 2)[::2], np.repeat(s, 2)[::2]
        for kw in [{}] + variants:
            kw2 = dict(kw)
            if name == 'aei':
                got = A.aei(m, s, Y, kw2.pop('noise', 0.3))
            elif name in ('pure_exploit', 'pure_explore'):
                got = call(A, name, m, s, Y, 0.3)
            else:
                got = getattr(A, name)(m, s, Y, **kw)
            rk = {'jitter': kw.get('jitter', 1e-5)} if name in ('pi', 'ei') else {'kappa': kw['kappa'], 'increase': kw['increase_kappa']} if 'kappa' in kw else {}
            jit = rk.get('jitter', 1e-5)
            best = float(np.min(Y))
            eps = 1e-6 if form == 'float32' else 1e-14
            got = np.asarray(got, dtype=float)
            for i in range(len(m)):
                a, b = float(m[i]), float(s[i])
                want = ref.acq(name, a, b, Y, kw.get('noise', 0.3), **rk)
                mag = abs(a) + abs(best) + b
                if name == 'pi':
                    t = eps * mag / (b + jit) * (1 + abs(best - a) / (b + jit)) + 10 * eps
                    t = min(t, 1.0) if t < 0.01 else None       # undecidable: rounding of the difference decides
                elif name in ('ei', 'aei'):
                    t = eps * mag * (10 + min(abs(best - a) / (b + jit), 40.0) ** 2)
                    if eps * mag / (b + jit) > 0.01:
                        t += abs(best - a) + eps * mag * 10
                else:
                    t = eps * mag * 10 * max(1.0, abs(rk.get('kappa', 2.0)) * 5)
                if t is not None and not abs(got[i] - want) <= 1e-6 * abs(want) + t:
                    ctx.fail(f'{sc} {form} {kw} {ny} responses: {name}(mean={a!r}, std={b!r}, best={best!r}) = {got[i]!r}, definition gives {want!r} (tolerance {t:.1e})')
            ctx.trans()
            ctx.trace()
            ctx.state(sc, ny, form, kw)
    ctx.outcome(np.round(got / (scale + abs(off)), 6))


SPACES = [
    Space('scales', gen_scales, run_scales, 'magnitudes, offsets, data types, extreme noise, jitter and kappa', chunk=2),
    Space('tails', gen_tail, run_tail, 'tiny probabilities and improvements'),
    Space('values', gen_values, run_values, 'every function over the value grid, by function and by name'),
    Space('options', gen_opts, run_opts, 'optional jitter, kappa, increase_kappa'),
    Space('batches', gen_batch, run_batch, 'all permutations of subsets of 4 points, larger batches'),
]
