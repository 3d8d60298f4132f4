"""C20: the convergence mode as a state machine."""
import itertools

import numpy as np

from mc import menu, ref
from mc.core import Space, close

BOUNDS = {
    'quick': 'all sequences of 4 data sets from 5 (responses scaled by 1, 1.03, 1.07, 3 - the second in another order, the third at other points - and a larger one) in the convergence mode for 2 kernels; '
        'all sequences of 3 (mode, data set) steps over 3 modes; all interleavings of 2 objects over 4 steps (3 when they carry the same experiment name); '
        '5 fitting methods x 2 criteria x ARD on 9 sequences; forty steps with one change at 5 positions; depth 12 sequences with one change of the data at every position, depth 13 with one step in another mode at every position and other data afterwards; growing data up to 64 points; 762 runs over dimensions 1, 2, 3, 6, up to 111 points, response scales 1e-3..1e4, offsets, prior means, debug; the rule on records of three magnitudes and up to 120 lengthscales, 5 thresholds',
    'thorough': 'all sequences of 5 data sets, all 4-step mode sequences',
}
ASSUMPTIONS = ['a fit is whatever get_optimized_kernel returns for the data and the settings of the object (checked by C11)',
    'sequences whose relative change lies in [4.5 %, 5.5 %] are cut there (rounding could decide either way)']
_fits = {}


def data(i):
    if isinstance(i, (list, tuple)):    # [d, n, kind, scale, offset, set, shift of the inputs]
        d, n, kind, scale, off, m, key = i
        X = menu.sets(n, m, d, 'plain', key) if m else menu.inputs(n, d, 'plain', key)
        return X, off + scale * menu.responses(X, kind)
    X = menu.inputs(5, 1, 'plain', 2)
    Y = menu.responses(X, 'rough')
    if i >= 100:    # i - 100 points, responses almost proportional to the former ones (or not)
        X = menu.inputs(i % 100, 1, 'plain', 2)
        return X, (menu.responses(X, 'smooth') if i < 200 else menu.responses(X, 'rough') * (1.0 + i % 3))
    if i == 1:      # the same points in another order: the fit moves by 3 %, the kernel matrix entirely
        return X[::-1].copy(), Y[::-1] * 1.03
    if i == 2:      # other points, as many as before
        return X * 1.01 + 0.3, Y * 1.07
    if i < 4:
        return X, Y * [1.0, None, None, 3.0][i]
    X = np.vstack([X, X[:1] + 0.5, X[1:2] - 0.4])
    return X, menu.responses(X, 'smooth')


def fit(i, cfg, normalise, opt=None, prior='none'):
    from bayeso.gp import gp_kernel
    k, o, ms, ard = cfg
    key = (repr(i), tuple(cfg), normalise, opt, prior)
    if key not in _fits:
        X, Y = data(i)
        if normalise:
            Y = ref.normalise(Y)
        _fits[key] = gp_kernel.get_optimized_kernel(X, Y, menu.prior(prior), k, str_optimizer_method=opt or o,
            str_modelselection_method=ms, use_ard=ard)[2]
    return _fits[key]


def vec(h):
    return np.concatenate([[float(h['signal'])], np.atleast_1d(h['lengthscales'])])


def eqh(a, b):
    return set(a) == set(b) and all(close(a[x], b[x], 1e-6, 1e-9) for x in a)


class Ref:
    """The state machine: record of hyperparameters, settled or not."""
    def __init__(self, cfg, normalise, prior='none'):
        self.cfg, self.normalise, self.prior = cfg, normalise, prior
        self.record, self.settled = [], False

    def step(self, mode, i):
        """Returns the list of admissible hyperparameters of this step, or None when undecided."""
        if mode == 'converged':
            if self.settled:
                return [self.record[-1]]
            h = fit(i, self.cfg, False, None, self.prior)
            if self.record:
                p = vec(self.record[-1])
                r = np.linalg.norm(vec(h) - p) / np.linalg.norm(p)
                if 0.045 < r < 0.055:
                    return None
                self.settled = bool(r < 0.05)
            return [h]
        if mode == 'regular':
            return [fit(i, self.cfg, self.normalise, None, self.prior)]
        return [fit(i, self.cfg, self.normalise, o, self.prior) for o in ('BFGS', 'Nelder-Mead')]


def make(cfg, normalise=True, d=1, prior='none', debug=False, exp=None):
    from bayeso import bo
    k, o, ms, ard = cfg
    return bo.BOwGP(np.array([[-3.0, 3.0]] * d), prior_mu=menu.prior(prior), debug=debug, str_cov=k, str_acq='pure_explore', normalize_Y=normalise, use_ard=ard,
        str_optimizer_method_gp=o, str_modelselection_method=ms, str_exp=exp)


def do(ctx, obj, machine, mode, i, tag):
    X, Y = data(i)
    allowed = machine.step(mode, i)
    if allowed is None:
        return False
    _, info = obj.optimize(X, Y, str_sampling_method='uniform', num_samples=1, str_mlm_method=mode, seed=1)
    h = info['hyps']
    ok = [a for a in allowed if eqh(h, a)]
    ctx.check(ok, lambda: f'{tag}: step ({mode}, data {i}) used {h}, expected {allowed[0]} (settled: {machine.settled})')
    machine.record.append(h)
    ctx.eq(info['cov_X_X'], ref.train_gram(machine.cfg[0], X, h), f'{tag}: kernel matrix is not the one of the current data', rtol=1e-6, atol=1e-9 * (1 + float(h['signal']) ** 2))
    ctx.check(np.max(np.abs(info['cov_X_X'] @ info['inv_cov_X_X'] - np.eye(len(X)))) < 1e-5 + 1e-14 * np.linalg.cond(info['cov_X_X']), f'{tag}: inverse does not belong to the current data')
    rec = obj.historical_hyps
    ctx.check(len(rec) == len(machine.record) and all(eqh(a, b) for a, b in zip(rec, machine.record)),
        lambda: f'{tag}: record {rec} instead of {machine.record}')
    want = Y if mode == 'converged' or not machine.normalise else ref.normalise(Y)
    ctx.eq(info['Y_normalized'], want, f'{tag}: responses used by the step', atol=1e-9 * max(1.0, float(np.max(np.abs(want)))))
    ctx.trans()
    ctx.state(mode, i, machine.settled, len(rec), np.round(vec(h), 5))
    return True


BASE = [['se', 'BFGS', 'ml', True], ['matern52', 'BFGS', 'ml', True]]


def gen_seq(tier):
    for cfg in BASE:
        for s in itertools.product(range(5), repeat=4 if tier == 'quick' else 5):
            yield [cfg, [['converged', i] for i in s], True]


def gen_mode(tier):
    alpha = [['converged', 0], ['converged', 1], ['converged', 3], ['regular', 0], ['regular', 3], ['combined', 0], ['converged', 4]]
    for s in itertools.product(alpha, repeat=3 if tier == 'quick' else 4):
        for nrm in [True, False]:
            yield [BASE[0], list(s), nrm]


def gen_long(tier):
    for cfg in BASE:
        for pos in range(12):
            for alt in (1, 2, 3, 4):
                yield [cfg, [['converged', alt if p == pos else 0] for p in range(12)], True]
        yield [cfg, [['converged', p % 2 * 3] for p in range(12)], True]
        yield [cfg, [['converged', [0, 3, 4][p % 3]] for p in range(12)], True]
    for pos in (None, 15, 20, 31, 37):      # forty steps
        yield [BASE[0], [['converged', 3 if p == pos else 0] for p in range(40)], True]
        yield [BASE[1], [['regular' if p == pos else 'converged', [0, 3][pos is not None and p > pos]] for p in range(40)], True]
    for pos in range(12):       # one step in another mode at every position, then other data
        for mode, i in itertools.product(['regular', 'combined'], [0, 3]):
            if mode == 'regular' or tier != 'quick' or pos % 3 == 1:
                for after in (0, 3):
                    yield [BASE[pos % 2], [[mode, i] if p == pos else ['converged', 0 if p < pos else after] for p in range(13)], True]


def gen_grow(tier):
    for base in (100, 200):
        for seq in ([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], [1, 5, 10, 20, 30, 40, 50, 51, 64], [30, 31, 10, 11, 3, 20, 21]):
            for pre in ([], [['regular', base + 6]]):
                yield [BASE[1], pre + [['converged', base + n] for n in seq], True]
            yield [BASE[0], [['converged', base + n] for n in seq], False]
            yield [BASE[0], [['regular', base + n] for n in seq], True]


def gen_cfg(tier):
    for k in ['matern32', 'eq', 'se', 'matern52']:
        for o in ['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded']:
            for ms in ['ml', 'loocv']:
                for ard in [True, False]:
                    for s in ([0, 0, 3], [0, 3, 3, 4], [3, 0, 0, 4, 4]):
                        yield [[k, o, ms, ard], [['converged', i] for i in s], True]


def run_seq(sc, ctx):
    cfg, steps, nrm = sc
    obj, m = make(cfg, nrm), Ref(cfg, nrm)
    for j, (mode, i) in enumerate(steps):
        if not do(ctx, obj, m, mode, i, f'{sc} step {j}'):
            break
    ctx.trace()
    ctx.outcome(m.settled, len(m.record))
    ctx.sample(dict(config=cfg, steps=steps))


def gen_ext(tier):
    """Dimensions, sets, scales and offsets of the responses, prior means, the debug flag."""
    def D(d=2, n=6, kind='rough', scale=1.0, off=0.0, m=0, key=2):
        return [d, n, kind, scale, off, m, key]
    runs = []
    for d in (2, 3, 6):
        runs += [[D(d), D(d), D(d, n=8)], [D(d), D(d, scale=1.03), D(d, scale=3.0), D(d, scale=3.0), D(d)]]
    for sc in (1e-3, 100.0, 1e4):
        runs.append([D(1, scale=sc), D(1, scale=sc * 1.02), D(1, scale=sc * 4), D(1)])
    for off in (-50.0, 50.0):
        runs.append([D(1, off=off), D(1, off=off), D(1)])
    runs += [[D(2, 40), D(2, 40), D(2, 41)], [D(1, 110, 'smooth'), D(1, 110, 'smooth'), D(1, 111, 'smooth')],
        [D(1, kind='const'), D(1, kind='const'), D(1)], [D(1, kind='zero'), D(1), D(1), D(1, kind='zero')],
        [D(1, key=2), D(1, key=3), D(1, key=4), D(1, key=5)]]
    for run in runs:
        big = max(x[1] for x in run) > 30
        for modes in (['converged'], ['regular', 'converged', 'converged'], ['combined', 'converged', 'regular']):
            for prior in ['none'] if big else ['none', 'linear']:
                for dbg in [False] if big else [False, True]:
                    for cfg in (BASE[1:] if big or dbg else BASE + [['matern32', 'BFGS', 'ml', False], ['se', 'L-BFGS-B', 'loocv', True]]):
                        for nrm in ([True] if big or dbg else [True, False]):
                            yield [cfg, [[modes[j % len(modes)], x] for j, x in enumerate(run)], nrm, prior, dbg]


def run_ext(sc, ctx):
    import contextlib
    import io
    cfg, steps, nrm, prior, dbg = sc
    obj, m = make(cfg, nrm, steps[0][1][0], prior, dbg), Ref(cfg, nrm, prior)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for j, (mode, i) in enumerate(steps):
            if not do(ctx, obj, m, mode, i, f'{sc} step {j}'):
                break
    ctx.trace()
    ctx.outcome(m.settled, len(m.record))


def gen_two(tier):
    for who in itertools.product([0, 1], repeat=4):
        for s in itertools.product([0, 1, 3], repeat=4):
            yield [list(who), list(s)]
    for who in itertools.product([0, 1], repeat=3):     # two objects of one experiment
        for s in itertools.product([0, 1, 3], repeat=3):
            yield [list(who), list(s), 'trial']


def run_two(sc, ctx):
    who, s = sc[:2]
    cfg, exp = BASE[0], sc[2] if len(sc) > 2 else None
    objs, ms = [make(cfg, exp=exp), make(cfg, exp=exp)], [Ref(cfg, True), Ref(cfg, True)]
    for j, (w, i) in enumerate(zip(who, s)):
        if not do(ctx, objs[w], ms[w], 'converged', i, f'two objects {sc} step {j} on object {w}'):
            break
        o = 1 - w
        ctx.check(len(objs[o].historical_hyps) == len(ms[o].record), f'two objects {sc}: step {j} on object {w} changed the record of the other')
    ctx.trace()


def gen_rule(tier):
    for k in ref.BASE + ref.SETS:
        for d in (1, 2, 5):
            for ard in (True, False):
                for fix in (True, False):
                    for size in (1.0, 1e-4, 1e4):
                        yield [k, d, ard, fix, size]
    for size in (1.0, 1e-3):
        yield ['matern52', 120, True, False, size]


def run_rule(sc, ctx):
    """The five per cent rule itself, on explicit records."""
    from bayeso.utils import utils_bo
    k, d, ard, fix, size = sc
    def mk(f, noise=0.01):
        return {'noise': noise * size, 'signal': size * 2.0 * f[0], 'lengthscales': size * np.array([1.0 + i for i in range(d)]) * np.array((f[1:] * d)[:d]) if ard else size * 3.0 * f[1]}
    def v(h):
        return np.concatenate([[] if fix else [h['noise']], vec(h)])
    fs = [(1.0, 1.0), (1.01, 1.01), (1.0005, 1.0005), (1.04, 1.04), (1.06, 1.06), (1.5, 1.0), (1.0, 1.5), (0.96, 0.96), (0.94, 0.94), (0.5, 0.5), (3.0, 3.0), (-1.0, 1.0)]
    for noise in (0.01, 3.0):
        for a, b in itertools.product(fs, repeat=2):
            new = mk(b, noise)
            for hist in ([], [mk(a)], [mk(b, noise), mk(a)], [mk(a), mk((9.0, 9.0))], [mk((9.0, 9.0)), mk((5.0, 5.0)), mk(a)]):
                for thr in (None, 0.2, 0.01, 0.001, 1.5):
                    args = dict() if thr is None else dict(ratio_threshold=thr)
                    got = utils_bo.check_hyps_convergence([dict(x) for x in hist], dict(new), k, fix, **args)
                    t = 0.05 if thr is None else thr
                    if not hist:
                        want = False
                    else:
                        r = np.linalg.norm(v(new) - v(hist[-1])) / np.linalg.norm(v(hist[-1]))
                        if abs(r - t) < 1e-6 * t:
                            continue
                        want = bool(r < t)
                    ctx.check(bool(got) == want, f'check_hyps_convergence({hist} -> {new}, {k}, fix_noise={fix}, threshold {t}) = {got}')
                    ctx.trans()
                    ctx.trace()
            ctx.state(sc, noise, a, b)


SPACES = [
    Space('sequences', gen_seq, run_seq, 'all data-set sequences in the convergence mode', chunk=16),
    Space('modes', gen_mode, run_seq, 'all sequences mixing the three modes', chunk=16),
    Space('long', gen_long, run_seq, 'twelve steps with one change at every position', chunk=6),
    Space('growing', gen_grow, run_seq, 'runs whose data grow up to 64 points', chunk=1),
    Space('extents', gen_ext, run_ext, 'dimensions, sizes, scales and offsets of the responses, prior means, debug flag', chunk=4),
    Space('settings', gen_cfg, run_seq, 'fitting methods, criteria, ARD', chunk=6),
    Space('two objects', gen_two, run_two, 'all interleavings of two objects', chunk=16),
    Space('rule', gen_rule, run_rule, 'the five per cent rule', chunk=4),
]
