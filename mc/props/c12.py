"""C12: hyperparameter codec, defaults, ranges, validation."""
import itertools

import numpy as np

from mc import ref
from mc.core import Space, same

KS = ref.BASE + ref.SETS
BOUNDS = {
    'quick': 'all 8 kernels x 19 dimensions up to 300 x GP/Student-t x ARD x fixed/free noise x 4 value patterns; every field at each of 17 extreme values, alone and in pairs; '
        'all single- and double-field corruptions from a menu of 8 wrong values; all ranks 0..4 for kernel names',
    'thorough': 'dimensions 1..130, 300, 1000',
}
ASSUMPTIONS = ['hyperparameter values are Python floats / float arrays, as the package requires']


def dims(t):
    return list(range(1, 13)) + [16, 20, 33, 64, 100, 129, 300] if t == 'quick' else list(range(1, 131)) + [300, 1000]


def values(pat, dim, ard, gp):
    h = {'noise': [0.013, 0.5, 1e-3, 7.0][pat % 4], 'signal': [1.7, 0.3, 250.0, 1e-2][pat % 4]}
    if not gp:
        h['dof'] = [5.5, 2.5, 150.0, 3.25][pat % 4]
    base = [0.71, 11.0, 1e-2, 333.0][pat % 4]
    h['lengthscales'] = np.array([base * (1.0 + 0.1 * i) for i in range(dim)]) if ard else float(base)
    return h


def gen_codec(tier):
    for k in KS:
        for d in dims(tier):
            yield [k, d]


def run_codec(sc, ctx):
    from bayeso.utils import utils_covariance as U
    from bayeso import constants
    k, d = sc
    for gp, ard, fix in itertools.product([True, False], repeat=3):
        tag = f'{k}, dim={d}, use_gp={gp}, use_ard={ard}, fix_noise={fix}'
        # defaults
        dflt = U.get_hyps(k, d, use_gp=gp, use_ard=ard)
        want = {'noise': 1e-2, 'signal': 1.0, 'lengthscales': np.ones(d) if ard else 1.0}
        if not gp:
            want['dof'] = 5.0
        ctx.check(set(dflt) == set(want) and all(same(dflt[n], want[n]) for n in want), f'defaults for {tag}: {dflt}')
        if ard:
            dflt['lengthscales'] *= 3.0
        dflt['noise'], dflt['signal'] = 2.0, 3.0
        dflt = U.get_hyps(k, d, use_gp=gp, use_ard=ard)
        ctx.check(set(dflt) == set(want) and all(same(dflt[n], want[n]) for n in want), f'editing the returned defaults changed them for {tag}: {dflt}')
        # ranges line up
        r = U.get_range_hyps(k, d, use_gp=gp, use_ard=ard, fix_noise=fix)
        v = U.convert_hyps(k, dflt, use_gp=gp, fix_noise=fix)
        names = ([] if fix else ['noise']) + ([] if gp else ['dof']) + ['signal'] + ['ls'] * (d if ard else 1)
        ctx.check(v.shape == (len(names),), f'vector for {tag} has shape {v.shape}')
        doc = {'noise': [1e-3, 1e1], 'dof': [2.00001, 200.0], 'signal': [1e-2, 1e3], 'ls': [1e-2, 1e3]}
        ctx.check([list(map(float, e)) for e in r] == [doc[n] for n in names], f'ranges for {tag}: {r}')
        for e, x in zip(r, v):
            ctx.check(e[0] <= x <= e[1], f'default {x} outside its range {e} for {tag}')
        for e in r:
            e[0], e[1] = -1.0, -2.0
        ctx.check([list(map(float, e)) for e in U.get_range_hyps(k, d, use_gp=gp, use_ard=ard, fix_noise=fix)] == [doc[n] for n in names],
            f'editing the returned ranges changed the defaults ({tag})')
        ctx.trans(4)
        for pat in range(4):
            h = values(pat, d, ard, gp)
            h0 = {a: (b.copy() if isinstance(b, np.ndarray) else b) for a, b in h.items()}
            v = U.convert_hyps(k, h, use_gp=gp, fix_noise=fix)
            wv = ([] if fix else [h0['noise']]) + ([] if gp else [h0['dof']]) + [h0['signal']] \
                + (list(h0['lengthscales']) if ard else [h0['lengthscales']])
            ctx.identical(v, np.array(wv), f'vector for {tag}')
            kw = dict(use_gp=gp, use_ard=ard, fix_noise=fix)
            back = U.restore_hyps(k, v, **kw)
            exp = dict(h0)
            if fix:
                exp['noise'] = constants.GP_NOISE
                ctx.check(constants.GP_NOISE == 1e-2, 'default noise changed')
                b2 = U.restore_hyps(k, v, noise=h0['noise'], **kw)
                ctx.check(float(b2['noise']) == h0['noise'], f'given fixed noise ignored ({tag})')
            for b in [back] + ([b2] if fix else []):
                ctx.check(set(b) == set(exp), f'names after the round trip for {tag}: {sorted(b)}')
                for n in exp:
                    if n == 'noise' and b is not back:
                        continue
                    ctx.identical(np.asarray(b[n], dtype=float), np.asarray(exp[n], dtype=float), f'{n} after the round trip ({tag})')
                ctx.check(isinstance(b['lengthscales'], np.ndarray) == ard, f'kind of lengthscales after the round trip ({tag})')
            ctx.check(all(same(h[n], h0[n]) for n in h0) and set(h) == set(h0), f'convert_hyps changed its argument ({tag})')
            ok = U.validate_hyps_dict(dict(h), k, d, use_gp=gp)
            ok = ok[0] if isinstance(ok, tuple) else ok
            ctx.check(all(same(ok[n], h0[n]) for n in h0) and set(ok) == set(h0), f'validation changed valid values ({tag}): {ok}')
            ctx.trans(4)
            ctx.trace()
            ctx.state(k, d, gp, ard, fix, pat)
            ctx.outcome(v)
    ctx.sample(dict(kernel=k, dim=d, flags='all 8 combinations'))


EXTREME = [-1e9, -2.5, -1e-3, -1e-12, 0.0, 1e-300, 1e-12, 1e-5, 9.99e-4, 9.99e-3, 0.5, 3.0, 199.9, 1000.5, 1e4, 1e8, 1e300]


def gen_extreme(tier):
    for k in KS:
        for d in [1, 2, 3, 7]:
            for gp, ard in itertools.product([True, False], repeat=2):
                yield [k, d, gp, ard]


def run_extreme(sc, ctx):
    """Whatever the values are, the conversions carry them unchanged."""
    from bayeso.utils import utils_covariance as U
    k, d, gp, ard = sc
    base = values(0, d, ard, gp)
    fields = ['noise', 'signal'] + ([] if gp else ['dof']) + ([('lengthscales', i) for i in range(d)] if ard else ['lengthscales'])

    def put(h, f, x):
        if isinstance(f, tuple):
            h['lengthscales'][f[1]] = x
        else:
            h[f] = x
    jobs = [[(f, x)] for f in fields for x in EXTREME]
    jobs += [[(f, x), (g, y)] for f, g in itertools.combinations(fields, 2) for x, y in itertools.product(EXTREME[::3], repeat=2)]
    for job in jobs:
        h = values(0, d, ard, gp)
        for f, x in job:
            put(h, f, x)
        for fix in (True, False):
            v = U.convert_hyps(k, h, use_gp=gp, fix_noise=fix)
            wv = ([] if fix else [h['noise']]) + ([] if gp else [h['dof']]) + [h['signal']] + (list(h['lengthscales']) if ard else [h['lengthscales']])
            ctx.identical(v, np.array(wv), f'vector for {sc}, {job}, fix_noise={fix}')
            v.setflags(write=False)
            for w in (v, np.repeat(v, 2)[::2]):
                b = U.restore_hyps(k, w, use_gp=gp, use_ard=ard, fix_noise=fix, noise=h['noise'])
                ctx.check(set(b) == set(h), f'names after the round trip for {sc}: {sorted(b)}')
                for n in h:
                    ctx.identical(np.asarray(b[n], dtype=float), np.asarray(h[n], dtype=float), f'{n} after the round trip ({sc}, {job})')
            ctx.trans(3)
        if gp or h['dof'] > 2.0:
            ok = U.validate_hyps_dict({a: np.copy(b) if isinstance(b, np.ndarray) else b for a, b in h.items()}, k, d, use_gp=gp)
            ctx.check(set(ok) == set(h) and all(same(ok[n], h[n]) for n in h), f'validation changed valid values ({sc}, {job}): {ok}')
        ctx.trace()
        ctx.state(sc, str(job))
    # a shared length scale leaves no room for more values
    if not ard:
        for extra in (-1, 1, 2):
            n = (2 if gp else 3) + extra
            ctx.refuses(lambda: U.restore_hyps(k, np.ones(n), use_gp=gp, use_ard=False, fix_noise=True), f'{n} values for one shared length scale ({sc})')


BAD = {'absent': None, 'int': 1, 'str': 'abc', 'none': None, 'list': [1.0], 'bool_dict': {}, 'tuple': (1.0,), 'complex': 1j}


def gen_bad(tier):
    for k in KS:
        for d in [1, 2, 3, 5]:
            yield [k, d]


def run_bad(sc, ctx):
    from bayeso.utils import utils_covariance as U
    k, d = sc
    for gp, ard in itertools.product([True, False], repeat=2):
        fields = ['noise', 'signal', 'lengthscales'] + ([] if gp else ['dof'])
        bad_sets = [[f] for f in fields] + [list(c) for c in itertools.combinations(fields, 2)]
        for fs in bad_sets:
            for kind in BAD:
                h = values(0, d, ard, gp)
                for f in fs:
                    if kind == 'absent':
                        del h[f]
                    else:
                        h[f] = BAD[kind]
                ctx.refuses(lambda: U.validate_hyps_dict(h, k, d, use_gp=gp), f'hyperparameters with {kind} {fs} ({k}, dim {d}, gp {gp})')
                ctx.trans()
                ctx.trace()
                ctx.state(k, d, gp, ard, fs, kind)
        for m in range(1, 8):
            if m != d:
                h = values(0, m, True, gp)
                ctx.refuses(lambda: U.validate_hyps_dict(h, k, d, use_gp=gp), f'{m} length scales for {d} dimensions')
                ctx.trans()
        if not gp:
            for dof in [-1.0, 0.0, 1.0, 2.0]:
                h = values(0, d, ard, gp)
                h['dof'] = dof
                r = U.validate_hyps_dict(h, k, d, use_gp=False)
                ctx.check(2.0 < r['dof'] < 2.1, f'dof {dof} became {r["dof"]}')
                w = values(0, d, ard, gp)
                ctx.check(all(same(r[n], w[n]) for n in w if n != 'dof'), 'other fields changed')
                ctx.trans()
            for dof in [2.00001, 2.5, 5.0, 200.0, 1e6]:
                h = values(0, d, ard, gp)
                h['dof'] = dof
                r = U.validate_hyps_dict(h, k, d, use_gp=False)
                ctx.check(r['dof'] == dof, f'valid dof {dof} became {r["dof"]}')
            h = values(0, d, ard, True)
            ctx.refuses(lambda: U.validate_hyps_dict(h, k, d, use_gp=False), 'no dof for a Student-t process')
        for noise in [1e-9, 1e-3, 5.0, 1e3, 1e9, -0.1]:
            h = values(0, d, ard, gp)
            h['noise'] = noise
            r = U.validate_hyps_dict(h, k, d, use_gp=gp)
            ctx.check(r['noise'] == noise, f'noise {noise} became {r["noise"]}')


def gen_rank(tier):
    for k in KS + ['abc', 'SE', 'set_', 'matern', 'set', '']:
        yield [k]


def run_rank(sc, ctx):
    from bayeso.utils import utils_covariance as U
    k, = sc
    shapes = {1: (3,), 2: (3, 2), 3: (3, 4, 2), 4: (2, 2, 2, 2), 0: ()}
    need = 3 if k in ref.SETS else 2
    for a in range(5):
        for b in [None, 0, 1, 2, 3, 4]:
            good = k in KS and a == need and (b is None or b == need)
            f = (lambda: U.check_str_cov('f', k, shapes[a])) if b is None else (lambda: U.check_str_cov('f', k, shapes[a], shape_X2=shapes[b]))
            if good:
                f()
            else:
                ctx.refuses(lambda: (f(), 'accepted')[1], f'kernel {k!r} with ranks {a}, {b}')
            ctx.trans()
            ctx.trace()
            ctx.state(k, a, b)
    if k not in KS:
        for fn in [lambda: U.get_hyps(k, 2), lambda: U.get_range_hyps(k, 2),
                   lambda: U.convert_hyps(k, values(0, 2, True, True)), lambda: U.restore_hyps(k, np.ones(4)),
                   lambda: U.validate_hyps_dict(values(0, 2, True, True), k, 2)]:
            ctx.refuses(fn, f'unknown kernel {k!r}')


SPACES = [
    Space('codec', gen_codec, run_codec, 'round trip, defaults and ranges'),
    Space('extremes', gen_extreme, run_extreme, 'any value of any field survives the conversions'),
    Space('corrupt', gen_bad, run_bad, 'corrupted dictionaries'),
    Space('rank', gen_rank, run_rank, 'kernel names against ranks'),
]
