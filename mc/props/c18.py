"""C18: calls neither modify their arguments nor influence later calls."""
import itertools
import os
import pickle
import traceback

import numpy as np

from mc.core import Space, Violation, show
from mc.props import _ops as O

BOUNDS = {
    'quick': 'every ordered pair (B, A) of the 110 registered public operations, each pair in a process of its own (pairs of two slow operations in chains only); every operation with 17 other contents of every array argument and 8 sizes; every operation with the same objects refilled, after its result was scribbled over and with other shapes; all operations in chains of one process from 4 starting points in both directions; all method sequences up to length 3 on one model object and up to length 2 on two',
    'thorough': 'in addition the refilling and scribbling after every other operation, all ordered triples over the light operations and all method sequences of length 3 on two objects',
}
ASSUMPTIONS = ['the reference for a call is the same call in a freshly forked process that has only imported the package',
    'results are compared to 1e-9 (1e-4 where a numerical optimiser runs inside)',
    'runs use the grid sampler, since the random ones are unseeded inside a run']


# ------------------------------------------------------------------ values

def equal(a, b, tol):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) is type(b) and a == b
    if callable(a) or callable(b):
        return callable(a) and callable(b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
        return bool(np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol * 1e-2, equal_nan=True))
    return bool(np.array_equal(a, b))


def exact(a, b):
    return equal(a, b, 0.0)


def snap(x):
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, list):
        return [snap(v) for v in x]
    if isinstance(x, tuple):
        return tuple(snap(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def refill(old, new):
    """Gives the very objects in `old` the values of `new` where that can be done in place."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype:
        old[...] = new
        return old
    if isinstance(old, dict) and isinstance(new, dict):
        for k in list(old):
            if k not in new:
                del old[k]
        for k in new:
            old[k] = refill(old[k], new[k]) if k in old else new[k]
        return old
    if isinstance(old, list) and isinstance(new, list) and len(old) == len(new):
        for i in range(len(old)):
            old[i] = refill(old[i], new[i])
        return old
    if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == len(new):
        return tuple(refill(a, b) for a, b in zip(old, new))
    return new


def scribble(x):
    """Overwrites everything that can be overwritten in a result."""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in 'fi':
        x[...] = -77
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x['scribbled'] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append('scribbled')
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def defaults():
    from bayeso import constants
    return {k: snap(v) for k, v in vars(constants).items()
        if not k.startswith('__') and isinstance(v, (int, float, str, bool, list, tuple, dict, np.ndarray))}


def settings():
    """Process-wide settings that belong to the caller."""
    import random
    import warnings
    return {'numpy error handling': np.geterr(), 'numpy print options': repr(sorted(np.get_printoptions().items(), key=lambda t: t[0])),
        'warning filters': [str(f) for f in warnings.filters], 'environment': dict(os.environ), 'working directory': os.getcwd(),
        'state of the random module': random.getstate()}


SLOW = ('fit', 'run', 'free')
TOL = dict(pure=1e-9, rand=1e-9, fit=1e-4, run=1e-4)


# ------------------------------------------------------------------ processes

def warm():
    import importlib
    for m in ('bo', 'gp', 'tp', 'trees', 'wrappers', 'utils', 'covariance', 'acquisition', 'thompson_sampling', 'gp.gp', 'gp.gp_kernel', 'gp.gp_likelihood',
              'tp.tp', 'tp.tp_kernel', 'tp.tp_likelihood', 'trees.trees_common', 'trees.trees_random_forest', 'trees.trees_generic_trees', 'utils.utils_bo', 'utils.utils_common',
              'utils.utils_covariance', 'utils.utils_gp', 'utils.utils_logger', 'wrappers.wrappers_bo_class', 'wrappers.wrappers_bo_function'):
        importlib.import_module('bayeso.' + m)
    import gc
    gc.freeze()
    import scipy.stats, scipy.optimize, scipy.stats.qmc, scipy.special, scipy.linalg     # noqa: F401


def child(body):
    """body() in a forked process; returns its (picklable) value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', body())
            except Violation as e:
                out = ('violation', str(e))
            except BaseException as e:
                out = ('violation', f'unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Violation('the process performing the calls died')
    kind, val = pickle.loads(data)
    if kind == 'violation':
        raise Violation(val)
    return val


class Watch:
    """Performs operations and remembers what must not change afterwards."""

    def __init__(self):
        self.const = defaults()
        self.kept = []
        self.n = 0

    def do(self, name, args, what, seed=None):
        kind = O.OPS[name].kind
        # operations without randomness must not depend on the caller's random state
        self.n += 1
        before = snap(args)
        s = 1 if kind in ('rand', 'run') else 1000 + self.n
        np.random.seed(s)
        st = np.random.get_state()
        np.seterr(**[dict(divide='warn', over='warn', under='ignore', invalid='warn'), dict(all='ignore')][self.n % 2])
        sets = settings()
        r = O.OPS[name].fn(**args)
        for k, v in settings().items():
            if v != sets[k]:
                raise Violation(f'{what}: {name} changed the {k} from {str(sets[k])[:300]} to {str(v)[:300]}')
        if kind == 'pure':
            now = np.random.get_state()
            if not (np.array_equal(st[1], now[1]) and st[2:] == now[2:]):
                raise Violation(f'{what}: {name} changed the global random state')
        if O.OPS[name].out:
            r = O.OPS[name].out(r)
        for k in before:
            if not exact(before[k], args[k]):
                raise Violation(f'{what}: {name} changed its argument {k} from {show(before[k])} to {show(args[k])}')
        self.constants(what + ' then ' + name)
        return r

    def keep(self, name, r):
        self.kept.append((name, r, snap(r)))

    def settle(self, what):
        for name, r, s in self.kept:
            if not exact(r, s):
                raise Violation(f'{what}: the earlier result of {name} changed from {show(s)} to {show(r)}')
        self.constants(what)

    def constants(self, what):
        now = defaults()
        for k in self.const:
            if k not in now or not exact(self.const[k], now[k]):
                raise Violation(f'{what}: the package default {k} changed from {show(self.const[k])} to {show(now.get(k))}')


def same(name, got, want, what):
    kind = O.OPS[name].kind
    if kind == 'free':
        return
    if not equal(got, want, TOL[kind]):
        raise Violation(f'{what}: {name} gave {show(got)}, a fresh process gives {show(want)}')


_FRESH = {}


def fresh(name, v):
    if (name, v) not in _FRESH:
        _FRESH[name, v] = _fresh(name, v)
    return _FRESH[name, v]


def _fresh(name, v):
    def body():
        np.random.seed(1)
        O.CALLS[0] = 0
        r = O.OPS[name].fn(**O.OPS[name].args(v))
        return snap(O.OPS[name].out(r) if O.OPS[name].out else r)
    return child(body)


# ------------------------------------------------------------------ pairs

def gen_pairs(tier):
    for a in O.OPS:
        yield a


def run_pairs(a, ctx):
    warm()
    base = {v: fresh(a, v) for v in (0, 1, 2)}
    slow = O.OPS[a].kind in SLOW
    for b in O.OPS:
        if slow and O.OPS[b].kind in SLOW and a != b and ctx.tier == 'quick':
            continue        # in the chains

        def body():
            w = Watch()
            rb = w.do(b, O.OPS[b].args(1), f'first {b}')
            w.keep(b, rb)
            args = O.OPS[a].args(0)
            r0 = w.do(a, args, f'after {b}')
            same(a, r0, base[0], f'after {b}')
            w.settle(f'{b} then {a}')
            if b != a and ctx.tier == 'quick':
                return
            scribble(r0)
            r = w.do(a, O.OPS[a].args(0), f'after {b}, {a}')
            same(a, r, base[0], f'after {b}, {a} and overwriting the first result')
            args = O.OPS[a].args(0)
            w.do(a, args, f'after {b}')
            args = refill(args, O.OPS[a].args(1))
            r1 = w.do(a, args, f'after {b}, {a}')
            same(a, r1, base[1], f'after {b}, {a}, with the same argument objects holding other values')
            w.keep(a, r1)
            same(a, w.do(a, O.OPS[a].args(2), f'after {b}, {a}, {a}'), base[2], f'after {b} and {a} with other shapes')
            w.settle(f'{b}, {a}, {a}')
        child(body)
        ctx.trans(2)
        ctx.trace()
        ctx.state(a, b)
    ctx.outcome(a)
    ctx.sample([a, 'after every other operation'])


def gen_chain(tier):
    names = list(O.OPS)
    n = len(names)
    for shift in range(0, n, 28 if tier == 'quick' else 3):
        for step in (1, n - 1):
            yield [names[(shift + step * i) % n] for i in range(n)]


def run_chain(names, ctx):
    """All operations one after another in one process."""
    warm()
    base = {}
    for nm in names:
        base[nm] = {v: fresh(nm, v) for v in ((0, 1) if O.OPS[nm].kind in ('pure', 'rand') else (0,))}

    def body():
        w = Watch()
        for i, nm in enumerate(names):
            for v in base[nm]:
                r = w.do(nm, O.OPS[nm].args(v), f'call {i} of a chain from {names[0]}')
                same(nm, r, base[nm][v], f'call {i} of a chain from {names[0]}')
                w.keep(nm, r)
            if i % 10 == 9:
                w.settle(f'after {names[i - 9:i + 1]} in a chain from {names[0]}')
        w.settle(f'end of a chain from {names[0]}')
        return len(names)
    child(body)
    ctx.trans(len(names))
    ctx.trace()
    ctx.state(names[0], names[1])


LIGHT = ['cov_se', 'cov_main_same_matern52', 'cov_main_set_se', 'grad_cov_main_matern32', 'get_kernel_inverse', 'get_kernel_cholesky', 'gp.predict_with_cov', 'gp.predict_with_hyps',
    'gp.neg_log_ml', 'gp.neg_log_pseudo_l_loocv', 'tp.predict_with_hyps', 'tp.neg_log_ml', 'gp.sample_functions', 'acq.ei', 'acq.aei', 'trees.get_random_forest', 'trees.predict_by_trees',
    'utils.normalize_min_max', 'utils.get_grids', 'utils.get_range_hyps', 'utils.get_hyps', 'utils.restore_hyps', 'utils.choose_fun_acquisition', 'bo.gp.get_samples',
    'bo.tp.compute_acquisitions', 'bo.rf.compute_posteriors']


def gen_triples(tier):
    if tier != 'quick':
        for a, b in itertools.product(LIGHT, LIGHT):
            yield [a, b]


def run_triples(sc, ctx):
    warm()
    a, b = sc
    base = {c: fresh(c, 0) for c in LIGHT}
    for c in LIGHT:
        def body():
            w = Watch()
            w.keep(a, w.do(a, O.OPS[a].args(0), 'first'))
            w.keep(b, w.do(b, O.OPS[b].args(1), f'after {a}'))
            same(c, w.do(c, O.OPS[c].args(0), f'after {a}, {b}'), base[c], f'after {a} and {b}')
            w.settle(f'{a}, {b}, {c}')
        child(body)
        ctx.trans(3)
        ctx.trace()
        ctx.state(a, b, c)


# ------------------------------------------------------------------ memory layout and debug output

FORMS = ['fortran', 'strided', 'readonly', 'negative', 'copy']


def form(x, f):
    if isinstance(x, dict):
        return {k: form(v, f) for k, v in x.items()}
    if isinstance(x, list):
        return [form(v, f) for v in x]
    if isinstance(x, tuple):
        return tuple(form(v, f) for v in x)
    if not isinstance(x, np.ndarray):
        return x
    if f == 'fortran':
        return np.asfortranarray(x)
    if f == 'strided':
        big = np.full(tuple(2 * n for n in x.shape), 99.0, dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if f == 'negative':
        return x[::-1].copy()[::-1]
    y = x.copy()
    if f == 'readonly':
        y.flags.writeable = False
    return y


def gen_forms(tier):
    for a in O.OPS:
        yield a


def run_forms(a, ctx):
    warm()
    for v in (0, 1, 2):
        base = fresh(a, v)
        args0 = O.OPS[a].args(v)
        names = [k for k in args0 if isinstance(args0[k], (np.ndarray, dict, list, tuple))]
        sets = [(names, f) for f in FORMS] + [([k], f) for k in names for f in ('fortran', 'strided', 'readonly')]
        if O.OPS[a].kind in ('fit', 'run') and ctx.tier == 'quick':
            sets = sets[:4]
        for ks, f in sets:
            def body():
                args = O.OPS[a].args(v)
                for k in ks:
                    args[k] = form(args[k], f)
                w = Watch()
                same(a, w.do(a, args, f'arguments {ks} as {f} arrays'), base, f'arguments {ks} as {f} arrays')
            child(body)
            ctx.trans()
            ctx.state(a, v, ks, f)
        if 'debug' in args0:
            def body2():
                args = dict(O.OPS[a].args(v), debug=True)
                w = Watch()
                same(a, w.do(a, args, 'with debug output'), base, 'with debug output')
            child(body2)
            ctx.trans()
            ctx.state(a, v, 'debug')
        ctx.trace()


# ------------------------------------------------------------------ content of the arguments

def _first(x, val):
    y = x.copy()
    y.ravel()[0] = val
    return y


def _row(x):
    y = x.copy()
    if len(y) > 1:
        y[1] = y[0]
    return y


CONTENT = {
    'zeros': lambda x: np.zeros_like(x),
    'constant': lambda x: np.full_like(x, x.ravel()[0]),
    'repeated row': _row,
    'negative': lambda x: -np.abs(x) - 0.1,
    'huge': lambda x: x * 1e6,
    'tiny': lambda x: x * 1e-9,
    'shifted': lambda x: x + 1e4,
    'integers': lambda x: np.round(x).astype(np.int64),
    'single precision': lambda x: x.astype(np.float32),
    'infinite': lambda x: _first(x, np.inf),
    'minus infinite': lambda x: _first(x, -np.inf),
    'nan': lambda x: _first(x, np.nan),
    'reversed': lambda x: x[::-1].copy(),
    'sorted': lambda x: np.sort(x, axis=0),
    'rolled': lambda x: np.roll(x.ravel(), 1).reshape(x.shape),
    'slightly different': lambda x: _first(x, x.ravel()[0] + 1e-7),
    'last slightly different': lambda x: _first(x[::-1], x[::-1].ravel()[0] + 1e-4)[::-1].copy(),
}
NUMBERS = {'zero': 0.0, 'negative': -1.5, 'huge': 1e6, 'tiny': 1e-7}


def contents(name, args):
    """(argument, label, new value): every array (at any depth one) with other content."""
    def arrays(x):
        return isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.size
    for k, x in args.items():
        if arrays(x):
            for lab, f in CONTENT.items():
                yield k, lab, f(x)
        elif isinstance(x, dict) and k == 'hyps':
            for kk, y in x.items():
                if arrays(y):
                    for lab, f in CONTENT.items():
                        yield k, f'{kk} {lab}', dict(x, **{kk: f(y)})
                elif isinstance(y, float) and kk != 'dof':
                    for lab, val in NUMBERS.items():
                        yield k, f'{kk} {lab}', dict(x, **{kk: val})


def attempt(name, args, seed):
    np.random.seed(seed)
    try:
        r = O.OPS[name].fn(**args)
        return ('value', snap(O.OPS[name].out(r) if O.OPS[name].out else r))
    except Exception as e:
        return ('refused', type(e).__name__)


def gen_content(tier):
    for a in O.OPS:
        yield a


def run_content(a, ctx):
    """Content that is unusual, or close to that of the call before: answered or refused, but without touching
    the arguments and with the answer a fresh process gives."""
    warm()
    slow = O.OPS[a].kind in SLOW
    tol = TOL.get(O.OPS[a].kind)
    cases = [(v, None, 'size', None) for v in range(8)] + [(0, k, lab, val) for k, lab, val in contents(a, O.OPS[a].args(0))]
    if slow and ctx.tier == 'quick':
        cases = [c for c in cases if c[2] in ('size', 'reversed', 'slightly different', 'infinite', 'nan', 'repeated row', 'integers', 'negative')
            and (c[2] != 'size' or O.OPS[a].kind != 'run' or c[0] not in (6, 7))]
    for v, k, lab, val in cases:
        what = f'argument {k} with {lab} content' if k else f'arguments of size {v}'

        def body(first):
            w = Watch()
            args = O.OPS[a].args(v)
            if first:
                attempt(a, args, 1)
            if k:
                args[k] = snap(val)
            before = snap(args)
            st = 1
            r = attempt(a, args, st)
            for x in before:
                if not exact(before[x], args[x]):
                    raise Violation(f'{a}, {what}: changed its argument {x} from {show(before[x])} to {show(args[x])}')
            w.constants(f'{a}, {what}')
            return r
        want = child(lambda: body(False))
        got = child(lambda: body(True))
        if tol is not None and (got[0] != want[0] or (got[0] == 'value' and not equal(got[1], want[1], tol))):
            raise Violation(f'{a}, {what}: after the same call with ordinary content gave {show(got)}, a fresh process gives {show(want)}')
        ctx.trans(3)
        ctx.trace()
        ctx.state(a, what)
        ctx.outcome(a, want[0])


# ------------------------------------------------------------------ histories of model objects

def methods(m):
    """The public methods of a model object, with arguments."""
    def clip(v):
        return np.clip(O.RFX(v), O.BOX(0)[:, 0], O.BOX(0)[:, 1])
    out = {
        'optimize0': ('optimize', lambda: dict(X_train=clip(0), Y_train=O.RFY(0), str_sampling_method='grid' if m != 'rf' else 'uniform', num_samples=2 if m != 'rf' else 6, seed=3)),
        'optimize1': ('optimize', lambda: dict(X_train=clip(1), Y_train=O.RFY(1), str_sampling_method='sobol' if m != 'rf' else 'uniform', num_samples=3, seed=9)),
        'samples': ('get_samples', lambda: dict(str_sampling_method='uniform', num_samples=3, seed=1)),
        'initials': ('get_initials', lambda: dict(str_initial_method='sobol', num_initials=4, seed=2)),
    }
    if m == 'rf':
        out['posteriors'] = ('compute_posteriors', lambda: dict(X=O.XT(0), trees=O.forest(0)))
        out['acquisitions'] = ('compute_acquisitions', lambda: dict(X=O.XT(0), X_train=O.RFX(0), Y_train=O.RFY(0), trees=O.forest(0)))
        out['trees'] = ('get_trees', lambda: dict(X_train=O.RFX(0), Y_train=O.RFY(0), num_trees=2, depth_max=2, size_min_leaf=1))
    else:
        out['posteriors'] = ('compute_posteriors', lambda: dict(X_train=O.XX(0), Y_train=O.YY(0), X_test=O.XT(0), cov_X_X=O.COVX(0), inv_cov_X_X=np.linalg.inv(O.COVX(0)), hyps=O.HY(0, m == 'tp')))
        out['acquisitions'] = ('compute_acquisitions', lambda: dict(X=O.XT(0), X_train=O.XX(0), Y_train=O.YY(0), cov_X_X=O.COVX(0), inv_cov_X_X=np.linalg.inv(O.COVX(0)), hyps=O.HY(0, m == 'tp')))
    if m == 'gp':
        out['combined'] = ('optimize', lambda: dict(X_train=clip(0), Y_train=O.RFY(0), str_sampling_method='grid', num_samples=2, str_mlm_method='combined', seed=3))
    return out


def obj(m, which):
    a = O.CON[m](0)
    if which:
        a.update(str_acq='pi', normalize_Y=False, **(dict(str_cov='matern32') if m != 'rf' else {}))
    return O.build(m, a)


def step(o, m, key):
    name, args = methods(m)[key]
    a = args()
    before = snap(a)
    np.random.seed(1)
    r = getattr(o, name)(**a)
    if not all(exact(before[k], a[k]) for k in a):
        raise Violation(f'{m}.{name} changed an argument')
    if name == 'optimize':
        r = O._info(r)
    return r


def gen_obj(tier):
    for m in ('gp', 'tp', 'rf'):
        ks = list(methods(m))
        for last in ks:
            yield [m, last]


def run_obj(sc, ctx):
    warm()
    m, last = sc
    ks = list(methods(m))
    base = {}
    for which in (0, 1):
        base[which] = child(lambda: snap(step(obj(m, which), m, last)))
    one = [(0, k) for k in ks]
    two = one + [(1, k) for k in ks]
    seqs = [[x] for x in two] + [list(s) for s in itertools.product(one, repeat=2)]
    if ctx.tier != 'quick':
        seqs += [list(s) for s in itertools.product(two, repeat=2)]
    for seq in seqs:
        def body():
            objs = [obj(m, 0), obj(m, 1)]
            w = Watch()
            for i, k in seq:
                w.keep(k, step(objs[i], m, k))
            r = step(objs[0], m, last)
            if not equal(r, base[0], 1e-4 if last.startswith(('opt', 'comb')) else 1e-9):
                raise Violation(f'{m} object: {last} after {seq} gave {show(r)}, a fresh object in a fresh process gives {show(base[0])}')
            w.settle(f'{m} object: {seq} then {last}')
        child(body)
        ctx.trans(len(seq) + 1)
        ctx.trace()
        ctx.state(m, last, seq)
    ctx.outcome(m, last)


def wmethods():
    clip = lambda v: np.clip(O.XX(v), O.BOX(0)[:, 0], O.BOX(0)[:, 1])
    return {
        'optimize': ('optimize', lambda: dict(num_init=2, seed=4), 2),
        'optimize5': ('optimize', lambda: dict(num_init=3, seed=5), 2),
        'inputs': ('optimize_with_initial_inputs', lambda: dict(X=clip(0)), 2),
        'all': ('optimize_with_all_initial_information', lambda: dict(X=clip(1), Y=O.YY(1)), 2),
        'single': ('optimize_single_iteration', lambda: dict(X=clip(0), Y=O.YY(0)), None)}


def gen_wrap(tier):
    for s, last in itertools.product(['gp', 'tp', 'rf'], wmethods()):
        yield [s, last]


def run_wrap(sc, ctx):
    """Runs of one wrapper object are independent of each other."""
    warm()
    s, last = sc
    ks = list(wmethods())

    def one(o, k):
        name, args, cut = wmethods()[k]
        a = args()
        before = snap(a)
        np.random.seed(1)
        r = getattr(o, name)(**a)
        if not all(exact(before[x], a[x]) for x in a):
            raise Violation(f'{name} changed an argument')
        return tuple(r[:cut]) if cut else O._info(r)

    def new():
        return O.wrap(O._W(0, s))
    base = child(lambda: snap(one(new(), last)))
    seqs = [[k] for k in ks] + ([list(t) for t in itertools.product(ks, repeat=2)] if ctx.tier != 'quick' else [])
    for seq in seqs:
        for other in (False, True):
            def body():
                o, p = new(), new()
                w = Watch()
                for k in seq:
                    w.keep(k, one(p if other else o, k))
                r = one(o, last)
                if not equal(r, base, 1e-4):
                    raise Violation(f'{s} wrapper: {last} after {seq} (on another object: {other}) gave {show(r)}, fresh: {show(base)}')
                w.settle(f'{s} wrapper: {seq} then {last}')
            child(body)
            ctx.trans(len(seq) + 1)
            ctx.trace()
            ctx.state(s, last, seq, other)


SPACES = [
    Space('chain', gen_chain, run_chain, 'all operations after one another in one process, from several starting points and in both directions', chunk=1),
    Space('pairs', gen_pairs, run_pairs, 'every ordered pair of operations in a process of its own', chunk=1),
    Space('triples', gen_triples, run_triples, 'every ordered triple of light operations', chunk=4),
    Space('forms', gen_forms, run_forms, 'equal values in other memory layouts, read-only arguments, debug output', chunk=1),
    Space('content', gen_content, run_content, 'every array argument with other content (extreme, degenerate, infinite, almost equal) and other sizes, after a call with ordinary content', chunk=1),
    Space('objects', gen_obj, run_obj, 'method sequences on one and two model objects', chunk=1),
    Space('wrappers', gen_wrap, run_wrap, 'runs after one another on one and two wrapper objects', chunk=1),
]
