"""C23: malformed requests are refused before the target is evaluated; edge forms are accepted."""
import itertools
import json
import os

import numpy as np

from mc.core import Space, show
from mc.props import _ops as O
from mc.props._corrupt import OPTIONAL, corruptions
from mc.props.c18 import equal, form

BOUNDS = {
    'quick': 'every documented refusal among ~14000 single-argument corruptions of 110 public operations (13053 requests, see mc/refusals.json), and of the plotting functions; every operation on its smallest inputs, on integer-valued arrays and with every count at its smallest',
    'thorough': 'in addition every pair of corruptions of different arguments of the run interfaces',
}
ASSUMPTIONS = ['the list of documented refusals (explicit assertions and hyperparameter/kernel-name checks) is committed in mc/refusals.json; a request counts as refused whatever the exception type',
    'non-finite numbers inside otherwise well-formed arrays are outside this property']
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'refusals.json')) as _f:
    REFUSED = json.load(_f)
SIZES = ('row+', 'row-', 'column+', 'column-', 'rank+1', 'rank-1', 'flat', 'empty', 'swapped', 'far')
EVALUATES = ('run.', 'thompson.run')


def bad_value(name, arg, kind):
    for k, v in corruptions(O.OPS[name].args(0)[arg], arg in OPTIONAL, arg):
        if k == kind:
            return v
    raise KeyError((name, arg, kind))


def request(ctx, name, changes, tag):
    """Performs the malformed request; it must raise and must not evaluate the target."""
    a = O.OPS[name].args(0)
    a.update(changes)
    O.CALLS[0] = 0
    np.random.seed(1)
    try:
        r = O.OPS[name].fn(**a)
    except Exception as e:
        if name.startswith(EVALUATES):
            ctx.check(O.CALLS[0] == 0, lambda: f'{tag}: refused ({type(e).__name__}) only after {O.CALLS[0]} evaluations of the target')
        return
    ctx.fail(f'{tag}: not refused, answered {show(r)}')


def gen_refuse(tier):
    for name in O.OPS:
        for arg in REFUSED.get(name, {}):
            yield [name, arg]


def run_refuse(sc, ctx):
    name, arg = sc
    for kind in REFUSED[name][arg]:
        request(ctx, name, {arg: bad_value(name, arg, kind)}, f'{name} with {arg}: {kind}')
        ctx.trans()
        ctx.state(name, arg, kind)
        ctx.outcome(kind)
    ctx.trace()
    ctx.sample([name, arg, REFUSED[name][arg][:3]])


def gen_pairs(tier):
    for name in O.OPS:
        if name.startswith(EVALUATES) and tier != 'quick':
            for a, b in itertools.combinations(sorted(REFUSED.get(name, {})), 2):
                yield [name, a, b]


def run_pairs(sc, ctx):
    name, a, b = sc
    for ka, kb in itertools.product(REFUSED[name][a], REFUSED[name][b]):
        if ka in SIZES and kb in SIZES:
            continue        # two sizes can be wrong in ways that agree with each other
        request(ctx, name, {a: bad_value(name, a, ka), b: bad_value(name, b, kb)}, f'{name} with {a}: {ka} and {b}: {kb}')
        ctx.trans()
        ctx.state(*sc, ka, kb)
    ctx.trace()


# ------------------------------------------------------------------ plotting arguments

def gen_plot(tier):
    from mc.props.c22 import FUNCS
    yield from FUNCS


def run_plot(name, ctx):
    from mc.props import c22
    plt, _ = c22.lib()
    fn, args, kw, _ = c22.make(name, c22.CFG[name])
    import inspect
    names = list(inspect.signature(fn).parameters)[:len(args)]
    full = dict(zip(names, args), **dict(kw, pause_figure=False))
    fn(**full)          # valid as it stands
    for k, x in list(full.items()):
        if isinstance(x, np.ndarray):
            bad = [('list', x.tolist()), ('number', 0.5), ('rank-1', x[0]), ('rank+1', x[None])] + ([('column+', np.concatenate((x, x[:, :1]), axis=1))] if x.ndim == 2 and x.shape[1] == 1 else [])
            if name not in ('iter', 'time'):
                bad += [('row+', np.concatenate((x, x[:1])))] if not (name == 'sample' and k == 'Ys') else []
        elif isinstance(x, bool):
            bad = [('int', 1), ('text', 'yes')]
        elif isinstance(x, int):
            bad = [('float', 2.0), ('text', '2')]
        elif isinstance(x, list):
            bad = [('text', 'abc'), ('short', x[:-1]), ('array', np.array(x))]
        else:
            bad = [('number', 3)]
        for kind, v in bad:
            ctx.refuses(lambda: fn(**dict(full, **{k: v})), f'{fn.__name__} with {k}: {kind}')
            ctx.trans()
            ctx.state(name, k, kind)
            plt.close('all')
    ctx.trace()


# ------------------------------------------------------------------ edge forms that must be accepted

def finite(r):
    if isinstance(r, dict):
        return all(finite(v) for v in r.values())
    if isinstance(r, (list, tuple)):
        return all(finite(v) for v in r)
    if r is None or isinstance(r, str) or callable(r):
        return True
    return bool(np.all(np.isfinite(np.asarray(r, dtype=float))))


SMALL = dict(num_iter=1, num_init=1, num_samples=1, num_samples_ao=1, num_initials=1, num_trees=1, num_grids=1, seed=0, depth_max=1)
NOT_INT = ('arr', 'hyps')      # text of integers differs by design; hyperparameters are floating-point numbers


def gen_edge(tier):
    for name in O.OPS:
        yield name


def run_edge(name, ctx):
    o = O.OPS[name]
    for v in (3, 4, 5):
        r = O.call(name, o.args(v))
        ctx.check(finite(r), lambda: f'{name} on the small input {v}: {show(r)}')
        ctx.trans()
        ctx.state(name, 'small', v)
        if o.kind in ('pure', 'rand'):
            for f in ('fortran', 'strided', 'readonly'):
                q = O.call(name, {k: form(x, f) for k, x in o.args(v).items()})
                ctx.check(equal(q, r, 1e-9), lambda: f'{name} on the small input {v} as {f} arrays: {show(q)}, otherwise {show(r)}')
                ctx.trans()
    for v in (0, 2):
        for k, x in o.args(v).items():
            if not isinstance(x, np.ndarray) or k in NOT_INT:
                continue
            i = np.rint(3 * x).astype(int)
            try:
                want = O.call(name, dict(o.args(v), **{k: i.astype(float)}))
            except Exception:
                continue        # these whole numbers are no valid value (outside the box, say)
            got = O.call(name, dict(o.args(v), **{k: i}))
            if o.kind != 'free':
                ctx.check(equal(got, want, 1e-6 if o.kind in ('pure', 'rand') else 1e-4), lambda: f'{name} with whole numbers as integers in {k}: {show(got)}, as floating-point numbers {show(want)}')
            ctx.trans()
            ctx.state(name, k, v, 'int')
    for k, x in o.args(0).items():
        if k in SMALL and isinstance(x, int):
            r = O.call(name, dict(o.args(0), **{k: SMALL[k]}))
            ctx.check(finite(r), lambda: f'{name} with {k}={SMALL[k]}: {show(r)}')
            ctx.trans()
            ctx.state(name, k, 'smallest')
    ctx.trace()


SPACES = [
    Space('refuse', gen_refuse, run_refuse, 'every single-argument corruption the package documents as refused'),
    Space('pairs', gen_pairs, run_pairs, 'pairs of corruptions of the run interfaces'),
    Space('plots', gen_plot, run_plot, 'malformed arguments of the plotting functions', chunk=1),
    Space('edge', gen_edge, run_edge, 'smallest inputs, integer-valued arrays, other memory layouts, smallest counts', chunk=1),
]
