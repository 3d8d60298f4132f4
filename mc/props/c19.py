"""C19: each message is logged once and values are rendered faithfully."""
import contextlib
import itertools
import logging
import os
import re
import tempfile

import numpy as np

from mc.core import Space, weyl
from mc.props._step import data

BOUNDS = {
    'quick': 'every sequence of up to 5 operations from an alphabet of 7 (obtain two names, log at 3 levels through either handle, construct model objects); each logging setting of the 3 model objects with 1..4 objects, all run interfaces; all ordered pairs of 25 names x 7 message texts, by function and by model object; '
        'arrays of 36 shapes x 18 starting values x 7 number types x 5 layouts; the header of a run for every value of every option and 3 surrogates; hyperparameter dictionaries over all orders of up to 3 keys and rotations of all 12',
    'thorough': 'sequences of up to 6 operations, headers for every pair of option values',
}
ASSUMPTIONS = ['names are flat (a dotted name is, as everywhere in logging, a child of the name before the dot) and the root logger has no handler of its own']


@contextlib.contextmanager
def capture():
    """Everything written to standard error, at file-descriptor level."""
    import sys
    sys.stderr.flush()
    f = tempfile.TemporaryFile(mode='w+b')
    old = os.dup(2)
    out = []
    try:
        os.dup2(f.fileno(), 2)
        yield out
    finally:
        sys.stderr.flush()
        os.dup2(old, 2)
        os.close(old)
        f.seek(0)
        out.append(f.read().decode('utf-8', 'replace'))
        f.close()


_N = [0]
OPS = ['getA', 'getB', 'logA', 'logA0', 'logB', 'modelA', 'modelB']


def gen_seq(tier):
    for k in range(1, 6 if tier == 'quick' else 7):
        for s in itertools.product(range(len(OPS)), repeat=k):
            if k > 2 and not any(OPS[i].startswith('log') for i in s):
                continue
            if not OPS[s[-1]].startswith('log'):      # what a sequence did is seen by logging at its end
                continue
            yield list(s)


def run_seq(sc, ctx):
    from bayeso import bo
    from bayeso.utils import utils_logger
    _N[0] += 1
    run = f'{os.getpid()}x{_N[0]}'
    exp = {'A': f'first{run}', 'B': f'second{run}'}
    name = {k: f'bo_w_gp_{v}' for k, v in exp.items()}
    first, last, sent = {}, {}, []
    box = np.array([[0.0, 1.0]])

    def get(k):
        lg = utils_logger.get_logger(name[k])
        ctx.check(isinstance(lg, logging.Logger) and lg.name == name[k], f'{sc}: logger {lg}')
        first.setdefault(k, lg)
        last[k] = lg
        return lg
    with capture() as out:
        for j, i in enumerate(sc):
            op = OPS[i]
            k = op[-1] if op[-1] in 'AB' else op[-2]
            if op.startswith('get'):
                get(k)
            elif op.startswith('model'):
                m = bo.BOwGP(box, str_exp=exp[k], debug=bool(j % 2))
                last[k] = m.logger if hasattr(m, 'logger') else get(k)
            else:
                lg = (first if op.endswith('0') else last).get(k) or get(k)
                msg = f'message-{run}-{j}'
                lv = ['debug', 'info', 'warning', 'error', 'critical'][j % 5]
                if j % 2:
                    getattr(lg, lv)('%s %d', msg, j)
                    sent.append((k, f'{msg} {j}', lv))
                else:
                    getattr(lg, lv)(msg)
                    sent.append((k, msg, lv))
            ctx.trans()
    lines = [l for l in out[0].splitlines() if l]
    ctx.check(len(lines) == len(sent), f'{[OPS[i] for i in sc]}: {len(sent)} messages, {len(lines)} lines: {lines[:8]}')
    for (k, msg, lv), line in zip(sent, lines):
        ctx.check(line.endswith(msg) and name[k] in line and name['A' if k == 'B' else 'B'] not in line and lv.upper() in line, f'{[OPS[i] for i in sc]}: message {msg} of {name[k]} appeared as {line}')
    ctx.trace()
    ctx.state(tuple(sc))
    ctx.sample(dict(sequence=[OPS[i] for i in sc], lines=lines))
    for k in name.values():
        logging.Logger.manager.loggerDict.pop(k, None)


NAMES = ['exp', 'Exp', 'EXP', 'exp ', ' exp', 'exp_', '_exp', 'exp1', 'exp2', 'exp12', 'ex', 'e', 'bo', 'root_', 'a b', 'a-b', 'a_b', 'caf\u00e9', 'x' * 40, 'x' * 41, '0', '1', 'None', 'gp', 'bo_w_gp_x']
TEXTS = ['plain', '100 % done', '%s %d {x}', 'caf\u00e9', 'with [brackets], commas', 'x' * 3000, '']


def gen_names(tier):
    for i, j in itertools.product(range(len(NAMES)), repeat=2):
        if i != j:
            yield [i, j]


def run_names(sc, ctx):
    """Any two different flat names stay apart, through the function and through model objects."""
    from bayeso import bo
    from bayeso.utils import utils_logger
    _N[0] += 1
    tag = f'q{os.getpid()}x{_N[0]}'
    a, b = NAMES[sc[0]] + tag, NAMES[sc[1]] + tag
    if sc[0] % 2:
        a, b = tag + NAMES[sc[0]], tag + NAMES[sc[1]]
    for way in ('function', 'model'):
        if way == 'function':
            na, nb = a, b
            la, lb = utils_logger.get_logger(a), utils_logger.get_logger(b)
        else:
            na, nb = f'bo_w_gp_{a}', f'bo_w_gp_{b}'
            la, lb = (bo.BOwGP(np.array([[0.0, 1.0]]), str_exp=n).logger for n in (a, b))
        ctx.check(la.name == na and lb.name == nb, f'loggers of {na!r}, {nb!r} are named {la.name!r}, {lb.name!r}')
        text = TEXTS[(sc[0] + sc[1]) % len(TEXTS)]
        with capture() as out:
            la.info(text)
            lb.debug(text + tag)
            la.warning(tag)
        lines = out[0].splitlines()
        want = [(na, text), (nb, text + tag), (na, tag)]
        ctx.check(len(lines) == 3 and all(n in l and l.endswith(t) for l, (n, t) in zip(lines, want)), f'{way} {na!r}, {nb!r}: three messages appeared as {[l[:200] for l in lines]}')
        ctx.trans(5)
        ctx.trace()
        for k in (na, nb):
            logging.Logger.manager.loggerDict.pop(k, None)
    ctx.state(*sc)


def clean(text):
    t = [re.sub(r'\d\d/\d\d/\d{4}-\d\d:\d\d:\d\d', 'T', l) for l in text.splitlines()]
    return [re.sub(r'[-+]?\d+(\.\d+)?(e[-+]?\d+)?', '#', l) for l in t if l]


def gen_step(tier):
    for sur, exp, n in itertools.product(['gp', 'tp', 'rf'], [None, 'expname'], [1, 2, 4]):
        yield [sur, exp, n, 2, 2, {}]
    for sur, d, ns in itertools.product(['gp', 'tp', 'rf'], [1, 3, 7], [1, 5, 20]):
        yield [sur, 'expname', 2, d, ns, {}]
    for acq, opt in itertools.product(['pi', 'ucb', 'aei', 'pure_explore', 'pure_exploit'], ['L-BFGS-B', 'CMA-ES']):
        yield ['gp', None, 2, 2, 3, dict(str_acq=acq, str_optimizer_method_bo=opt)]
    for mlm in ('regular', 'combined', 'converged'):
        yield ['gp', None, 3, 2, 2, dict(mlm=mlm)]


def run_step(sc, ctx):
    """A step with messages on prints the same lines however many objects share the name."""
    from bayeso import bo
    sur, exp, n, d, ns, kw = sc
    cls = {'gp': bo.BOwGP, 'tp': bo.BOwTP, 'rf': bo.BOwTrees}[sur]
    b = np.array([[0.0, 1.0], [-1.0, 2.0]] * 4)[:d]
    X, Y = data('two', b)
    step = dict(str_mlm_method=kw['mlm']) if 'mlm' in kw else {}
    kw = {a: v for a, v in kw.items() if a != 'mlm'}
    outs = []
    for r in range(n):
        m = cls(b, str_exp=exp, debug=True, **kw)
        np.random.seed(1)
        with capture() as out:
            m.optimize(X, Y, str_sampling_method='uniform', num_samples=ns, seed=1, **step)
        outs.append(clean(out[0]))
        ctx.trans()
    ctx.check(len(outs[0]) > 0, f'{sc}: nothing was printed')
    for r, o in enumerate(outs):
        ctx.check(o == outs[0], f'{sc}: object {r + 1} under this name prints {len(o)} lines, the first one {len(outs[0])}: {o[:4]} / {outs[0][:4]}')
    mark = f'bo_w_{sur}_{exp}' if exp else f'bo_w_{sur}'
    heads = [l for l in outs[0] if l.startswith('[') and f'-{mark}-' in l]
    ctx.check(len(heads) > 0, f'{sc}: no line under the name {mark}: {outs[0][:3]}')
    over = [l for l in outs[0] if 'overall time' in l]
    ctx.check(len(over) <= 1, f'{sc}: the closing line appears {len(over)} times')
    ctx.trace()
    ctx.state(sc)


# ------------------------------------------------------------------ rendering

VALS = [0.0, -0.0, 1.0, -1.2345, 1e-4, 0.0005, 0.0015, 123456.789, -1e15, 2.9995, 1e-7, -4.9e-4, -5.1e-4, 999.9996, 1e20, np.inf, -np.inf, np.nan]


def parse(t):
    """Nested lists of tokens."""
    toks = re.findall(r'\[|\]|,|[^\[\],]+', t)
    stack, cur = [], None
    for tok in toks:
        tok = tok.strip()
        if not tok or tok == ',':
            continue
        if tok == '[':
            stack.append([])
        elif tok == ']':
            done = stack.pop()
            if not stack:
                cur = done
            else:
                stack[-1].append(done)
        else:
            stack[-1].append(tok)
    return cur


def match(ctx, got, arr, tag, digits=True):
    if arr.ndim == 0:
        x = arr.item()
        ctx.check(isinstance(got, str), f'{tag}: nesting differs')
        if isinstance(x, float):
            v = float(got)
            ok = (v == x) or (v != v and x != x) or abs(v - x) <= 0.0005000001 + 1e-12 * abs(x)
            ctx.check(ok, f'{tag}: {x} rendered as {got}')
            if digits and np.isfinite(x):
                ctx.check(re.fullmatch(r'-?\d+\.\d{3}', got) is not None, f'{tag}: {x} rendered as {got}, not with three decimals')
        else:
            ctx.check(got == str(x), f'{tag}: {x!r} rendered as {got}')
        return
    ctx.check(isinstance(got, list) and len(got) == arr.shape[0], f'{tag}: {got} has not {arr.shape[0]} parts')
    for g, a in zip(got, arr):
        match(ctx, g, np.asarray(a), tag, digits)


SHAPES = [(0,), (1,), (2,), (5,), (12,), (1, 1), (1, 3), (3, 1), (2, 2), (4, 3), (0, 2), (1, 1, 1), (2, 1, 3), (1, 3, 2), (3, 2, 1), (2, 2, 2), (1500,), (40, 30), (60, 2), (2, 75), (130, 1), (3, 40, 2), (55, 2, 2), (2, 2, 60), (1, 300), (20, 1, 1), (9,), (10,), (100,), (101,), (0, 0), (1100, 2), (3, 1100), (1030, 1, 1), (0, 2, 2), (2, 0, 3)]


def array(shape, off, dt):
    n = int(np.prod(shape))
    v = np.array([VALS[(off + i) % len(VALS)] * (1 + (i // len(VALS)) * 0.01) for i in range(n)])
    if dt in ('i8', 'i4', 'u1'):
        v = np.array([(off * 3 + 7 * i) % 120 - (0 if dt == 'u1' else 50) for i in range(n)])
    elif dt == 'bool':
        v = np.array([(off + i) % 2 == 0 for i in range(n)])
    return v.astype(dt).reshape(shape)


def gen_arr(tier):
    for s, off in itertools.product(range(len(SHAPES)), range(18)):
        yield [s, off]


def run_arr(sc, ctx):
    from bayeso.utils import utils_logger as ul
    shape = SHAPES[sc[0]]
    for dt in ['f8', 'f4', 'f2', 'i8', 'i4', 'u1', 'bool']:
        a = array(shape, sc[1], dt)
        fns = [ul.get_str_array, {1: ul.get_str_array_1d, 2: ul.get_str_array_2d, 3: ul.get_str_array_3d}[len(shape)]]
        ro = a.copy()
        ro.flags.writeable = False
        for b in (a, np.asfortranarray(a), a[::-1], ro, np.repeat(a, 2, axis=-1)[..., ::2]):
            for fn in fns:
                t = fn(b)
                ctx.check(isinstance(t, str), f'{shape} {dt}: {type(t)}')
                match(ctx, parse(t), b, f'{shape} {dt} {t[:60]!r}', True)
                ctx.trans()
            ctx.trace()
        ctx.state(sc, dt)
        ctx.outcome(t)


ITEMS = [('noise', 0.01), ('signal', 1.23456), ('lengthscales', np.array([0.5, 2.0, 33.33333])), ('dof', 5.0), ('dim', 3), ('str', 'abc'), ('arr2', np.array([[1.0, 2.0], [3.0, 4.5]])), ('one', np.array([7.0])), ('small', 4e-7), ('long', np.arange(25) / 7.0), ('neg', -1e5), ('a b', True)]


def gen_hyps(tier):
    for r in range(len(ITEMS)):      # all keys at once, in every rotation and its reverse
        p = [(r + i) % len(ITEMS) for i in range(len(ITEMS))]
        yield p
        yield p[::-1]
    for k in range(0, 4 if tier == 'quick' else 5):
        for p in itertools.permutations(range(len(ITEMS)), k):
            yield list(p)


def run_hyps(sc, ctx):
    from bayeso.utils import utils_logger as ul
    h = {ITEMS[i][0]: ITEMS[i][1] for i in sc}
    t = ul.get_str_hyps(h)
    ctx.check(isinstance(t, str) and t.startswith('{') and t.endswith('}'), f'{sc}: {t!r}')
    rest = t[1:-1]
    pos = []
    for k in h:
        ctx.check(rest.count(f"'{k}':") == 1, f'{sc}: key {k} in {t!r}')
        pos.append(rest.index(f"'{k}':"))
    ctx.check(pos == sorted(pos), f'{sc}: order of keys in {t!r}')
    for j, k in enumerate(h):
        part = rest[pos[j] + len(k) + 3:pos[j + 1] if j + 1 < len(pos) else None].strip().rstrip(',').strip()
        v = h[k]
        if isinstance(v, np.ndarray):
            match(ctx, parse(part), v, f'{sc} {k} in {t!r}')
        else:
            match(ctx, part, np.asarray(v), f'{sc} {k} in {t!r}')
    ctx.trans()
    ctx.trace()
    ctx.state(tuple(sc))
    ctx.outcome(t)


HEAD = {
    'gp': dict(str_cov=['matern52', 'se', 'matern32', 'eq'], use_ard=[True, False], str_optimizer_method_gp=['BFGS', 'L-BFGS-B', 'Nelder-Mead', 'SLSQP', 'SLSQP-Bounded'],
        str_mlm_method=['regular', 'combined', 'converged'], str_modelselection_method=['ml', 'loocv'], str_optimizer_method_bo=['L-BFGS-B', 'CMA-ES']),
    'tp': dict(str_cov=['matern52', 'se', 'matern32', 'eq'], use_ard=[True, False], str_optimizer_method_tp=['SLSQP', 'L-BFGS-B'], str_optimizer_method_bo=['L-BFGS-B', 'CMA-ES']),
    'rf': dict(str_optimizer_method_bo=['random_search']),
}
COMMON = dict(str_acq=['ei', 'pi', 'ucb', 'aei', 'pure_exploit', 'pure_explore'], normalize_Y=[True, False], str_initial_method_bo=['sobol', 'uniform', 'gaussian', 'halton'],
    str_sampling_method_ao=['uniform', 'sobol', 'grid', 'gaussian', 'halton'], num_samples_ao=[2, 1, 17], num_iter=[1, 2, 30], debug=[False, True],
    num_init=[1, 4, 12], seed=[None, 0, 7, 123456], range_X=[0, 1, 2])
BOXES = [np.array([[-1.5, 2.0], [0.0, 3.125]]), np.array([[0.0, 1.0], [-1e3, 1e3]]), np.array([[0, 1], [2, 5]])]


def gen_head(tier):
    for sur in HEAD:
        opts = dict(COMMON, **HEAD[sur])
        for k in opts:
            for v in range(len(opts[k])):
                yield [sur, k, v]
                if tier != 'quick':
                    for k2 in opts:
                        for v2 in range(1, len(opts[k2])):
                            if k2 > k and v:
                                yield [sur, k, v, k2, v2]


def run_head(sc, ctx):
    """The header of a run shows every option with the value in use."""
    from bayeso.utils import utils_logger as ul
    from bayeso.wrappers import BayesianOptimization
    sur = sc[0]
    opts = dict(COMMON, **HEAD[sur])
    use = {k: opts[k][0] for k in opts}
    for k, v in zip(sc[1::2], sc[2::2]):
        use[k] = opts[k][v]
    use['range_X'] = BOXES[use['range_X']]
    _N[0] += 1
    exp = f'head{os.getpid()}x{_N[0]}'
    kw = {k: v for k, v in use.items() if k not in ('num_init', 'seed', 'range_X', 'num_iter')}
    with capture() as out:
        w = BayesianOptimization(use['range_X'], lambda x: float(np.sum(x)), use['num_iter'], str_surrogate=sur, str_exp=exp, **kw)
        w.print_info(use['num_init'], use['seed'])
    logging.Logger.manager.loggerDict.pop(f'bo_w_{sur}_{exp}', None)
    text = out[0]
    for k, v in dict(use, str_surrogate=sur).items():
        if k == 'range_X':
            ctx.check(text.count(ul.get_str_array(v)) == 1, lambda: f'{sc}: the search space is not shown once in {text!r}')
            continue
        hits = [ln for ln in text.splitlines() if re.search(r'(?<![A-Za-z_])' + k + r': ', ln)]
        ctx.check(len(hits) == 1, lambda: f'{sc}: {k} shown {len(hits)} times in {text!r}')
        ctx.check(hits[0].endswith(f'{k}: {v}'), lambda: f'{sc}: {k}={v!r} shown as {hits[0]!r}')
        ctx.trans()
    ctx.trace()
    ctx.state(*sc)
    ctx.outcome(len(text.splitlines()))


SPACES = [
    Space('sequences', gen_seq, run_seq, 'every short sequence of obtaining, logging and constructing'),
    Space('names', gen_names, run_names, 'all pairs of names from a menu'),
    Space('steps', gen_step, run_step, 'messages of optimisation steps', chunk=1),
    Space('header', gen_head, run_head, 'the header of a run for every value of every option'),
    Space('arrays', gen_arr, run_arr, 'text of arrays'),
    Space('hyperparameters', gen_hyps, run_hyps, 'text of hyperparameters'),
]
