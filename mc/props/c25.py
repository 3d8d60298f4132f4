"""C25: calls in progress do not disturb each other."""
import itertools
import os
import sys
import threading

import numpy as np

from mc import core
from mc.core import Space, Violation, show
from mc.props import _ops as O
from mc.props.c18 import TOL, child, equal, fresh, snap, warm

BOUNDS = {
    'quick': 'two threads under a controlled scheduler: every pair of a random-free operation B running to its end at every source line of a random-free or seeded operation A (at most 160 points per pair, otherwise every distinct line at its first, second and last passage); numerical fits (every line) and runs (every line of wrappers and model classes) as A with one of 13 light operations and (at every eighth line) another instance of themselves; schedules with two switches (A up to k, B up to j, A to its end, B to its end) for every k and j among the first and last passages of every line; each of the first six calls of a callback (and all of them) calling the library itself; methods of one model object interrupting each other',
    'thorough': 'in addition switches at every bytecode instruction, five times as many points, and B with arguments of other shapes',
}
ASSUMPTIONS = ['the reference for a call is the same call alone in a freshly forked process',
    'a switch happens between two source lines (thorough: two bytecode instructions) of the package; code of NumPy and SciPy runs undivided',
    'operations that draw from the global random generator are only interrupted by ones that do not']

# ------------------------------------------------------------------ operations whose two argument sets differ in every option

def extra():
    if 'other.cov_main' in O.OPS:
        return
    op, HY, D, XX, YY, XT = O.op, O.HY, O.D, O.XX, O.YY, O.XT
    op('other.cov_main', 'pure', lambda v: dict(str_cov=['se', 'matern52', 'matern32'][v % 3], X=XX(v), Xp=XX(v), hyps=HY(v), same_X_Xp=True, jitter=[0.03, 0.4, 0.1][v % 3]))(lambda **a: O.L().cov_main(**a))
    op('other.cov_main_set', 'pure', lambda v: dict(str_cov=['set_se', 'set_matern52', 'set_matern32'][v % 3], X=O.SET(v), Xp=O.SET(v), hyps=HY(v), same_X_Xp=True, jitter=[0.03, 0.4, 0.1][v % 3]))(lambda **a: O.L().cov_main(**a))
    op('other.kernel', 'pure', lambda v: dict(X_train=XX(v), hyps=HY(v), str_cov=['se', 'matern52', 'matern32'][v % 3], fix_noise=v == 1, use_gradient=v == 0, debug=False))(lambda **a: O.L().get_kernel_cholesky(**a))
    op('other.kernel_inverse', 'pure', lambda v: dict(X_train=XX(v), hyps=HY(v), str_cov=['se', 'matern52', 'matern32'][v % 3], fix_noise=v == 1, use_gradient=v == 0, debug=False))(lambda **a: O.L().get_kernel_inverse(**a))

    def arr(v, gp=True):
        h = HY(v, tp=not gp)
        return np.concatenate(([] if v == 1 else [h['noise']], [] if gp else [h['dof']], [h['signal']], [0.7] if v == 1 else h['lengthscales']))
    lik = lambda v: dict(X_train=XX(v), Y_train=YY(v), hyps=arr(v), str_cov=['se', 'matern52', 'matern32'][v % 3], prior_mu_train=O.mu0(XX(v)), use_ard=v != 1, fix_noise=v == 1)
    G = lambda: __import__('bayeso.gp.gp_likelihood', fromlist=['x'])
    P = lambda: __import__('bayeso.tp.tp_likelihood', fromlist=['x'])
    op('other.gp_ml', 'pure', lambda v: dict(lik(v), use_gradient=v != 1, use_cholesky=True, debug=False))(lambda **a: G().neg_log_ml(**a))
    op('other.gp_ml_inverse', 'pure', lambda v: dict(lik(v), use_gradient=v == 1, use_cholesky=v == 1, debug=False))(lambda **a: G().neg_log_ml(**a))
    op('other.gp_loocv', 'pure', lambda v: dict(lik(v), debug=False))(lambda **a: G().neg_log_pseudo_l_loocv(**a))
    op('other.tp_ml', 'pure', lambda v: dict(lik(v), hyps=arr(v, False), use_gradient=v != 1, debug=False))(lambda **a: P().neg_log_ml(**a))
    op('other.acq_ei', 'pure', lambda v: dict(O._ms(v), Y_train=YY(v), jitter=[1e-5, 0.3, 0.1][v % 3]))(lambda **a: O.A().ei(**a))
    op('other.acq_pi', 'pure', lambda v: dict(O._ms(v), Y_train=YY(v), jitter=[1e-5, 0.3, 0.1][v % 3]))(lambda **a: O.A().pi(**a))
    op('other.acq_aei', 'pure', lambda v: dict(O._ms(v), Y_train=YY(v), noise=0.1 + v, jitter=[1e-5, 0.3, 0.1][v % 3]))(lambda **a: O.A().aei(**a))
    op('other.acq_ucb', 'pure', lambda v: dict(O._ms(v), Y_train=YY(v), kappa=2.0 + v, increase_kappa=v != 1))(lambda **a: O.A().ucb(**a))
    opts = lambda v: dict(str_cov=['se', 'matern52', 'matern32'][v % 3], use_gp=v != 1, use_ard=v != 1)
    op('other.get_hyps', 'pure', lambda v: dict(opts(v), dim=D(v) + v))(lambda **a: O.U('utils_covariance').get_hyps(**a))
    op('other.get_range_hyps', 'pure', lambda v: dict(opts(v), dim=D(v) + v, fix_noise=v == 1))(lambda **a: O.U('utils_covariance').get_range_hyps(**a))
    op('other.restore_hyps', 'pure', lambda v: dict(opts(v), hyps=arr(v, v != 1), fix_noise=v == 1, noise=0.2 + v))(lambda **a: O.U('utils_covariance').restore_hyps(**a))
    op('other.convert_hyps', 'pure', lambda v: dict(str_cov='se', hyps=HY(v, v == 1), use_gp=v != 1, fix_noise=v == 1))(lambda **a: O.U('utils_covariance').convert_hyps(**a))
    for m in ('gp', 'tp'):
        con = lambda v, m=m: dict(O.CON[m](0), str_cov=['se', 'matern52', 'matern32'][v % 3], str_acq=['aei', 'pi', 'ucb'][v % 3], normalize_Y=v != 1, use_ard=v != 1, prior_mu=O.mu0 if v == 1 else None)
        data = lambda v, m=m: dict(X_train=XX(v), Y_train=YY(v), cov_X_X=O.COVX(v), inv_cov_X_X=O._inv(v), hyps=HY(v, m == 'tp'))
        op(f'other.{m}.acquisitions', 'pure', lambda v, con=con, data=data: dict(con(v), X=XT(v), **data(v)))(lambda m=m, **a: O.build(m, a).compute_acquisitions(**a))
        op(f'other.{m}.posteriors', 'pure', lambda v, con=con, data=data: dict(con(v), X_test=XT(v), **data(v)))(lambda m=m, **a: O.build(m, a).compute_posteriors(**a))


extra()
PURE = [n for n, o in O.OPS.items() if o.kind == 'pure']
LIGHT = ['cov_main_matern52', 'cov_main_set_se', 'grad_cov_main_matern32', 'get_kernel_cholesky', 'gp.predict_with_cov', 'tp.neg_log_ml', 'gp.neg_log_pseudo_l_loocv',
    'acq.aei', 'bo.tp.compute_posteriors', 'bo.gp.compute_acquisitions', 'utils.restore_hyps', 'utils.get_grids', 'trees.predict_by_trees']
WAIT = 2.0


def pkg():
    return (os.path.realpath(core.REPO) + os.sep + 'bayeso' + os.sep, os.path.abspath(core.REPO) + os.sep + 'bayeso' + os.sep)


class Party:
    """One call in a thread of its own which stops before its at-th step and waits to be resumed."""

    def __init__(self, fn, at, opcodes=False):
        self.fn, self.at, self.opcodes = fn, at, opcodes
        self.n = 0
        self.events = []
        self.value = self.error = None
        self.reached = threading.Event()     # stopped or finished
        self.resume = threading.Event()
        self.done = threading.Event()
        self.stopped = False
        self.pre = pkg()

    def _local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.events.append((frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lasti if self.opcodes else frame.f_lineno))
            if self.n == self.at:
                self.stopped = True
                self.reached.set()
                self.resume.wait(WAIT * 20)
            self.n += 1
        return self._local

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.pre):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def body(self):
        try:
            if self.at is not None:
                sys.settrace(self._global)
            try:
                self.value = self.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.error = e
        self.done.set()
        self.reached.set()

    def start(self):
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()


def performs(name, args):
    def fn():
        r = O.OPS[name].fn(**args)
        return snap(O.OPS[name].out(r) if O.OPS[name].out else r)
    return fn


def schedule(fa, fb, k, j=None, opcodes=False):
    """A up to its k-th step; B up to its j-th step (or its end); A to its end; B to its end. A party that is
    blocked by the other one (it may wait for a lock) is left until the other has finished."""
    a, b = Party(fa, k, opcodes), Party(fb, j, opcodes)
    a.start()
    a.reached.wait()
    b.start()
    b.reached.wait(WAIT)
    a.resume.set()
    if not a.done.wait(WAIT):
        b.resume.set()
        a.done.wait()
    b.resume.set()
    b.done.wait()
    a.thread.join()
    b.thread.join()
    return a, b


def judge(a, b, na, nb, wa, wb, how):
    for p, n, w, other in ((a, na, wa, nb), (b, nb, wb, na)):
        if p.error is not None:
            raise Violation(f'{how()}: {n} raised {type(p.error).__name__}: {p.error} while {other} was in progress')
        if O.OPS[n].kind != 'free' and not equal(p.value, w, TOL[O.OPS[n].kind]):
            raise Violation(f'{how()}: {n} gave {show(p.value)} with {other} in progress, alone it gives {show(w)}')


def where(p, k):
    f, _, line = p.events[k] if k < len(p.events) else ('', 0, 'end')
    return f'{os.path.basename(f)}:{line}'


def steps(fn, opcodes=False):
    p = Party(fn, -1, opcodes)
    p.start()
    p.thread.join()
    if p.error is not None:
        raise p.error
    return p.events


def points(ev, cap):
    """All steps if there are not too many, else every distinct one at its first, second and last passage, else the first ones."""
    if len(ev) <= cap:
        return list(range(len(ev)))
    seen = {}
    for i, e in enumerate(ev):
        seen.setdefault(e, []).append(i)
    s = sorted({i for l in seen.values() for i in (l[0], l[min(1, len(l) - 1)], l[-1])})
    if len(s) > cap:
        s = sorted({i for l in seen.values() for i in (l[0], l[-1])})
    if len(s) > 2 * cap:
        s = sorted(l[0] for l in seen.values())
    return s


def seeded(fn):
    def g():
        np.random.seed(1)
        return fn()
    return g


# ------------------------------------------------------------------ one switch

def gen_inter(tier):
    for n, o in O.OPS.items():
        if o.kind == 'pure' or o.kind == 'rand' and not n.startswith(('bo', 'thompson')):
            for i in range(3):
                yield [n, i]


def run_inter(sc, ctx):
    warm()
    na, part = sc
    cap = 160 if ctx.tier == 'quick' else 800
    wa = fresh(na, 0)
    vs = (1,) if ctx.tier == 'quick' else (1, 2)
    want = {(nb, v): fresh(nb, v) for i, nb in enumerate(PURE) for v in vs if i % 3 == part}

    def body():
        ev = steps(seeded(performs(na, O.OPS[na].args(0))))
        n = 0
        for t, (nb, v) in enumerate(want):
            family = nb == na
            pts = points(ev, cap if family else min(cap, 30 if ctx.tier == 'quick' else 400))
            if not family and ctx.tier == 'quick' and len(pts) > 6:
                pts = pts[t % 4::4]     # four other operations share the points
            for k in pts:
                a, b = schedule(seeded(performs(na, O.OPS[na].args(0))), performs(nb, O.OPS[nb].args(v)), k)
                judge(a, b, na, nb, wa, want[nb, v], lambda: f'{na} stopped before {where(a, k)} (step {k}), {nb} runs, {na} continues')
                n += 1
        return n, len(ev)
    n, m = child(body)
    ctx.trans(n * 2)
    ctx.trace(n)
    for i in range(m):
        ctx.state(na, i)
    ctx.outcome(na, m)


# ------------------------------------------------------------------ one switch, each schedule in a process that has done nothing before

def gen_cold(tier):
    for n, o in O.OPS.items():
        if o.kind == 'pure':
            yield n


def run_cold(na, ctx):
    warm()
    wa, wb = fresh(na, 0), fresh(na, 1)
    ev = child(lambda: steps(performs(na, O.OPS[na].args(0))))
    for k in points(ev, 30 if ctx.tier == 'quick' else 200):
        def body():
            a, b = schedule(performs(na, O.OPS[na].args(0)), performs(na, O.OPS[na].args(1)), k)
            judge(a, b, na, na, wa, wb, lambda: f'new process: {na} stopped before {where(a, k)} (step {k}), another {na} runs, the first continues')
        child(body)
        ctx.trans(2)
        ctx.trace()
        ctx.state(na, k)


# ------------------------------------------------------------------ fits and runs

def gen_fits(tier):
    for n, o in O.OPS.items():
        if o.kind in ('fit', 'run') or o.kind == 'rand' and n.startswith(('bo', 'thompson')):
            for i in range(4 if tier == 'quick' else 12):
                yield [n, i, 4 if tier == 'quick' else 12]


QUIET = ['run.gp.optimize', 'run.tp.optimize', 'run.function', 'gp.get_optimized_kernel', 'tp.get_optimized_kernel', 'bo.gp.optimize', 'bo.tp.optimize']


def run_fits(sc, ctx):
    warm()
    na, part, of = sc
    wa = fresh(na, 0)
    O.OPS[na].args(0)

    def body():
        ev = steps(seeded(performs(na, O.OPS[na].args(0))))
        pts = points(ev, 10 if ctx.tier == 'quick' else 100)
        if ctx.tier == 'quick':
            firsts = {}
            for i, e in enumerate(ev):
                if O.OPS[na].kind != 'run' or '/wrappers' in e[0] or '/bo/' in e[0]:
                    firsts.setdefault(e, i)
            pts = sorted(firsts.values())
        n = 0
        for t, k in enumerate(pts):
            if t % of != part:
                continue
            others = [(LIGHT[(t // of) % len(LIGHT)], 1)] if ctx.tier == 'quick' else [(b, 1) for b in LIGHT]
            for nb, v in others:
                a, b = schedule(seeded(performs(na, O.OPS[na].args(0))), performs(nb, O.OPS[nb].args(v)), k)
                judge(a, b, na, nb, wa, fresh_in(nb, v), lambda: f'{na} stopped before {where(a, k)} (step {k}), {nb} runs, {na} continues')
                n += 1
            if na in QUIET and t // of % (8 if ctx.tier == 'quick' else 1) == 0:
                a, b = schedule(seeded(performs(na, O.OPS[na].args(0))), performs(na, O.OPS[na].args(1)), k)
                judge(a, b, na, na, wa, fresh_in(na, 1), lambda: f'{na} stopped before {where(a, k)} (step {k}), another {na} runs, the first continues')
                n += 1
        return n
    want = {(b, 1): fresh(b, 1) for b in LIGHT}
    if na in QUIET:
        want[na, 1] = fresh(na, 1)

    def fresh_in(nb, v):
        return want[nb, v]
    n = child(body)
    ctx.trans(2 * n)
    ctx.trace(n)
    ctx.state(na, part)


# ------------------------------------------------------------------ two switches

def gen_two(tier):
    groups = [['cov_main_se', 'cov_main_matern32', 'cov_main_matern52', 'cov_main_set_se', 'get_kernel_inverse', 'get_kernel_cholesky'],
        ['grad_cov_main_se', 'grad_cov_main_matern52', 'gp.neg_log_ml', 'tp.neg_log_ml'],
        ['gp.predict_with_hyps', 'tp.predict_with_hyps', 'gp.predict_with_cov', 'bo.gp.compute_posteriors', 'bo.gp.compute_acquisitions'],
        ['acq.ei', 'acq.aei', 'acq.pi', 'acq.ucb'],
        ['trees.predict_by_trees', 'trees.unit_predict_by_trees', 'bo.rf.compute_posteriors', 'bo.rf.compute_acquisitions'],
        ['bo.gp.get_samples', 'bo.gp.get_initials', 'bo.tp.get_samples', 'bo.rf.get_initials'],
        ['utils.get_hyps', 'utils.convert_hyps', 'utils.restore_hyps', 'utils.get_range_hyps', 'utils.validate_hyps_dict']]
    groups.append([n for n in PURE if n.startswith('other.')])
    pairs = {(n, n) for n in PURE}
    for g in groups:
        g = [n for n in g if n in O.OPS]
        pairs |= set(itertools.permutations(g, 2)) if tier != 'quick' else set(zip(g, g[1:] + g[:1]))
    for p in sorted(pairs):
        yield list(p)


def run_two(sc, ctx):
    warm()
    na, nb = sc
    wa, wb = fresh(na, 0), fresh(nb, 1)
    cap = 14 if ctx.tier == 'quick' else 60

    def thin(ev):
        p = points(ev, cap)
        if ctx.tier == 'quick' and len(p) > 40:
            first = {}
            for i in p:
                first.setdefault(ev[i], i)
            p = sorted(first.values())
        return p

    def body():
        pa = thin(steps(performs(na, O.OPS[na].args(0))))
        pb = thin(steps(performs(nb, O.OPS[nb].args(1))))
        if ctx.tier == 'quick' and len(pa) * len(pb) > 1600:
            # lines of A against lines of B: every line of each, paired along the diagonals
            combos = [(k, pb[(i * len(pb) // len(pa) + s) % len(pb)]) for i, k in enumerate(pa) for s in range(max(1, 1600 // len(pa)))]
        else:
            combos = list(itertools.product(pa, pb))
        for k, j in combos:
            a, b = schedule(performs(na, O.OPS[na].args(0)), performs(nb, O.OPS[nb].args(1)), k, j)
            judge(a, b, na, nb, wa, wb, lambda: f'{na} stopped before {where(a, k)} (step {k}), {nb} runs up to {where(b, j)} (step {j}), {na} finishes, {nb} finishes')
        return len(combos)
    n = child(body)
    ctx.trans(4 * n)
    ctx.trace(n)
    ctx.state(na, nb)
    ctx.outcome(na, nb, n)


# ------------------------------------------------------------------ every instruction (thorough)

def gen_op(tier):
    if tier != 'quick':
        yield from PURE


def run_op(na, ctx):
    warm()
    wa, wb = fresh(na, 0), fresh(na, 1)

    def body():
        ev = steps(performs(na, O.OPS[na].args(0)), True)
        pts = points(ev, 2000)
        for k in pts:
            a, b = schedule(performs(na, O.OPS[na].args(0)), performs(na, O.OPS[na].args(1)), k, None, True)
            judge(a, b, na, na, wa, wb, lambda: f'{na} stopped before instruction {where(a, k)} (step {k}), another {na} runs, the first continues')
        return len(pts)
    n = child(body)
    ctx.trans(2 * n)
    ctx.trace(n)
    ctx.state(na)


# ------------------------------------------------------------------ callbacks that use the library

def callback_ops():
    return [n for n, o in O.OPS.items() if o.kind != 'free' and any(v is O.target or v is O.mu0 for v in o.args(0).values())]


def gen_call(tier):
    for n in callback_ops():
        if tier == 'quick' and O.OPS[n].kind != 'pure':
            for i in range(3):
                yield [n, i, 3]
        else:
            yield [n, 0, 1]


def run_call(sc, ctx):
    """The call number `at` of a callback (or all of them) performs another operation before it answers."""
    warm()
    na, part, of = sc
    wa = fresh(na, 0)
    inner = [(b, 1) for b in LIGHT] + [(b, 1) for b in (QUIET if O.OPS[na].kind != 'pure' or ctx.tier != 'quick' else QUIET[3:5])] + [(na, 1)] * (na in PURE or na in QUIET)
    inner = sorted(set(inner))
    want = {x: fresh(*x) for x in inner}
    todo = [(x, at) for x in inner for at in ([0, 1, 2, 3, 4, 5, None] if x[0] in LIGHT else [0, 1, 3])]
    if ctx.tier == 'quick' and O.OPS[na].kind != 'pure':
        todo = [(x, at) for x, at in todo if at in (0, 1, 3, None)]
    todo = [t for i, t in enumerate(todo) if i % of == part]

    def body():
        for (nb, v), at in todo:
            args = O.OPS[na].args(0)
            calls = [0]

            def wraps(f):
                def g(x):
                    i, calls[0] = calls[0], calls[0] + 1
                    if at is None and i < 60 or i == at:
                        st = np.random.get_state()
                        got = performs(nb, O.OPS[nb].args(v))()
                        np.random.set_state(st)
                        if not equal(got, want[nb, v], TOL[O.OPS[nb].kind]):
                            raise Violation(f'{nb} called by call {i} of the callback of {na} gave {show(got)}, alone it gives {show(want[nb, v])}')
                    return f(x)
                return g
            for k, f in list(args.items()):
                if f is O.target or f is O.mu0:
                    args[k] = wraps(f)
            got = seeded(performs(na, args))()
            if not equal(got, wa, TOL[O.OPS[na].kind]):
                raise Violation(f'{na} gave {show(got)} when call {"any" if at is None else at} of its callback ran {nb}, otherwise it gives {show(wa)}')
        return len(todo)
    n = child(body)
    ctx.trans(2 * n)
    ctx.trace(n)
    ctx.state(na, part)


# ------------------------------------------------------------------ one object

def methods(m):
    """Methods of one model object that do not fit: name -> (method, arguments)."""
    out = {}
    for name in ('get_samples', 'get_initials', 'compute_posteriors', 'compute_acquisitions'):
        n = f'bo.{m}.{name}'
        if n in O.OPS and O.OPS[n].kind == 'pure':
            out[name] = n
    return out


def gen_obj(tier):
    for m in O.KEYS:
        for a in methods(m):
            yield [m, a]


def run_obj(sc, ctx):
    """Methods of one object, the second one with other arguments, called while the first is in progress."""
    warm()
    m, a0 = sc
    ms = methods(m)

    def call(o, meth, v):
        args = {k: x for k, x in O.OPS[ms[meth]].args(v).items() if k not in O.KEYS[m]}
        return lambda: snap(getattr(o, meth)(**args))

    def new():
        return O.build(m, dict(O.CON[m](0)))

    def alone(meth, v):
        return child(lambda: call(new(), meth, v)())
    wa = alone(a0, 0)
    for b0 in ms:
        wb = alone(b0, 1)

        def body():
            ev = steps(call(new(), a0, 0))
            pts = points(ev, 120)
            for k in pts:
                o = new()
                a, b = schedule(call(o, a0, 0), call(o, b0, 1), k)
                judge(a, b, ms[a0], ms[b0], wa, wb, lambda: f'one {m} object: {a0} stopped before {where(a, k)} (step {k}), {b0} runs, {a0} continues')
            return len(pts)
        n = child(body)
        ctx.trans(2 * n)
        ctx.trace(n)
        ctx.state(m, a0, b0)


SPACES = [
    Space('cold', gen_cold, run_cold, 'every operation interrupted by another instance of itself, each schedule in a new process', chunk=1),
    Space('callbacks', gen_call, run_call, 'target, prior mean and objective functions that use the library themselves', chunk=1),
    Space('object', gen_obj, run_obj, 'methods of one object in progress at the same time', chunk=1),
    Space('switches', gen_two, run_two, 'two operations, switching twice, at every pair of lines', chunk=1),
    Space('interrupted', gen_inter, run_inter, 'every operation stopped at every line while every random-free one runs', chunk=1),
    Space('fits', gen_fits, run_fits, 'fits and runs stopped at every line they pass (runs: every line of the wrappers and model classes)', chunk=1),
    Space('instructions', gen_op, run_op, 'every operation interrupted by another instance of itself at every bytecode instruction', chunk=1),
]
