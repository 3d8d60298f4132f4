"""C22: plots show the data they are given and are saved where asked."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc.core import Space, weyl

BOUNDS = {
    'quick': 'every plotting function x data sets of 1..5 points and 1..4 curves x every option flag; up to 700 points, 60 curves or 110 rounds; 7 scales of either axis; 8 forms of the data (integers, read-only, strided, ties, constants, offsets), given colours and markers; saving: both functions\' arguments present/absent x pausing on/off; every ordered pair of functions drawn after one another',
    'thorough': 'larger data grids, every ordered triple of functions, 16 curves (more than there are colours)',
}
ASSUMPTIONS = ['matplotlib (Agg backend) is trusted; figures are judged by the artists on their axes, not by pixels',
    'LaTeX is not installed, so use_tex=True is observed on the text objects only']
FUNCS = ['sample', 'dist', 'iter', 'time', 'step', 'acq']


def lib():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from bayeso.utils import utils_plotting as P
    return plt, P


def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(np.round(to_rgba(c)[:3], 6))


# ------------------------------------------------------------------ reading a figure

def lines(ax):
    out = []
    for ln in ax.get_lines():
        x, y = np.asarray(ln.get_xdata(), dtype=float).ravel(), np.asarray(ln.get_ydata(), dtype=float).ravel()
        if x.size:
            m = ln.get_marker()
            s = ln.get_linestyle()
            out.append(dict(x=x, y=y, colour=rgba(ln.get_color()), marker=None if m in (None, 'None', 'none', ' ', '') else m,
                line=s not in ('None', 'none', ' ', ''), label=str(ln.get_label())))
    return out


def bands(ax):
    from matplotlib.collections import PolyCollection
    out = []
    for c in ax.collections:
        if isinstance(c, PolyCollection):
            v = np.concatenate([p.vertices for p in c.get_paths()]) if c.get_paths() else np.zeros((0, 2))
            f = c.get_facecolor()
            out.append(dict(v=v, colour=tuple(np.round(f[0][:3], 6)) if len(f) else None))
    return out


def pts(x, y):
    return sorted((round(float(a), 9), round(float(b), 9)) for a, b in zip(np.ravel(x), np.ravel(y)))


def is_curve(ln, x, y):
    x, y = np.ravel(x).astype(float), np.ravel(y).astype(float)
    return ln['x'].shape == x.shape and np.allclose(ln['x'], x, rtol=1e-9, atol=1e-11 * np.max(np.abs(x))) \
        and np.allclose(ln['y'], y, rtol=1e-9, atol=1e-11 * np.max(np.abs(y)))


def check_curves(ctx, got, want, tag):
    """Matches the drawn curves with the wanted (x, y) one to one; returns them in that order."""
    ctx.check(len(got) == len(want), lambda: f'{tag}: {len(got)} curves drawn, expected {len(want)}')
    left, order = list(got), []
    for x, y in want:
        m = [g for g in left if is_curve(g, x, y)]
        ctx.check(m, lambda: f'{tag}: no curve shows x={np.ravel(x).tolist()} y={np.ravel(y).tolist()}; drawn {[(g["x"].tolist(), g["y"].tolist()) for g in left]}')
        order.append(m[0])
        left = [g for g in left if g is not m[0]]
    return order


def check_band(ctx, band, x, lo, hi, tag):
    x, lo, hi = np.ravel(x), np.ravel(lo), np.ravel(hi)
    v = band['v']
    sx, sy = 1e-9 * np.max(np.abs(x)) + 1e-15, 1e-9 * np.max(np.abs(np.concatenate((lo, hi)))) + 1e-15
    v = v / np.array([[sx, sy]])
    corners = np.concatenate((np.stack((x, lo), 1), np.stack((x, hi), 1))) / np.array([[sx, sy]])
    for c in corners:
        ctx.check(len(v) and np.min(np.max(np.abs(v - c), axis=1)) <= 1.0, lambda: f'{tag}: the band misses its corner {(c * [sx, sy]).tolist()}; it has {(v * [sx, sy]).tolist()}')
    for p in v:
        ctx.check(np.min(np.max(np.abs(corners - p), axis=1)) <= 1.0, lambda: f'{tag}: the band has the corner {(p * [sx, sy]).tolist()} that mean +- multiple * deviation does not have')


def covers(ctx, ax, x, tag):
    lo, hi = sorted(ax.get_xlim())
    s = 1e-9 * (1 + np.max(np.abs(x)))
    ctx.check(lo <= np.min(x) + s and hi >= np.max(x) - s, lambda: f'{tag}: x range [{lo}, {hi}] does not show all of [{np.min(x)}, {np.max(x)}]')


def zero_axis(ctx, axes, want, tag):
    for ax in axes:
        p = ax.spines['bottom'].get_position()
        at = p == 'zero' or (isinstance(p, tuple) and p[0] == 'data' and p[1] == 0)
        ctx.check(at == want, f'{tag}: draw_zero_axis={want}, the horizontal axis is at {p}')


class Session:
    """Calls a plotting function and hands out the figures it left open."""

    def __init__(self, ctx):
        self.plt, self.P = lib()
        self.ctx = ctx

    def __enter__(self):
        self.plt.close('all')
        self.before = set()
        return self

    def __exit__(self, *a):
        self.plt.close('all')

    def call(self, fn, args, kw, tag):
        plt = self.plt
        old = set(plt.get_fignums())
        snap = [np.array(a) if isinstance(a, np.ndarray) else list(a) if isinstance(a, list) else a for a in args]
        r = fn(*args, **dict(dict(pause_figure=False), **kw))
        self.ctx.trans()
        self.ctx.check(r is None, lambda: f'{tag}: returned {r!r}')
        for a, b in zip(args, snap):
            if isinstance(a, (np.ndarray, list)):
                self.ctx.identical(a, b, f'{tag}: an argument was changed')
        new = [n for n in plt.get_fignums() if n not in old]
        self.ctx.check(all(n in plt.get_fignums() for n in old), f'{tag}: an earlier figure was closed')
        return [plt.figure(n) for n in new]


def pick(ctx, figs, naxes, tag):
    f = [g for g in figs if len(g.axes) == naxes]
    ctx.check(len(f) == 1, lambda: f'{tag}: {len(f)} new figures with {naxes} axes (of {len(figs)} new ones)')
    return f[0].axes


# ------------------------------------------------------------------ the data and what must be seen

def grid(n, key=0, lo=-2.0, hi=3.0):
    return np.linspace(lo, hi, n)[:, None] + 0.0 if n > 1 else np.array([[0.5 + key]])


FORMS = ['int', 'ro', 'strided', 'F', 'ties', 'const', 'zero', 'big offset']


def form(kind, *arrs):
    """The same data in another form."""
    out = []
    for a in arrs:
        if kind in ('int', 'ties'):
            a = np.round(a)
            a = a.astype(int) if kind == 'int' else a
        elif kind in ('const', 'zero'):
            a = np.full(a.shape, 1.75 if kind == 'const' else 0.0)
        elif kind == 'F':
            a = np.asfortranarray(a)
        elif kind == 'strided':
            a = np.repeat(a, 2, axis=0)[::2]
        elif kind == 'big offset':
            a = a + 1e4
        if kind == 'ro':
            a = a.copy()
            a.flags.writeable = False
        out.append(a)
    return out[0] if len(out) == 1 else out


COLS = np.array(['#112233', 'lime', '#ff8800', '#00ccee', 'k'])
MARKS = np.array(['v', 'P', 'X'])


def make(name, cfg):
    """Arguments, keywords, and a judge(ctx, figures, tag) for one call."""
    plt, P = lib()
    kw = {}
    lab = cfg.get('labels')
    if lab:
        kw.update(str_x_axis='abscissa', str_y_axis='ordinate')
    if 'zero' in cfg:
        kw['draw_zero_axis'] = cfg['zero']

    def labels(ctx, axx, axy, dx, dy, tag):
        ctx.check(axx.get_xlabel() == ('abscissa' if lab else dx), lambda: f'{tag}: x label {axx.get_xlabel()!r}')
        ctx.check(axy.get_ylabel() == ('ordinate' if lab else dy), lambda: f'{tag}: y label {axy.get_ylabel()!r}')

    if name == 'sample':
        n, m = cfg['n'], cfg['m']
        X = grid(n)
        if cfg.get('reverse'):
            X = X[::-1].copy()
        Ys = (6 * weyl((m, n), 3) - 3) * cfg.get('scale', 1.0)
        X = X * cfg.get('xscale', 1.0)
        Ys = form(cfg.get('form'), Ys)
        if cfg.get('form') not in ('const', 'zero'):
            X = form(cfg.get('form'), X)
        if cfg.get('colours'):
            kw['colors'] = COLS

        def judge(ctx, figs, tag):
            ax, = pick(ctx, figs, 1, tag)
            cs = check_curves(ctx, lines(ax), [(X, y) for y in Ys], tag)
            if cfg.get('colours'):
                ctx.check({c['colour'] for c in cs} <= {rgba(c) for c in COLS}, f'{tag}: colours other than the given ones')
            ctx.check(not bands(ax), f'{tag}: a band was drawn')
            zero_axis(ctx, [ax], bool(cfg.get('zero')), tag)
            covers(ctx, ax, X, tag)
            labels(ctx, ax, ax, 'x', 'y', tag)
        return P.plot_gp_via_sample, [X, Ys], kw, judge

    if name in ('iter', 'time'):
        b, r, n, k = cfg['b'], cfg['r'], cfg['n'], cfg['k']
        M = (10 * weyl((b, r, n), 2 + cfg.get('key', 0)) - 4) * cfg.get('scale', 1.0)
        M = form(cfg.get('form'), M)
        names = [f'method {i}' for i in range(b)][::-1]
        acc = np.array([[[np.min(M[i, j, :k + t]) for t in range(n - k + 1)] for j in range(r)] for i in range(b)])
        mean = acc.mean(axis=1)
        std = acc.std(axis=1, ddof=1) if r > 1 else np.zeros_like(mean)
        kw.update(include_marker=cfg.get('marker', True), include_legend=cfg.get('legend', False))
        if 'shade' in cfg:
            kw['range_shade'] = cfg['shade']
        sh = cfg.get('shade', 1.96)
        if name == 'iter':
            xs = np.tile(np.arange(n - k + 1.0), (b, 1))
            args = [M, names, k, cfg.get('std', True)]
            fn = P.plot_minimum_vs_iter
        else:
            T = 0.1 + weyl((b, r, n if cfg.get('inc', True) else n - k), 5) * (1 + np.arange(b))[:, None, None]
            T = T * abs(cfg.get('xscale', 1.0))
            if cfg.get('form') not in ('const', 'zero', 'int', 'ties'):
                T = form(cfg.get('form'), T)
            t = T[:, :, k:] if cfg.get('inc', True) else T
            xs = np.concatenate((np.zeros((b, 1)), np.cumsum(t, axis=2).mean(axis=1)), axis=1)
            args = [T, M, names, k, cfg.get('std', True)]
            fn = P.plot_minimum_vs_time
        if cfg.get('colours'):
            kw.update(colors=COLS, markers=MARKS)

        def judge(ctx, figs, tag):
            ax, = pick(ctx, figs, 1, tag)
            ls = check_curves(ctx, lines(ax), [(xs[i], mean[i]) for i in range(b)], tag)
            bs = bands(ax)
            ctx.check(len(bs) == (b if cfg.get('std', True) else 0), lambda: f'{tag}: {len(bs)} bands for {b} methods, draw_std={cfg.get("std", True)}')
            for i, ln in enumerate(ls):
                ctx.check(ln['label'] == names[i], lambda: f'{tag}: the curve of {names[i]!r} is labelled {ln["label"]!r}')
                ctx.check(bool(ln['marker']) == cfg.get('marker', True), lambda: f'{tag}: marker {ln["marker"]!r} with include_marker={cfg.get("marker", True)}')
                ctx.check(ln['line'], f'{tag}: no line drawn')
            styles = [(ln['colour'], ln['marker']) for ln in ls[:15]]
            if cfg.get('colours'):
                ctx.check({c for c, _ in styles} <= {rgba(c) for c in COLS} and {m for _, m in styles} <= set(MARKS) | {None}, f'{tag}: colours or markers other than the given ones {styles}')
            ctx.check(len(set(styles)) == len(styles), lambda: f'{tag}: two methods are drawn alike {styles}')
            if cfg.get('std', True):
                for i, bd in enumerate(bs):
                    check_band(ctx, bd, xs[i], mean[i] - sh * std[i], mean[i] + sh * std[i], f'{tag} method {i}')
                    ctx.check(bd['colour'] == ls[i]['colour'], lambda: f'{tag}: the band of method {i} has another colour than its curve')
            covers(ctx, ax, xs, tag)
            lg = ax.get_legend()
            ctx.check((lg is not None) == cfg.get('legend', False), lambda: f'{tag}: legend {lg}')
            if lg is not None:
                ctx.check([t.get_text() for t in lg.get_texts()] == names, lambda: f'{tag}: legend entries {[t.get_text() for t in lg.get_texts()]}')
            labels(ctx, ax, ax, 'Iteration' if name == 'iter' else 'Time (sec.)', 'Minimum function value', tag)
        return fn, args, kw, judge

    n, m, k = cfg['n'], cfg['m'], cfg.get('k')
    X, Y = grid(n, lo=-1.5, hi=2.5), 4 * weyl((n, 1), 4) - 2
    Y[-1, 0] -= 0.25
    if n > 1:
        X = X[np.argsort(weyl((n,), 2))].copy()
    Xs, mu, sd, Ys = grid(m), 3 * weyl((m, 1), 1) - 1, 0.1 + weyl((m, 1), 5), 3 * weyl((m, 1), 6)
    A = 1e-3 * weyl((m, 1), 7)
    f = cfg.get('scale', 1.0)
    Y, mu, sd, Ys, A = Y * f, mu * f, sd * abs(f), Ys * f, A * f
    X, Xs = X * cfg.get('xscale', 1.0), Xs * cfg.get('xscale', 1.0)
    if cfg.get('form') in ('const', 'zero'):
        Y, mu, sd, A = (form(cfg['form'], a) for a in (Y, mu, sd, A))
    elif cfg.get('form'):
        X, Y, Xs, mu, sd, Ys, A = (form(cfg['form'], a) for a in (X, Y, Xs, mu, sd, Ys, A))
    if 'shade' in cfg:
        kw['range_shade'] = cfg['shade']
    sh = cfg.get('shade', 1.96)
    if cfg.get('colours') and name == 'dist':
        kw['colors'] = COLS
    if name == 'dist':
        args = [X, Y, Xs, mu, sd]
        if cfg.get('truth', True):
            kw['Y_test'] = Ys
        fn, groups = P.plot_gp_via_distribution, [(X, Y)]
    else:
        args = [X, Y, Xs, Ys, mu, sd] + ([A] if name == 'acq' else [])
        fn = P.plot_bo_step_with_acq if name == 'acq' else P.plot_bo_step
        if k is None:
            groups = [(X[:-1], Y[:-1]), (X[-1:], Y[-1:])]
        else:
            kw['num_init'] = k
            groups = [(X[:k], Y[:k])] + ([(X[k:-1], Y[k:-1]), (X[-1:], Y[-1:])] if n > k else [])
        if name == 'acq' and lab:
            kw['str_acq_axis'] = 'gain'
    groups = [g for g in groups if len(g[0])]

    def judge(ctx, figs, tag):
        axs = pick(ctx, figs, 2 if name == 'acq' else 1, tag)
        ax = axs[0]
        ls = lines(ax)
        cs = check_curves(ctx, [ln for ln in ls if not ln['marker']], [(Xs, mu)] + ([(Xs, Ys)] if name != 'dist' or cfg.get('truth', True) else []), tag)
        if cfg.get('colours') and name == 'dist':
            ctx.check({ln['colour'] for ln in ls} <= {rgba(c) for c in COLS}, f'{tag}: colours other than the given ones')
        ctx.check(len({c['colour'] for c in cs}) == len(cs), f'{tag}: prediction and truth have the same colour')
        bs = bands(ax)
        ctx.check(len(bs) == 1, lambda: f'{tag}: {len(bs)} bands')
        check_band(ctx, bs[0], Xs, mu - sh * sd, mu + sh * sd, tag)
        ctx.check(bs[0]['colour'] == cs[0]['colour'], f'{tag}: the band does not have the colour of the predicted mean')
        by = {}
        for ln in ls:
            if ln['marker']:
                ctx.check(not (ln['line'] and len(ln['x']) > 1), f'{tag}: observations are joined by a line')
                by.setdefault((ln['colour'], ln['marker']), []).extend(pts(ln['x'], ln['y']))
        got, want = sorted(sorted(v) for v in by.values()), sorted(pts(*g) for g in groups)
        ctx.check(got == want, lambda: f'{tag}: groups of observations {got}, expected {want}')
        covers(ctx, ax, Xs, tag)
        zero_axis(ctx, axs, bool(cfg.get('zero')), tag)
        if name == 'acq':
            check_curves(ctx, lines(axs[1]), [(Xs, A)], f'{tag} acquisition')
            covers(ctx, axs[1], Xs, tag)
            labels(ctx, axs[1], ax, 'x', 'y', tag)
            ctx.check(axs[1].get_ylabel() == ('gain' if lab else 'acq.'), lambda: f'{tag}: label of the acquisition {axs[1].get_ylabel()!r}')
        else:
            labels(ctx, ax, ax, 'x', 'y', tag)
    return fn, args, kw, judge


def gen_draw(tier):
    big = tier != 'quick'
    B = [False, True]
    for n, m, rev, lab, z in itertools.product(range(1, 8 if big else 5), range(1, 6 if big else 4), B, B, B):
        yield ['sample', dict(n=n, m=m, reverse=rev, labels=lab, zero=z)]
    for n, m, tr, sh, lab in itertools.product(range(1, 7 if big else 4), [1, 2, 5, 9] if big else [1, 2, 5], B, [None, 0.5, 3.0], B):
        yield ['dist', dict(n=n, m=m, truth=tr, labels=lab, zero=lab, **({} if sh is None else dict(shade=sh)))]
    for f, n, m in itertools.product(['step', 'acq'], range(1, 9 if big else 6), [1, 2, 4, 9] if big else [2, 4]):
        for k in [None] + list(range(1, n + 1)):
            for sh, lab in ((None, False), (0.5, True)):
                yield [f, dict(n=n, m=m, k=k, labels=lab, zero=lab, **({} if sh is None else dict(shade=sh)))]
    for f, b, r, n in itertools.product(['iter', 'time'], range(1, 5 if big else 4), range(1, 5 if big else 4), range(2, 7 if big else 5)):
        for k in range(1, n):
            for j, (std, mk, lg, inc) in enumerate(itertools.product(B, B, B, B if f == 'time' else [True])):
                yield [f, dict(b=b, r=r, n=n, k=k, std=std, marker=mk, legend=lg, inc=inc, labels=mk != lg, **(dict(shade=0.5) if mk else {}))]
    for f in ('iter', 'time'):
        yield [f, dict(b=16, r=2, n=4, k=2)]
        for b, r, n, k in [(1, 25, 6, 2), (3, 25, 40, 5), (2, 2, 120, 10), (2, 60, 4, 1), (12, 3, 8, 3)]:
            for std in B:
                yield [f, dict(b=b, r=r, n=n, k=k, std=std, legend=not std)]
    for n, m in [(60, 1), (2, 60), (120, 30), (300, 3)]:
        yield ['sample', dict(n=n, m=m)]
    for n, m in [(40, 101), (3, 400), (120, 20)]:
        for f in ('dist', 'step', 'acq'):
            yield [f, dict(n=n, m=m, k=None if f == 'dist' else n // 3)]
    for f, fm in itertools.product(FUNCS, FORMS):
        for add in [{}, dict(labels=True, zero=True), dict(shade=0.0), dict(shade=12.5)] if f not in ('iter', 'time') else [{}, dict(std=False), dict(shade=0.0), dict(shade=12.5, legend=True), dict(b=1, r=1), dict(b=3, r=5, n=12, k=4)]:
            if f == 'sample' and 'shade' in add:
                continue
            yield [f, dict(CFG[f], form=fm, **add) if not set(add) & set(CFG[f]) else dict(dict(CFG[f], form=fm), **add)]
    for f in ('sample', 'dist', 'iter', 'time'):
        for add in [{}, dict(b=4, r=3), dict(b=9, r=2)] if f in ('iter', 'time') else [{}, dict(n=6, m=7)]:
            yield [f, dict(dict(CFG[f], colours=True), **add)]
    for n, m in [(3, 700), (600, 5), (210, 210)]:
        for f in ('dist', 'step', 'acq'):
            yield [f, dict(n=n, m=m, k=None if f == 'dist' else n // 2)]
        yield ['sample', dict(n=m, m=3)]
    for f in ('iter', 'time'):
        for b, r, n, k in [(1, 2, 600, 20), (2, 3, 210, 100), (1, 110, 5, 2), (25, 2, 5, 1)]:
            yield [f, dict(b=b, r=r, n=n, k=k)]
    for f, sc in itertools.product(FUNCS, [1e-9, 1e-6, 1e-3, 50.0, 1e6, -1.0, -1e4]):
        yield [f, dict(CFG[f], scale=sc)]
        yield [f, dict(CFG[f], xscale=sc)]


def run_draw(sc, ctx):
    name, cfg = sc
    fn, args, kw, judge = make(name, cfg)
    with Session(ctx) as s:
        judge(ctx, s.call(fn, args, kw, str(sc)), str(sc))
    ctx.trace()
    ctx.state(name, sorted(cfg.items(), key=str))
    ctx.outcome(name, cfg.get('k'), cfg.get('n'))
    ctx.sample(sc)


# ------------------------------------------------------------------ saving

CFG = dict(sample=dict(n=4, m=2), dist=dict(n=3, m=4), iter=dict(b=2, r=2, n=4, k=2), time=dict(b=2, r=2, n=4, k=2),
    step=dict(n=4, m=4, k=2), acq=dict(n=4, m=4, k=2))


def files(name, p, std):
    return {'sample': [f'gp_sampled_{p}.pdf'], 'dist': [f'gp_{p}.pdf'], 'step': [f'bo_step_{p}.pdf'], 'acq': [f'bo_step_acq_{p}.pdf'],
        'iter': [f'minimum_mean_{"std" if std else "only"}_{p}.pdf', f'legend_{p}.pdf'],
        'time': [f'minimum_time_mean_{"std" if std else "only"}_{p}.pdf', f'legend_{p}.pdf']}[name]


def tree(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


def gen_save(tier):
    for name, path, post, pause, std in itertools.product(FUNCS, [False, True], [False, True], [False, True], [True, False]):
        if std or name in ('iter', 'time'):
            yield [name, path, post, pause, std]
    for name, std in itertools.product(FUNCS, [True, False]):
        if std or name in ('iter', 'time'):
            yield [name, 'nested', 'run 3.b', False, std]
            for post in ('RunA', 'UPPER', 'a_b-c', '7', 'caf\u00e9', 'x' * 80, '100%', 'tag.pdf', 'legend', ' lead'):
                yield [name, True, post, False, std]
            for path in ('nested', 'Spaced Dir', 'slash/', 'd.ot'):
                yield [name, path, True, True, std]


def run_save(sc, ctx):
    from matplotlib.figure import Figure
    name, path, post, pause, std = sc
    cfg = dict(CFG[name], std=std) if name in ('iter', 'time') else CFG[name]
    fn, args, kw, judge = make(name, cfg)
    d = tempfile.mkdtemp(dir=os.getcwd())
    target = os.path.join(d, 'out', 'deep') if path == 'nested' else os.path.join(d, path) if isinstance(path, str) else os.path.join(d, 'out')
    os.makedirs(target)
    p = post if isinstance(post, str) else 'tag'
    kw.update(path_save=target if path else None, str_postfix=p if post else None)
    if pause:
        kw.update(pause_figure=True, time_pause=0.001)
    orig, saved = Figure.savefig, []

    def spy(self, fname, *a, **k):
        r = orig(self, fname, *a, **k)
        saved.append((os.path.basename(str(fname)), self))
        return r
    home = os.getcwd()
    try:
        os.makedirs(os.path.join(d, 'cwd'))
        os.chdir(os.path.join(d, 'cwd'))
        Figure.savefig = spy
        with Session(ctx) as s:
            figs = s.call(fn, args, kw, str(sc))
            left = len(s.plt.get_fignums())
            got = tree(d)
            want = sorted(os.path.relpath(os.path.join(target, f), d) for f in files(name, p, std)) if path and post else []
            ctx.check(got == want, lambda: f'{sc}: files written {got}, expected {want}')
            for f in got:
                with open(os.path.join(d, f), 'rb') as fh:
                    data = fh.read()
                ctx.check(data[:5] == b'%PDF-' and b'%%EOF' in data[-32:] and len(data) > 1000, f'{sc}: {f} is not a complete PDF')
            if pause:
                ctx.check(left == 0, f'{sc}: {left} figures left open after the pause')
            else:
                judge(ctx, figs, str(sc))
            if got and not pause:       # saved again under the same name: the file shows the later plot
                for f in got:
                    with open(os.path.join(d, f), 'wb') as fh:
                        fh.write(b'former content')
                s.plt.close('all')
                n_saved = len(saved)
                s.call(fn, args, kw, f'{sc} again')
                ctx.check(tree(d) == want, lambda: f'{sc} again: files {tree(d)}, expected {want}')
                for f in want:
                    with open(os.path.join(d, f), 'rb') as fh:
                        data = fh.read()
                    ctx.check(data[:5] == b'%PDF-' and b'%%EOF' in data[-32:], f'{sc} again: {f} was not written again')
                del saved[n_saved:]
            names = cfg.get('b') and args[-3]
            for f, fig in saved:
                if f.startswith('legend_'):
                    txt = [t.get_text() for lg in fig.legends for t in lg.get_texts()]
                    ctx.check(txt == names, lambda: f'{sc}: the saved legend shows {txt}')
                    hs = [h for lg in fig.legends for h in lg.get_lines()]
                    if not pause and len(hs) == len(names):
                        ax = [g.axes[0] for g in figs if len(g.axes) == 1][0]
                        by = {ln['label']: ln['colour'] for ln in lines(ax)}
                        for h, nm in zip(hs, names):
                            ctx.check(rgba(h.get_color()) == by[nm], f'{sc}: the saved legend gives {nm!r} the colour of another curve')
                else:
                    judge(ctx, [fig], f'{sc} (figure saved as {f})')
    finally:
        Figure.savefig = orig
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)
    ctx.trace()
    ctx.state(*sc)
    ctx.outcome(name, bool(path and post))


# ------------------------------------------------------------------ figures after one another

def gen_seq(tier):
    for t in itertools.product(FUNCS, repeat=2 if tier == 'quick' else 3):
        yield list(t)


def run_seq(sc, ctx):
    with Session(ctx) as s:
        kept = []
        for i, name in enumerate(sc):
            cfg = dict(CFG[name], labels=bool(i % 2), **(dict(n=CFG[name]['n'] + i)))
            fn, args, kw, judge = make(name, cfg)
            figs = s.call(fn, args, kw, f'{sc}[{i}]')
            kept.append((judge, figs))
            for j, (jd, fg) in enumerate(kept):
                jd(ctx, fg, f'{sc}: plot {j} after plot {i}')
            ctx.state(sc[:i + 1])
    ctx.trace()


def gen_tex(tier):
    for a, b in itertools.product(FUNCS, FUNCS):
        yield [a, b]


def run_tex(sc, ctx):
    """LaTeX text is used when asked for, and a later plot that does not ask for it gets plain text."""
    import matplotlib
    old = matplotlib.rcParams.copy()
    try:
        with Session(ctx) as s:
            for name, tex in zip(sc, (True, False)):
                fn, args, kw, judge = make(name, CFG[name])
                s.plt.close('all')
                if tex:
                    try:
                        fn(*args, **dict(kw, use_tex=True, pause_figure=False))
                    except Exception:       # no LaTeX here: the figure exists but cannot be laid out
                        pass
                else:
                    judge(ctx, s.call(fn, args, dict(kw, use_tex=False), str(sc)), str(sc))
                for n in s.plt.get_fignums():
                    for ax in s.plt.figure(n).axes:
                        for t in (ax.xaxis.label, ax.yaxis.label):
                            if t.get_text():
                                ctx.check(bool(t.get_usetex()) == tex, f'{sc}: use_tex={tex} but the label {t.get_text()!r} has usetex={t.get_usetex()}')
                ctx.trans()
    finally:
        matplotlib.rcParams.update(old)
    ctx.trace()
    ctx.state(*sc)


SPACES = [
    Space('draw', gen_draw, run_draw, 'every function, data size and option: what is on the axes'),
    Space('save', gen_save, run_save, 'every combination of path, name and pausing: which files exist, and what was saved', chunk=1),
    Space('sequence', gen_seq, run_seq, 'plots after one another stay apart', chunk=2),
    Space('latex', gen_tex, run_tex, 'a plot with LaTeX text followed by one without', chunk=2),
]
