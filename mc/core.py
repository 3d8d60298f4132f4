"""Bounded exhaustive exploration of the real package against reference models.

A *space* is a finite, explicitly generated set of scenarios; a scenario is a JSON
value that fixes a configuration, inputs, an operation sequence and/or environment
answers.  ``run(scenario, ctx)`` executes the real code and compares every step with
a reference model.  Inside a scenario, `explore` enumerates all choice sequences of a
controlled environment (random-number answers, completion orders, faults).

Nothing is sampled: a check enumerates all its spaces (or says where it stopped).
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import multiprocessing
from concurrent.futures import ProcessPoolExecutor, FIRST_COMPLETED, wait
from concurrent.futures.process import BrokenProcessPool

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SCENARIO_LIMIT_S = int(os.environ.get('VERIF_SCENARIO_LIMIT', '240'))
DEADLINE_S = {'quick': 640.0, 'thorough': 6 * 3600.0}


class Violation(Exception):
    """The property does not hold on this scenario."""


class Timeout(BaseException):
    """The code under test gave no answer in time."""


# --------------------------------------------------------------------- comparing

def close(a, b, rtol=1e-6, atol=1e-8):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def same(a, b):
    """Bit-for-bit equality of nested values (arrays, dicts, lists, scalars)."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a.keys()) == list(b.keys()) \
            and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) \
            and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def show(x, limit=400):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, precision=10, threshold=24, separator=', ').replace('\n', '')
        s = f'array{x.shape} {s}'
    else:
        s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            m.update(str(p.shape).encode())
            m.update(np.ascontiguousarray(np.round(p.astype(float), 10) + 0.0).tobytes())
        else:
            m.update(repr(p).encode())
        m.update(b'|')
    return int.from_bytes(m.digest(), 'big')


# --------------------------------------------------------------------- data alphabet

def weyl(shape, key=0):
    """Deterministic, well-spread numbers in (0, 1): part of the scenario, not a sample."""
    n = int(np.prod(shape))
    i = np.arange(1, n + 1, dtype=float)
    v = np.mod(i * 0.6180339887498949 + (key + 1) * 0.4142135623730951
        + np.mod(i * i, 97) * 0.013 * (key % 7 + 1), 1.0)
    return np.reshape(v * 0.98 + 0.01, shape)


# --------------------------------------------------------------------- choice explorer

class Chooser:
    def __init__(self, prefix, strict=True):
        self.prefix = list(prefix)
        self.strict = strict
        self.trace = []

    def choose(self, n, label=None):
        n = int(n)
        if n <= 0:
            raise Violation(f'environment asked for a choice among {n} alternatives ({label})')
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n and not self.strict:
            c = 0
        if c >= n:
            raise Violation('replay of a choice prefix diverged: behaviour depends on '
                'something besides the controlled choices')
        self.trace.append((c, n, label))
        return c


def explore(body, deviations=None, max_runs=None, strict=True):
    """Runs body(chooser) for every choice sequence (with at most `deviations` non-default
    choices, if given).  Yields (choices, result).  Raises nothing by itself; a cap is
    visible to the caller because the generator yields ('CAPPED', runs) last.  With
    strict=False the code may draw on other sources as well: a prefix that no longer fits is
    followed as far as it fits (every run is still a real execution and is judged)."""
    stack = [[]]
    runs = 0
    while stack:
        if max_runs is not None and runs >= max_runs:
            yield 'CAPPED', runs
            return
        prefix = stack.pop()
        ch = Chooser(prefix, strict)
        res = body(ch)
        runs += 1
        if len(ch.trace) < len(prefix) and strict:
            raise Violation('replay of a choice prefix diverged (fewer choices than before)')
        choices = [c for c, _, _ in ch.trace]
        yield choices, res
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            cost = sum(1 for c in choices[:i] if c) + 1
            if deviations is not None and cost > deviations:
                continue
            for alt in range(ch.trace[i][1] - 1, 0, -1):
                stack.append(choices[:i] + [alt])


# --------------------------------------------------------------------- context

class Ctx:
    def __init__(self, prop, tier, known):
        self.prop, self.tier, self.known = prop, tier, known
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.known_hit = {}
        self.capped = []
        self.samples = []
        self.scratch = os.getcwd()

    def state(self, *parts):
        self.states.add(h64(*parts))

    def outcome(self, *parts):
        self.outcomes.add(h64(*parts))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x):
        if len(self.samples) < 1:
            self.samples.append(x)

    def fail(self, msg, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        raise Violation(msg if key is None else f'{msg} [key {key}]')

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)

    def eq(self, got, want, what, rtol=1e-6, atol=1e-8, key=None):
        if not close(got, want, rtol, atol):
            self.fail(f'{what}: got {show(got)}, expected {show(np.asarray(want))}', key)

    def identical(self, got, want, what, key=None):
        if not same(got, want):
            self.fail(f'{what}: got {show(got)}, expected {show(want)}', key)

    def refuses(self, fn, what):
        """fn() must raise; returning a value is a violation."""
        try:
            r = fn()
        except Exception:       # any refusal will do
            return
        self.fail(f'{what}: was not refused, returned {show(r)}')


class Space:
    def __init__(self, name, gen, run, what, chunk=None):
        self.name, self.gen, self.run, self.what, self.chunk = name, gen, run, what, chunk


# --------------------------------------------------------------------- worker side

def _import_target():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import bayeso
    f = os.path.realpath(bayeso.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'bayeso was imported from {f}, not from {REPO}')


def _alarm(signum, frame):
    raise Timeout()


_W = {}


def _init_worker(prop, tier, known, scratch, quiet):
    import warnings
    if quiet:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)
    d = os.path.join(scratch, f'w{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    signal.signal(signal.SIGALRM, _alarm)
    _W.update(prop=prop, tier=tier, known=known, error=None, mod=None)
    try:
        _import_target()
        _W['mod'] = importlib.import_module(f'mc.props.{prop.lower()}')
    except BaseException:
        _W['error'] = traceback.format_exc()


def run_one(space, scenario, ctx):
    """Runs a scenario; returns None or a failure message."""
    np.random.seed(12345)
    signal.alarm(SCENARIO_LIMIT_S)
    try:
        space.run(scenario, ctx)
        return None
    except Violation as e:
        return str(e)
    except Timeout:
        return f'no answer within {SCENARIO_LIMIT_S} s'
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:      # valid use made the code under test raise
        tb = traceback.format_exc()
        return f'unexpected {type(e).__name__}: {e}\n{tb[-2500:]}'
    finally:
        signal.alarm(0)


def _work(task):
    si, scenarios = task
    out = dict(space=si, failures=[], n=0, error=_W['error'])
    if _W['error']:
        return out
    space = _W['mod'].SPACES[si]
    ctx = Ctx(_W['prop'], _W['tier'], _W['known'])
    done = []
    for sc in scenarios:
        msg = run_one(space, sc, ctx)
        out['n'] += 1
        done.append(sc)
        if msg is not None:
            out['failures'].append(dict(space=space.name, scenario=sc, message=msg,
                history=done[-40:-1]))
            break
    out.update(states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions,
        traces=ctx.traces, known=ctx.known_hit, capped=ctx.capped,
        samples=[dict(space=space.name, sample=s) for s in ctx.samples])
    return out


# --------------------------------------------------------------------- driver

def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {e['key']: e['what'] for e in data.get('known', []) if e['property'] == prop}


def evidence_path(prop):
    return os.path.join(VERIF, 'evidence', f'{prop}.json')


def check(prop, tier, workers=None, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = load_known(prop)
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or max(1, min(8, os.cpu_count() or 1))
    scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    deadline = t0 + float(os.environ.get('VERIF_DEADLINE', DEADLINE_S[tier]))
    failures, known_hit, capped, samples = [], {}, [], []
    states, outcomes = set(), set()
    transitions = traces = ran = total = 0
    per_space = {}
    import_error = None
    try:
        _import_target()
        mod = importlib.import_module(f'mc.props.{prop.lower()}')
    except BaseException:
        import_error = traceback.format_exc()
        mod = None

    stopped = False
    if mod is not None:
        tasks = []
        for si, sp in enumerate(mod.SPACES):
            if only and sp.name not in only:
                continue
            scs = list(sp.gen(tier))
            total += len(scs)
            per_space[sp.name] = dict(scenarios=len(scs), states=0, executions=0, what=sp.what, _st=set())
            size = sp.chunk or max(1, min(200, len(scs) // (workers * 6) or 1))
            for i in range(0, len(scs), size):
                tasks.append((si, scs[i:i + size]))
        tasks.reverse()
        ctxmp = multiprocessing.get_context('fork')

        def pool():
            return ProcessPoolExecutor(workers, mp_context=ctxmp, initializer=_init_worker,
                initargs=(prop, tier, known, scratch, not verbose))
        ex = pool()
        pending = {}
        retried = set()
        try:
            while (tasks or pending) and not failures:
                while tasks and len(pending) < workers * 2 and time.time() < deadline:
                    t = tasks.pop()
                    pending[ex.submit(_work, t)] = t
                if not pending:
                    stopped = True
                    break
                done, _ = wait(list(pending), timeout=5.0, return_when=FIRST_COMPLETED)
                if time.time() > deadline + 120:
                    stopped = True
                    break
                broken = []
                for f in done:
                    t = pending.pop(f)
                    try:
                        r = f.result()
                    except BrokenProcessPool:
                        broken.append(t)
                        continue
                    if r['error']:
                        import_error = r['error']
                        break
                    sp = mod.SPACES[r['space']]
                    ran += r['n']
                    states |= r['states']
                    outcomes |= r['outcomes']
                    transitions += r['transitions']
                    traces += r['traces']
                    known_hit.update(r['known'])
                    capped += r['capped']
                    per_space[sp.name]['_st'] |= r['states']
                    per_space[sp.name]['executions'] += r['traces']
                    if len(samples) < 8 and not any(s['space'] == sp.name for s in samples):
                        samples += r['samples']
                    if r['failures']:
                        failures += r['failures']
                if import_error:
                    break
                if broken:
                    broken += list(pending.values())
                    pending = {}
                    ex.shutdown(wait=False, cancel_futures=True)
                    ex = pool()
                    for t in broken:
                        k = h64(t[0], json.dumps(t[1], default=str))
                        if k in retried and len(t[1]) == 1:
                            failures.append(dict(space=mod.SPACES[t[0]].name, scenario=t[1][0],
                                message='the process running this scenario died', history=[]))
                        else:
                            retried.add(k)
                            for sc in reversed(t[1]):
                                k1 = h64(t[0], json.dumps([sc], default=str))
                                retried.add(k1) if len(t[1]) == 1 else None
                                tasks.append((t[0], [sc]))
        finally:
            procs = list((ex._processes or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                try:
                    p.terminate()
                except Exception:
                    pass
    shutil.rmtree(scratch, ignore_errors=True)

    replay = None
    if import_error:
        failures = [dict(space='import', scenario=None, history=[],
            message='the package (or a check on top of its public interface) failed to import:\n' + import_error[-3000:])]
    if failures:
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f'{prop}.json')
        with open(replay, 'w') as f:
            json.dump(dict(property=prop, tier=tier, failures=failures[:5],
                how='bash /verif/check.sh --replay ' + replay), f, indent=1, default=str)
    for sp in per_space.values():
        sp['states'] = len(sp.pop('_st'))
    exhaustive = mod is not None and not stopped and not failures and not capped
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(states=len(states), transitions=transitions,
            traces_validated_against_impl=traces, scenarios=ran, scenarios_in_bounds=total,
            distinct_outcomes=len(outcomes), exhaustive=exhaustive,
            spaces=per_space, samples=samples or [dict(note='no scenario completed')],
            bounds=getattr(mod, 'BOUNDS', {}).get(tier, '') if mod else '',
            stopped_at_deadline=stopped, capped=capped[:5],
            known_findings_seen=sorted(known_hit)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) if mod else [],
        wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(evidence_path(prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for key in sorted(known_hit):
        print(f'KNOWN-FINDING: property={prop} {known_hit[key]}')
    print(f'{prop} {tier}: {ran}/{total} scenarios, {len(states)} states, {transitions} transitions, '
        f'{traces} executions compared, {len(outcomes)} distinct outcomes, '
        f'{"exhaustive within bounds" if exhaustive else "not exhaustive"}, {ev["wall_s"]} s')
    if failures:
        m = failures[0]
        print(f'first failure in space {m["space"]}, scenario {json.dumps(m["scenario"], default=str)[:1500]}')
        print(m['message'][:3000])
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    return 0


def replay(path):
    data = json.load(open(path))
    prop = data['property']
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        _init_worker(prop, data['tier'], load_known(prop), scratch, False)
        if _W['error']:
            print(_W['error'])
            return 1
        bad = 0
        for fl in data['failures']:
            sp = [s for s in _W['mod'].SPACES if s.name == fl['space']]
            if not sp:
                continue
            ctx = Ctx(prop, data['tier'], load_known(prop))
            msg = run_one(sp[0], fl['scenario'], ctx)
            how = 'alone'
            if msg is None and fl.get('history'):
                how = 'after its history'
                for sc in fl['history']:
                    run_one(sp[0], sc, ctx)
                msg = run_one(sp[0], fl['scenario'], ctx)
            print(f'space {fl["space"]} scenario {json.dumps(fl["scenario"])[:1500]}')
            print(f'replayed {how}: ' + ('FAILS: ' + msg if msg else 'passes'))
            bad += msg is not None
        return 1 if bad else 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    for a in argv[2:]:
        if a == '-v':
            verbose = True
        else:
            only = (only or []) + [a]
    return check(prop, tier, only=only, verbose=verbose)
