"""Runner shared by all checks: bounded exhaustive exploration over forked workers, evidence, replay files."""
import json
import os
import sys
import time

real_time = time.time
import traceback
import pickle
import resource
import signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
THOROUGH = TIER == 'thorough'
WORKERS = int(os.environ.get('VERIF_WORKERS', str(min(8, os.cpu_count() or 1))))


CLEANUP = []


class Violation(Exception):
    """Raised by a check when the implementation disagrees with the property on one execution."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail

    def __reduce__(self):
        return _mkviol, (self.what, {k: _plain(v) for k, v in self.detail.items()})


def _mkviol(what, detail):
    return Violation(what, **detail)


def _plain(v):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    return repr(v)[:2000]


class Ctx:
    """Counters of one exploration (merged over the workers)."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.families = {}
        self.slowest = 0

    def state(self, key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(_plain(s))

    def merge(self, other):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.slowest = max(self.slowest, other.slowest)
        for s in other.samples:
            self.sample(s, 12)
        for k, v in other.families.items():
            self.families[k] = self.families.get(k, 0) + v


def call(fn, *args, **kw):
    """Run implementation code: ('ok', value) or ('err', exception)."""
    try:
        return 'ok', fn(*args, **kw)
    except RecursionError as e:
        return 'err', e
    except Exception as e:
        return 'err', e


def from_impl(e):
    """An exception raised inside the code under test on an input that has to work is a violation; others are ours."""
    tb = traceback.extract_tb(e.__traceback__)
    if isinstance(e, Hang):
        return Violation('the code under test gives no answer: %s' % e, traceback=[str(f) for f in tb[-4:]])
    if any(os.path.abspath(f.filename).startswith(os.path.join(REPO, '')) for f in tb):
        return Violation('unexpected %s from the code under test: %s' % (type(e).__name__, e),
                         traceback=[str(f) for f in tb[-4:]])
    if not isinstance(e, MemoryError) and (not isinstance(e, OSError) or isinstance(e, (FileNotFoundError, FileExistsError, IsADirectoryError))):
        return Violation('what the code under test gave back cannot be examined: %s: %s' % (type(e).__name__, e),
                         traceback=[str(f) for f in tb[-4:]])
    return None


class Check:
    """One property: families of cases; every family is enumerated completely."""

    def __init__(self, pid):
        self.pid = pid
        self.ctx = Ctx()
        self.bounds = {}
        self.assumptions = []
        self.extra = {}
        self.t0 = real_time()

    # -- exploration -----------------------------------------------------------------------------------------------
    def explore(self, name, gen, fn, workers=None, sample_every=None):
        """gen(): iterator over all cases of the family. fn(ctx, case): raises Violation. Sharded by case index."""
        workers = workers or WORKERS
        if workers <= 1:
            res = [_shard(name, gen, fn, 0, 1)]
        else:
            res = _fork(name, gen, fn, workers)
        best = None
        for ctx, viol in res:
            self.ctx.merge(ctx)
            if viol is not None and (best is None or viol[0] < best[0]):
                best = viol
        if best is not None:
            idx, v, case = best
            self.fail(name, idx, v, case)

    def one(self, name, fn):
        """A family with a single (possibly internally enumerated) run in this process."""
        ctx = Ctx()
        try:
            watch(lambda: fn(ctx), 4)
        except Violation as v:
            self.ctx.merge(ctx)
            self.fail(name, 0, v, None)
        except Exception as e:
            v = from_impl(e)
            if v is None:
                raise
            self.ctx.merge(ctx)
            self.fail(name, 0, v, None)
        ctx.families[name] = ctx.families.get(name, 0) + max(1, ctx.traces)
        self.ctx.merge(ctx)

    # -- results ---------------------------------------------------------------------------------------------------
    def fail(self, family, idx, v, case):
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        path = os.path.join(EVIDENCE, 'replay', '%s.json' % self.pid)
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'family': family, 'index': idx, 'case': _plain(case),
                       'what': v.what, 'detail': _plain(v.detail), 'tier': TIER}, f, indent=1)
        self.evidence(1)
        print('family %s case #%s: %s' % (family, idx, v.what))
        for k, val in v.detail.items():
            print('  %s = %s' % (k, str(_plain(val))[:600]))
        print('  case = %s' % str(_plain(case))[:600])
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()
        for fn in CLEANUP:
            fn()
        os._exit(1)

    def evidence(self, violations):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {'states': len(self.ctx.states), 'transitions': self.ctx.transitions,
               'traces_validated_against_impl': self.ctx.traces, 'samples': self.ctx.samples[:12],
               'exhaustive': True, 'families': self.ctx.families, 'bounds': self.bounds}
        cov.update(self.extra)
        if violations:
            cov['exhaustive'] = False
        with open(os.path.join(EVIDENCE, '%s.json' % self.pid), 'w') as f:
            json.dump({'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
                       'assumptions': self.assumptions, 'wall_s': round(real_time() - self.t0, 3),
                       'violations': violations}, f, indent=1)

    def done(self):
        self.evidence(0)
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs slowest case=%.1fs' % (
            self.pid, TIER, len(self.ctx.states), self.ctx.transitions, self.ctx.traces, real_time() - self.t0, self.ctx.slowest))
        sys.stdout.flush()


CASE_CPU_SECONDS = 60
CASE_WALL_SECONDS = 300


class Hang(Exception):
    pass


def _hang(signum, frame):
    signal.setitimer(signal.ITIMER_PROF, 5)
    raise Hang('no answer within %d s of processor time' % CASE_CPU_SECONDS)


def _stuck(signum, frame):
    signal.setitimer(signal.ITIMER_REAL, 5)
    raise Hang('blocked for %d s' % CASE_WALL_SECONDS)


def _arm(factor=1):
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS * factor)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_SECONDS * min(factor, 2))


def watch(fn, factor=1):
    """Code that does not come to an end is a violation too (processor time, so a loaded machine does not matter; and a
    long real time for code that is blocked)."""
    old = signal.signal(signal.SIGPROF, _hang)
    old2 = signal.signal(signal.SIGALRM, _stuck)
    _arm(factor)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old)
        signal.signal(signal.SIGALRM, old2)


def _shard(name, gen, fn, w, n):
    return watch(lambda: _cases(name, gen, fn, w, n))


def _cases(name, gen, fn, w, n):
    ctx = Ctx()
    count = 0
    for i, case in enumerate(gen()):
        if i % n != w:
            continue
        count += 1
        ctx.traces += 1
        if len(ctx.samples) < 1 and count == 7:
            ctx.sample({'family': name, 'case': case})
        _arm()
        c0 = time.process_time()
        try:
            fn(ctx, case)
        except Violation as v:
            ctx.families[name] = count
            return ctx, (i, v, _plain(case))
        except Exception as e:
            v = from_impl(e)
            if v is None:
                raise
            ctx.families[name] = count
            return ctx, (i, v, _plain(case))
        ctx.slowest = max(ctx.slowest, time.process_time() - c0)
    ctx.families[name] = count
    return ctx, None


def _fork(name, gen, fn, n):
    """Shard over n forked children; results come back through pipes."""
    import select
    sys.stdout.flush()
    procs = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                res = ('ok', _shard(name, gen, fn, w, n))
            except BaseException:
                res = ('crash', traceback.format_exc())
            try:
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(res, f)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    out = []
    bufs = {r: [] for _, r in procs}
    open_fds = set(bufs)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [])
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r].append(d)
            else:
                open_fds.discard(r)
                os.close(r)
    crashed = None
    for pid, r in procs:
        os.waitpid(pid, 0)
        data = b''.join(bufs[r])
        if not data:
            crashed = 'worker died without a result'
            continue
        kind, val = pickle.loads(data)
        if kind == 'ok':
            out.append(val)
        else:
            crashed = val
    if crashed and not any(v is not None for _, v in out):
        raise RuntimeError('worker crashed in family %s:\n%s' % (name, crashed))
    return out


def setup_path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
