"""C27 a session never outlives its certificates or the limit, is recorded completely or not at all: all sets, all failing or interrupted statements."""
import base64
import gc
import hashlib
import os
import signal
from itertools import product

from sqlalchemy import event

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH

PA = []
NOW = ac.NOW
LIMIT = 86400
BEFORE = [1, 2, 1000, LIMIT - 1, LIMIT, LIMIT + 1, 10 ** 6]
ISSUED = [-10, -11, 0, 7]
CERTS = {}


def cert(before, issued, serial, fmt=0, uid='aa', key=0):
    k = (before, issued, serial, fmt, uid, key)
    if k not in CERTS:
        c = svc.issue(key, uid, serial, -20, before, issued=NOW + issued)
        d = c.export_ac(ac.EF(fmt))
        CERTS[k] = d.encode() if isinstance(d, str) else bytes(d)
    return CERTS[k]


def authority():
    if not PA:
        PA.append(svc.Policies())
    pa = PA[0]
    pa.wipe()
    pa.authority('aa', 0, 1)
    pa.authority('bb', 1, 9)
    clock.set(NOW)
    return pa


def started(ctx, pa, spec, service='svc', addr='10.0.0.9', now=NOW):
    """spec: [(before, issued, serial, format, uid, key)]; start and check reply and all new records"""
    old = pa.dump()
    r = pa.start([(cert(*x), x[3], 1) for x in spec], service, addr)
    new = pa.dump()
    ctx.step()
    first = min(NOW + x[0] for x in spec)
    till = min(first, int(now) + LIMIT)
    info = dict(certificates=spec, now=now)
    if (r.start, r.valid_till) != (int(now), till):
        raise Violation('wrong session times in the reply', got=(r.start, r.valid_till), expected=(int(now), till), **info)
    if not isinstance(r.session_id, int) or not 0 <= r.session_id < 2 ** 160:
        raise Violation('bad session id', got=r.session_id, **info)
    sid = svc.serial64(r.session_id)
    if any(s[0] == sid for s in old[2]):
        raise Violation('session id used again', **info)
    want = (sid, max(NOW + x[1] for x in spec), first, int(now), addr, service, till)
    got = [s for s in new[2] if s not in old[2]]
    if got != [want]:
        raise Violation('wrong session record', got=got, expected=want, **info)
    if sorted(old[2] + [want]) != new[2]:
        raise Violation('another session was changed', **info)
    rows = {}
    for x in spec:
        raw = cert(*x)
        rows[svc.serial64(x[2])] = (svc.serial64(x[2]), raw, x[3], 1, NOW + x[0], base64.b64encode(hashlib.sha256(raw).digest()).decode())
    if sorted(set(old[0]) | set(rows.values())) != new[0]:
        raise Violation('wrong certificate records', got=[x for x in new[0] if x not in old[0]], expected=sorted(rows.values()), **info)
    if sorted(old[1] + [(k, sid) for k in rows]) != new[1]:
        raise Violation('wrong certificates assigned to the session', got=[x for x in new[1] if x not in old[1]], expected=sorted(rows), **info)
    return r


# -- lifetimes ------------------------------------------------------------------------------------------------------------------
def life_gen():
    one = list(product(BEFORE, ISSUED))
    for a in one:
        for fmt in (0, 3, 4):
            yield ([(a[0], a[1], 1, fmt, 'aa', 0)],)
    for a, b in product(one, one):
        yield ([(a[0], a[1], 1, 0, 'aa', 0), (b[0], b[1], 2, 0, 'bb', 1)],)
    few = list(product(BEFORE[1:], ISSUED if THOROUGH else [-10])) + [(1000, 7)]
    for c in product(few, repeat=3):
        yield ([(b, i, k, 0, 'aa', 0) for k, (b, i) in enumerate(c)],)


def life_one(ctx, case):
    (spec,) = case
    pa = authority()
    started(ctx, pa, spec)
    ctx.state(str(spec))


def many_gen():
    """n certificates; the first to end and the last issued at every position"""
    for n in range(1, 9):
        for i in range(n):
            for j in range(n):
                yield (n, i, j)
    for n in (16, 33, 64, 100) + ((200,) if THOROUGH else ()):
        for i in (0, 1, n // 2, n - 2, n - 1):
            yield (n, i, n - 1 - i)


def many_one(ctx, case):
    n, i, j = case
    for far in (2000, LIMIT + 2000):
        pa = authority()
        started(ctx, pa, [(1000 if k == i else far, -5 if k == j else -9, k, (0, 3, 4)[k % 3], 'aa', 0) for k in range(n)])
    ctx.state(case)


def life2_gen():
    """every length of validity around powers of two and units of time"""
    for b in sorted({x + d for x in (60, 3600, 7200, 43200, LIMIT, 2 * LIMIT, 7 * LIMIT, 30 * LIMIT, 365 * LIMIT, 3650 * LIMIT, 32768, 65536, 2 ** 20, 2 ** 24, 2 ** 31 - NOW, 2 ** 32 - 2 - NOW) for d in (-1, 0, 1)} | set(range(1, 20))):
        yield b


def life2_one(ctx, b):
    for more in ([], [(LIMIT + 7, -3, 2, 0, 'aa', 0)], [(b, -3, 2, 0, 'bb', 1)]):
        pa = authority()
        started(ctx, pa, [(b, -10, 1, 0, 'aa', 0)] + more)
        pa = authority()
        started(ctx, pa, more + [(b, -10, 1, 0, 'aa', 0)])
    ctx.state(b)


def tick_gen():
    for step in (0.05, 0.3, 0.5, 1, 2, 7, 100):
        for frac in (0, 0.5, 0.9):
            for b in (500, 5000, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 50, 10 ** 6):
                for n in (1, 2, 3):
                    yield (step, frac, b, n)


def tick_one(ctx, case):
    """time passes during the request"""
    step, frac, b, n = case
    pa = authority()
    t = [NOW + frac]

    def tick():
        t[0] += step
        return t[0]
    spec = [(b + k, -10, k + 1, 0, 'aa', 0) for k in range(n)]
    raw = [(cert(*x), x[3], 1) for x in spec]
    clock.follow(tick)
    try:
        r = pa.start(raw)
    except Exception as e:
        clock.follow(None)
        if t[0] < NOW + b:
            raise Violation('a session was refused for valid certificates', case=case, error=e)
        return
    finally:
        clock.follow(None)
    ctx.step()
    new = pa.dump()[2]
    info = dict(step=step, fraction=frac, end=b, certificates=n)
    if len(new) != 1 or (r.start, r.valid_till) != (new[0][3], new[0][6]):
        raise Violation('reply and record tell different times', reply=(r.start, r.valid_till), record=new, **info)
    if not NOW <= r.start <= t[0]:
        raise Violation('the session started outside the request', start=r.start, **info)
    if r.valid_till > NOW + b or r.valid_till > r.start + LIMIT or r.valid_till < min(NOW + b, r.start + LIMIT) or new[0][2] != NOW + b:
        raise Violation('the session ends at the wrong time', start=r.start, till=r.valid_till, **info)
    ctx.state(case)


WHO = ['svc', '', ' ', 'a' * 64, 'a' * 100, 'a' * 255, 'a' * 256, 'a' * 1000, 'é', 'ß', '日本', '😀', "a'b", 'a"b', 'a;b', '%s', 'None', '0', 'SVC', ' svc ', 'svc/', 'hgabac://svc/', 'a\nb', 'a\tb']
WHERE = ['10.0.0.9', '255.255.255.255', '0.0.0.0', '::', '::1', 'fe80::1%eth0', '2001:0db8:0000:0000:0000:ff00:0042:8329', 'ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255', '::ffff:10.0.0.9', 'FE80::ABCD', 'host.example', '']


def who_gen():
    for w, a in product(WHO, WHERE):
        yield (w, a)


def who_one(ctx, case):
    pa = authority()
    started(ctx, pa, [(1000, -10, 3, 0, 'aa', 0)], case[0], case[1])
    ctx.state(case)


def now_gen():
    for d in (0, 0.25, 0.999, -5, 1, 500, 998, 999):
        for service, addr in product(('svc', '', 'é' * 50, "a'b"), ('10.0.0.9', '::1')):
            yield (d, service, addr)


def now_one(ctx, case):
    d, service, addr = case
    pa = authority()
    clock.set(NOW + d)
    started(ctx, pa, [(1000, -10, 3, 0, 'aa', 0), (LIMIT + 500, -9, 2 ** 159 + 1, 0, 'aa', 0)], service, addr, NOW + d)
    ctx.state(case)


# -- histories: sessions accumulate, share certificates and refusals leave no trace ----------------------------------------------
SETS = [[0], [1], [0, 1], [1, 2], [2, 0, 1], ['bad'], [0, 'bad'], [3]]
POOL = [(1000, -10, 1, 0, 'aa', 0), (2000, -5, 2, 3, 'bb', 1), (LIMIT + 5000, -7, 3, 0, 'aa', 0), (1500, -5, 1, 0, 'aa', 0)]


def hist_gen():
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for h in product(range(len(SETS)), repeat=n):
            for step in (0, 400):
                yield (h, step)


def hist_one(ctx, case):
    h, step = case
    pa = authority()
    now = NOW
    for k in h:
        spec = SETS[k]
        known = {r[0]: r[1] for r in pa.dump()[0]}
        ok = 'bad' not in spec and all(now < NOW + POOL[x][0] and known.get(svc.serial64(POOL[x][2]), cert(*POOL[x])) == cert(*POOL[x]) for x in spec)
        if ok:
            started(ctx, pa, [POOL[x] for x in spec], now=now)
        else:
            before = pa.dump()
            raw = [(b'junk', 0, 1) if x == 'bad' else (cert(*POOL[x]), POOL[x][3], 1) for x in spec]
            ctx.step()
            try:
                pa.start(raw)
            except Exception:
                pass
            else:
                raise Violation('a session was started that has to be refused', history=[SETS[i] for i in h])
            if pa.dump() != before:
                raise Violation('a refused session left a trace', history=[SETS[i] for i in h])
        now += step
        clock.set(now)
        ctx.state((k, len(pa.dump()[2])))


# -- every statement fails once, the process dies at every statement -------------------------------------------------------------
class Fault(Exception):
    pass


def fault_gen():
    for mode in ('fail', 'die'):
        for first in ([], [0], [0, 1]):
            for spec in ([0], [0, 1], [1, 2], [0, 1, 2]):
                yield (mode, first, spec)


def fault_one(ctx, case):
    mode, first, spec = case
    k = 0
    while True:
        path = os.path.join(svc.SCRATCH, 'c27-%d' % os.getpid())
        pa = svc.Policies(sqlite=path)
        PA.clear()
        try:
            pa.wipe()
            pa.authority('aa', 0, 1)
            pa.authority('bb', 1, 9)
            clock.set(NOW)
            if first:
                started(ctx, pa, [POOL[x] for x in first])
            before = pa.dump()
            certs = [(cert(*POOL[x]), POOL[x][3], 1) for x in spec]
            ctx.step()
            if mode == 'fail':
                hit = failing(pa, certs, k)
            else:
                hit = dying(pa, certs, k)
            svc.drop_engines()
            pa.engine = svc.database.get_engine('PAUTH')
            after = pa.dump()
            ctx.state((mode, tuple(first), tuple(spec), k))
            if after != before and not complete(before, after, [POOL[x] for x in spec]):
                raise Violation('an interrupted request left a part of a session behind', mode=mode, statement=k, earlier=first, certificates=spec,
                                certificates_added=len(after[0]) - len(before[0]), assignments_added=len(after[1]) - len(before[1]), sessions_added=len(after[2]) - len(before[2]))
            if not hit:
                if after == before:
                    raise Violation('a session without any fault was not recorded')
                break
            # and the authority still works afterwards
            pa.service = svc.spa.PolicyAuthority()
            started(ctx, pa, [POOL[x] for x in spec])
            k += 1
            if k > 200:
                raise Violation('endless statements')
        finally:
            svc.drop_engines()
            svc.configure('PAUTH', DB_TYPE='MEMORY', DB_NAME=None)
            for f in (path + '.db', path + '.db-journal'):
                if os.path.exists(f):
                    os.unlink(f)


def complete(before, after, spec):
    serials = {svc.serial64(x[2]) for x in spec}
    news = [s for s in after[2] if s not in before[2]]
    if len(news) != 1 or len(after[2]) != len(before[2]) + 1:
        return False
    sid = news[0][0]
    return {a for a in after[1] if a not in before[1]} == {(s, sid) for s in serials} and {r[0] for r in after[0]} == {r[0] for r in before[0]} | serials


def hooks(pa, k, act):
    n = [0]

    def tick(*a, **kw):
        n[0] += 1
        if n[0] == k + 1:
            act()
    points = (('before_cursor_execute', tick), ('after_cursor_execute', tick), ('commit', tick))
    for name, fn in points:
        event.listen(pa.engine, name, fn)
    return n, lambda: [event.remove(pa.engine, name, fn) for name, fn in points]


def failing(pa, certs, k):
    def act():
        raise Fault('statement %d' % k)
    n, undo = hooks(pa, k, act)
    try:
        pa.start(certs)
    except Exception:
        if n[0] <= k:
            raise
    finally:
        undo()
    gc.collect()
    return n[0] > k


def dying(pa, certs, k):
    """the process is killed at the k-th point; what is on disk counts"""
    svc.drop_engines()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_PROF, 0)
        pa.engine = svc.database.get_engine('PAUTH')
        pa.service = svc.spa.PolicyAuthority()
        n, _ = hooks(pa, k, lambda: os._exit(9))
        try:
            pa.start(certs)
            os._exit(0)
        except BaseException as e:
            os.write(w, repr(e)[:2000].encode())
            os._exit(8)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        said = f.read()
    status = os.WEXITSTATUS(os.waitpid(pid, 0)[1])
    if status == 8:
        raise Violation('starting a session failed without a fault', error=said.decode('utf-8', 'replace'))
    return status == 9


def ids(ctx):
    """session ids are long and never repeat, also when the clock stands still or the service restarts"""
    pa = authority()
    raw = [(cert(*POOL[0]), 0, 1)]
    seen = []
    for t in (NOW, NOW, NOW + 1, NOW):
        clock.set(t)
        pa.service = svc.spa.PolicyAuthority()
        for _ in range(50):
            seen.append(pa.start(raw).session_id)
            ctx.step()
    if len(set(seen)) != len(seen):
        raise Violation('session id used again', sessions=len(seen))
    if max(x.bit_length() for x in seen) <= 100:
        raise Violation('session ids are short', longest=max(x.bit_length() for x in seen))
    if len({x >> 100 for x in seen}) < 100 or len({x & (2 ** 60 - 1) for x in seen}) < 100:
        raise Violation('session ids repeat in part')
    # each of the 160 bits takes both values (it fails to by chance with probability below 2 ** -190)
    still = [b for b in range(160) if len({x >> b & 1 for x in seen}) < 2]
    if still:
        raise Violation('session ids do not come from 160 random bits', bits_that_never_change=still)
    ctx.traces += 1


def run(chk):
    chk.bounds = {'certificates_per_session': '3 with all lifetimes, up to %d' % (200 if THOROUGH else 100), 'end_of_validity': BEFORE, 'issued': ISSUED, 'history_length': 4 if THOROUGH else 3, 'fault_points': 'before and after every SQL statement, at commit'}
    chk.assumptions = ['sqlite commits atomically', 'the ladon web framework is replaced by a stub: methods are called with decoded arguments']
    chk.explore('all lifetimes', life_gen, life_one)
    chk.explore('many certificates', many_gen, many_one)
    chk.explore('lengths of validity', life2_gen, life2_one)
    chk.explore('a running clock', tick_gen, tick_one)
    chk.explore('services and addresses', who_gen, who_one)
    chk.explore('clock, service and address', now_gen, now_one)
    chk.explore('all histories of sessions', hist_gen, hist_one)
    chk.explore('a fault or the end of the process at every statement', fault_gen, fault_one)
    chk.one('session ids', ids)
