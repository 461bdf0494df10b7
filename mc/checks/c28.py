"""C28 a serial stands for one certificate for ever: all histories of sessions over certificates that share serials."""
from itertools import combinations, product

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH

PA = []
NOW = ac.NOW
POOL = []


def pool():
    """(serial, raw) of certificates that are all genuine"""
    if not POOL:
        A, AT = ac.A, ac.AT
        nurse, chief = [A.ACAttribute('user.role', AT.STRING, 'nurse', 'role')], [A.ACAttribute('user.role', AT.STRING, 'chief', 'role')]
        big = 2 ** 160 - 1
        for serial, kw in ((1, dict(atts=nurse)), (1, dict(atts=chief)), (1, dict(atts=nurse, before=1001)), (1, dict(atts=nurse, uid='bb', key=1)),
                           (2, dict(atts=nurse)), (2, dict(atts=nurse, issued=NOW - 1)), (256, dict(atts=nurse)), (big, dict(atts=nurse)), (big, dict(atts=chief)), (0, dict(atts=chief))):
            POOL.append((serial, bytes(svc.issue(serial=serial, **kw).encode())))
    return POOL


def authority():
    if not PA:
        PA.append(svc.Policies())
    pa = PA[0]
    pa.wipe()
    pa.authority('aa', 0, 1)
    pa.authority('bb', 1, 1)
    clock.set(NOW)
    return pa


def gen(n, items, step, restart):
    sets = [(x,) for x in items] + [c for c in combinations(items, 2)] + [tuple(reversed(c)) for c in combinations(items, 2)]
    for k in range(1, n + 1):
        for h in product(sets, repeat=k):
            yield (h, step, restart)


def cases():
    yield from gen(3 if THOROUGH else 2, range(10) if THOROUGH else (0, 1, 2, 3, 4, 6, 7, 8), 0, False)
    yield from gen(4 if THOROUGH else 3, (0, 1, 4), 0, False)
    yield from gen(4 if THOROUGH else 3, (0, 3, 6), 300, True)
    yield from gen(3, (7, 8, 9), 0, True)


def one(ctx, case):
    h, step, restart = case
    pa = authority()
    P = pool()
    seen, now = {}, NOW
    for st in h:
        mine = {}
        ok = True
        for x in st:
            serial, raw = P[x]
            if seen.get(serial, raw) != raw or mine.get(serial, raw) != raw:
                ok = False
            mine[serial] = raw
        before = pa.dump()
        ctx.step()
        hist = [list(s) for s in h]
        try:
            r = pa.start([(P[x][1], 0, 1) for x in st])
        except Exception as e:
            if ok:
                raise Violation('a session was refused though every serial stands for the certificate it stood for before', history=hist, at=list(st), error=e)
            if pa.dump() != before:
                raise Violation('a refused session left a trace', history=hist, at=list(st))
        else:
            if not ok:
                raise Violation('a serial was accepted for two different certificates', history=hist, at=list(st), serials=[P[x][0] for x in st])
            seen.update(mine)
            after = pa.dump()
            if {x[0]: x[1] for x in after[0]} != {svc.serial64(s): raw for s, raw in seen.items()} or len(after[0]) != len(seen):
                raise Violation('the recorded certificate is not the one its serial stands for', history=hist, at=list(st))
            if sorted(a[0] for a in after[1] if a[1] == svc.serial64(r.session_id)) != sorted(svc.serial64(s) for s in mine):
                raise Violation('the session does not refer to its certificates', history=hist, at=list(st))
        ctx.state(tuple(sorted((s, hash(raw)) for s, raw in seen.items())) + (st,))
        if restart:
            pa.service = svc.spa.PolicyAuthority()
        now += step
        clock.set(now)


LATER = []
WAIT = [0, 200, 90000, 40 * 86400, 3 * 365 * 86400]
EVENT = ['', 'restart', 'distrust', 'refused', 'ask']


def later():
    """(serial, raw, valid after, valid before): certificates of one serial with different lifetimes, and one of another"""
    if not LATER:
        A, AT = ac.A, ac.AT
        for serial, role, after, before in ((1, 'nurse', -10, 100), (1, 'nurse', -10, 10 ** 6), (1, 'chief', 150, 2 * 10 ** 8), (2, 'nurse', -10, 100), (2, 'nurse', 150, 2 * 10 ** 8)):
            c = svc.issue(serial=serial, after=after, before=before, atts=[A.ACAttribute('user.role', AT.STRING, role, 'role')])
            LATER.append((serial, bytes(c.encode()), NOW + after, NOW + before))
    return LATER


def later_gen():
    sets = [(x,) for x in range(5)] + [(0, 3), (1, 3), (1, 4), (2, 4)]
    for a, b in product(sets, sets):
        for w in WAIT[1:]:
            for e in EVENT:
                yield [(a, 0, ''), (b, w, e)]
    three = [(x,) for x in range(3)] + ([(3,), (1, 4)] if THOROUGH else [])
    for a, b, c in product(three, repeat=3):
        for w1, w2 in product(WAIT, repeat=2):
            for e in EVENT if THOROUGH else EVENT[:2]:
                yield [(a, 0, ''), (b, w1, ''), (c, w2, e)]


def later_one(ctx, case):
    pa = authority()
    P = later()
    seen, now = {}, NOW
    for st, wait, event in case:
        now += wait
        clock.set(now)
        if event == 'restart':
            pa.service = svc.spa.PolicyAuthority()
        elif event == 'distrust':  # an authority that is not trusted for a while
            s = pa.session()
            s.query(svc.sp.AttributeAuthority).update({'trust_level': 0})
            s.commit()
            try:
                pa.start([(P[st[0]][1], 0, 1)])
            except Exception:
                pass
            else:
                raise Violation('a session was started for an authority that is not trusted', history=case)
            s.query(svc.sp.AttributeAuthority).update({'trust_level': 1})
            s.commit()
            s.close()
        elif event == 'refused':
            try:
                pa.start([(P[st[0]][1], 0, 1), (b'garbage', 0, 1)])
            except Exception:
                pass
            else:
                raise Violation('a session was started with garbage', history=case)
        elif event == 'ask':
            pa.service.info(REMOTE_ADDR='1')
            pa.service.trusted_attribute_authorities(REMOTE_ADDR='1')
        mine = {P[x][0]: P[x][1] for x in st}
        ok = all(P[x][2] < now < P[x][3] for x in st) and all(seen.get(k, v) == v for k, v in mine.items())
        before = pa.dump()
        ctx.step()
        try:
            pa.start([(P[x][1], 0, 1) for x in st])
        except Exception as e:
            if ok:
                raise Violation('a session was refused though every serial stands for the certificate it stood for before', history=case, at=st, error=e)
            if pa.dump() != before:
                raise Violation('a refused session left a trace', history=case, at=st)
        else:
            if not ok:
                raise Violation('a serial was accepted for two different certificates, or an invalid certificate', history=case, at=st)
            seen.update(mine)
        if {x[0]: x[1] for x in pa.dump()[0]} != {svc.serial64(k): v for k, v in seen.items()}:
            raise Violation('the recorded certificate is not the one its serial stands for', history=case, at=st)
        ctx.state((now, tuple(sorted((k, hash(v)) for k, v in seen.items())), st))


# -- other export formats, hashes that nearly agree ---------------------------------------------------------------------------------
FORMS = {}


def form(k, fmt):
    """certificate k of the pool exported in that format; k >= 100: certificates that differ in one value only"""
    if (k, fmt) not in FORMS:
        if k < 100:
            c = ac.A.AttributeCertificate.decode(bytearray(pool()[k][1]))
        else:
            c = svc.issue(serial=1, atts=[ac.A.ACAttribute('user.role', ac.AT.STRING, 'r%d' % (k - 100), 'role')])
        d = c.export_ac(ac.EF(fmt))
        FORMS[(k, fmt)] = d.encode() if isinstance(d, str) else bytes(d)
    return FORMS[(k, fmt)]


def form_gen():
    items = [(k, f) for k in (0, 1, 3, 4) for f in (0, 3, 4)]
    for n in (2, 3):
        for h in product(items, repeat=n):
            if all(a == b or a[0] != b[0] for a, b in combinations(h, 2)):
                yield h
    # two certificates of one serial whose SHA-256 have the same first or last characters in base64 (found by search)
    for a, b in ((34, 43), (122, 147), (2213, 3221), (1770, 14384), (56, 16258), (16343, 17553)):
        yield ((100 + a, 0), (100 + b, 0))
        yield ((100 + b, 0), (100 + a, 0))
    for k in range(150):
        yield ((100, 0), (101 + k, 0), (100, 0))


def form_one(ctx, h):
    pa = authority()
    seen = {}
    for k, fmt in h:
        serial = pool()[k][0] if k < 100 else 1
        ok = seen.setdefault(serial, (k, fmt)) == (k, fmt)
        before = pa.dump()
        ctx.step()
        try:
            pa.start([(form(k, fmt), fmt, 1)])
        except Exception as e:
            if ok:
                raise Violation('a session was refused though every serial stands for the certificate it stood for before', history=h, error=e)
            if pa.dump() != before:
                raise Violation('a refused session left a trace', history=h)
        else:
            if not ok:
                raise Violation('a serial was accepted for two different certificates', history=h, at=(k, fmt))
        ctx.state((tuple(sorted(seen.items())), k, fmt))
    if {x[0]: (x[1], x[2]) for x in pa.dump()[0]} != {svc.serial64(n): (form(*x), x[1]) for n, x in seen.items()}:
        raise Violation('the recorded certificate is not the one its serial stands for', history=h)


# -- large certificates, serials that look alike ------------------------------------------------------------------------------------
SIZES = [500, 1000, 2000, 4000, 5000, 8000, 9000, 16000, 17000, 32000, 33000, 64000, 66000, 100000, 132000, 300000] + ([1100000, 2200000] if THOROUGH else [])


def large(size, role, first):
    """a certificate of about that size in which the role stands at the beginning or at the end"""
    A, AT = ac.A, ac.AT
    fill = [A.ACAttribute('f%d' % i, AT.STRING, 'x' * min(60000, size - i * 60000), 'f') for i in range((size + 59999) // 60000)]
    role = [A.ACAttribute('user.role', AT.STRING, role, 'role')]
    return svc.issue(serial=5, atts=role + fill if first else fill + role)


def large_gen():
    for size in SIZES:
        for fmt in (0, 3, 4):
            for first in (True, False):
                yield (size, fmt, first)


def large_one(ctx, case):
    import base64
    import hashlib
    size, fmt, first = case
    a, b = large(size, 'nurse', first), large(size, 'chief', first)
    c = ac.A.AttributeCertificate.decode(bytearray(a.encode()))
    c.extensions = list(c.extensions or []) + [ac.A.ACExtensions('z', b'z')]
    c.sign(ac.KEYS[0])
    raws = []
    for x in (a, b, c):
        d = x.export_ac(ac.EF(fmt))
        raws.append(d.encode() if isinstance(d, str) else bytes(d))
    for mine in range(3):
        pa = authority()
        for other in (mine, mine) + tuple(k for k in range(3) if k != mine) + (mine,):
            ctx.step()
            before = pa.dump()
            try:
                pa.start([(raws[other], fmt, 1)])
                got = True
            except Exception as e:
                got = e
            if (got is True) != (other == mine):
                raise Violation('a large certificate was refused' if other == mine else 'a serial was accepted for two different certificates', size=len(raws[other]), format=fmt, got=got)
            if other != mine and pa.dump() != before:
                raise Violation('a refused session left a trace', size=len(raws[other]))
        try:
            pa.start([(raws[mine], fmt, 1), (raws[(mine + 1) % 3], fmt, 1)])
            raise Violation('a serial was accepted for two different certificates in one request', size=len(raws[mine]))
        except Violation:
            raise
        except Exception:
            pass
        if [(r[1], r[5]) for r in pa.dump()[0]] != [(raws[mine], base64.b64encode(hashlib.sha256(raws[mine]).digest()).decode())]:
            raise Violation('the recorded certificate is not the one its serial stands for', size=len(raws[mine]), format=fmt)
    ctx.state(case)


def alike_gen():
    import base64
    start = [0x1234567890abcdef1234567890abcdef12345678, 0xfedcba9876543210fedcba9876543210fedcba98, 0x61, 2 ** 159 + 2 ** 80 + 7]
    for n in start:
        t = svc.serial64(n)
        out = set()
        for i, ch in enumerate(t[:27]):
            for other in {ch.swapcase(), 'A', '/', '+', 'a'} - {ch}:
                out.add(t[:i] + other + t[i + 1:])
        out |= {t.lower()[:27] + '=', t.upper()[:27] + '=', t.swapcase()[:27] + '=', t[:27][::-1] + '='}
        found = {int.from_bytes(base64.b64decode(x), 'little') for x in out}
        found |= {int.from_bytes(n.to_bytes(20, 'little'), 'big')} | {n ^ (1 << k) for k in range(160)} | {n % 2 ** k for k in (32, 63, 64, 128)} | {n >> k for k in (1, 8, 32)}
        for m in sorted(found - {n}):
            if m < 2 ** 160:
                yield (n, m)


def alike_one(ctx, case):
    """certificates with serials that look alike are different certificates"""
    raw = [bytes(svc.issue(serial=n, atts=[ac.A.ACAttribute('user.role', ac.AT.STRING, 'r%d' % i, 'role')]).encode()) for i, n in enumerate(case)]
    for order in (((0,), (1,)), ((1,), (0,)), ((0, 1),), ((1, 0), (0,), (1,))):
        pa = authority()
        for st in order:
            ctx.step()
            try:
                pa.start([(raw[i], 0, 1) for i in st])
            except Exception as e:
                raise Violation('a session was refused though every serial stands for the certificate it stood for before', serials=case, order=order, error=e)
        if sorted((r[0], r[1]) for r in pa.dump()[0]) != sorted((svc.serial64(n), r) for n, r in zip(case, raw)):
            raise Violation('the recorded certificate is not the one its serial stands for', serials=case, order=order)
    ctx.state(case)


def run(chk):
    later()
    pool()
    chk.bounds = {'certificates': 10, 'serials': 5, 'certificates_per_session': 2, 'certificate_bytes': max(SIZES), 'pairs_of_similar_serials': len(list(alike_gen())), 'sessions': '2 with all, 3 with three certificates at a time (thorough: 3 and 4)'}
    chk.assumptions = ['SHA-256 has no collisions', 'the same certificate is not presented in two export formats', 'the ladon web framework is replaced by a stub']
    chk.explore('all histories of sessions with shared serials', cases, one)
    chk.explore('all histories in which certificates expire', later_gen, later_one)
    chk.explore('export formats and similar hashes', form_gen, form_one)
    chk.explore('large certificates', large_gen, large_one)
    chk.explore('serials that look alike', alike_gen, alike_one)
