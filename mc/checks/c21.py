"""C21 a certificate is valid strictly between its start and end: all orders and distances of start, end and clock."""
from itertools import product

from mc import ac, clock
from mc.core import Violation, THOROUGH

A = ac.A
N = ac.NOW
POINTS = sorted({0, 1, 2, N - 86400, N - 2, N - 1, N, N + 1, N + 2, N + 59, N + 3600, N + 86399, N + 86400, N + 86401, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1})


def gen():
    yield from product(POINTS, POINTS)
    if THOROUGH:
        yield from product(range(0, 60), repeat=2)


def one(ctx, case):
    a, b = case
    rules = A.ACRevocationRules(a, b)
    certs = [ac.base(rev_rules=rules)]
    certs.append(A.AttributeCertificate.decode(bytearray(certs[0].encode())))
    certs[0].sign(ac.KEYS[0])
    nows = {x + d for x in (a, b) for d in (-2, -1, 0, 1, 2)} | set(POINTS) | {(a + b) // 2}
    ctx.state(case)
    for now in sorted(x for x in nows if x >= 0):
        want = a < now < b
        for cert in certs:
            for given in (0, 1):
                ctx.step()
                clock.set(now if not given else (now + 5000 if now < 5000 else now - 5000))
                try:
                    got = cert.verify_time(now) if given else cert.verify_time()
                finally:
                    clock.set(None)
                if got is not want and bool(got) != want:
                    raise Violation('wrong validity', valid_after=a, valid_before=b, now=now, clock='argument' if given else 'system', got=got, expected=want)


def fraction_gen():
    for end in (N + 1, N + 2, N + 10):
        for k in range(-8, 5):
            yield (end, k / 4)


def fraction_one(ctx, case):
    """clocks between whole seconds: valid until the end, then no more"""
    end, d = case
    cert = ac.base(rev_rules=A.ACRevocationRules(N - 100, end))
    later = ac.base(rev_rules=A.ACRevocationRules(end, end + 100))
    clock.set(end + d)
    try:
        got = cert.verify_time()
    finally:
        clock.set(None)
    ctx.step(3)
    ctx.state(case)
    if bool(got) != (d < 0):
        raise Violation('wrong validity', valid_before=end, now=end + d, got=got)
    if bool(cert.verify_time(end + d)) != (d < 0):
        raise Violation('wrong validity at a given time', valid_before=end, now=end + d)
    if bool(later.verify_time(end + d)) != (d > 0):
        raise Violation('wrong validity at a given time', valid_after=end, now=end + d)


def default_gen():
    for t in POINTS[1:-4]:
        for given in product((0, 1), repeat=3):
            yield (t, given)


def default_one(ctx, case):
    """a certificate made without explicit times is issued now and valid for one day"""
    t, (ga, gb, gi) = case
    clock.set(t)
    try:
        r = A.ACRevocationRules(*([t + 3 if ga else None, t + 7 if gb else None]))
        i = A.ACInformation(1, 5, t + 1 if gi else None)
    finally:
        clock.set(None)
    ctx.step()
    ctx.state(case)
    want = (t + 3 if ga else t, t + 7 if gb else t + 86400, t + 1 if gi else t)
    if (r.valid_after, r.valid_before, i.issued) != want:
        raise Violation('wrong default times', now=t, got=(r.valid_after, r.valid_before, i.issued), expected=want)


def serials(ctx):
    seen = set()
    for _ in range(2000):
        s = A.ACInformation().serial
        ctx.step()
        if not 0 <= s < 2 ** 160 or s in seen:
            raise Violation('serial number out of range or repeated', serial=s)
        seen.add(s)
    if max(seen).bit_length() < 150:
        raise Violation('serial numbers do not use their range', largest=max(seen))
    ctx.state(len(seen))


def zero(ctx):
    """explicit zero times are kept, and explicit now=0 is not the current time"""
    c = ac.base(rev_rules=A.ACRevocationRules(0, N))
    ctx.step()
    ctx.state('zero')
    clock.set(N - 5)
    try:
        i = A.ACInformation(1, 0, 0)
        if (i.serial, i.issued) != (0, 0):
            raise Violation('explicit serial or time 0 was lost', got=(i.serial, i.issued))
        if c.verify_time(0):
            raise Violation('time 0 taken for the current time')
        if not c.verify_time():
            raise Violation('explicit start 0 was lost')
    finally:
        clock.set(None)


def run(chk):
    chk.bounds = {'points': len(POINTS)}
    chk.assumptions = ['times are whole seconds']
    chk.explore('all windows and clocks', gen, one)
    chk.explore('fractions of seconds', fraction_gen, fraction_one)
    chk.explore('default times', default_gen, default_one)
    chk.one('serials', serials)
    chk.one('zero', zero)
