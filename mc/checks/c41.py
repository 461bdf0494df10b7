"""C41 evaluate requests are let through only for a valid policy in a live session whose certificates still hold, and never answered with a decision."""
from itertools import product

from Crypto.PublicKey import RSA

from mc import ac, clock, ref, svc
from mc.core import Violation, THOROUGH
from mc.checks import c08, c13

NOW = ac.NOW
DAY = 86400
BOX = {}
GOOD = 'user.a = 1 AND NOT object.b'


def valid(text):
    """accepted by the grammar and without any issue of the type checker"""
    try:
        issues, _ = ref.typecheck(ref.parse_text(text))
    except (ref.LexErr, ref.ParseErr):
        return False
    return not issues


def request(sid, uid, text, atts):
    """arguments of an evaluate request; atts: None or [(name, uid)]"""
    pair = svc.spa.PolicyObjectAttPair()
    pair.policy = svc.spa.Policy()
    pair.policy.policy_uid, pair.policy.policy_string, pair.policy.policy_lang_ver = uid, text, 1
    pair.object_attributes = None
    if atts is not None:
        pair.object_attributes = []
        for n, u, *rest in atts:
            a = svc.spa.ObjectAttribute()
            a.name, a.uid, a.type, a.value = n, u, *(rest or (0, '1'))
            pair.object_attributes.append(a)
    return sid, pair


def everything(pa):
    s = pa.session()
    out = (pa.dump(), sorted((p.uid, p.name, p.policy, p.ast) for p in s.query(svc.sp.Policy).all()),
           sorted((a.uid, a.name, a.url, a.key_cipher, a.key_size, a.pub_key, a.trust_level) for a in s.query(svc.sp.AttributeAuthority).all()))
    s.close()
    return out


def ask(ctx, pa, sid, uid, text, atts, want, detail, whole=True):
    """want: True (let through), 'client' (refused with a client fault), False (refused)"""
    before = everything(pa) if whole else None
    ctx.step()
    try:
        r = pa.service.evaluate(*request(sid, uid, text, atts), REMOTE_ADDR='10.0.0.9')
    except Exception as e:
        if want is True:
            raise Violation('an evaluate request with a valid policy, live session and good certificates was refused', error=e, **detail)
        if want == 'client' and not isinstance(e, svc.ClientFault):
            raise Violation('refused with %s instead of a client fault' % type(e).__name__, error=e, **detail)
    else:
        if want is not True:
            raise Violation('an evaluate request that has to be refused was let through', got=r, **detail)
        if r is not None:
            raise Violation('a decision was given though the policy was not evaluated', got=getattr(r, 'result', r), **detail)
    if whole and everything(pa) != before:
        raise Violation('an evaluate request changed the database', **detail)


def authority():
    if 'pa' not in BOX:
        BOX['pa'] = svc.Policies()
        BOX['certs'] = [bytes(svc.issue(serial=1).encode()), bytes(svc.issue(serial=2, before=10 ** 6, uid='bb', key=1).encode()), bytes(svc.issue(serial=3, before=DAY + 500).encode())]
    pa = BOX['pa']
    pa.wipe()
    pa.authority('aa', 0, 1)
    pa.authority('bb', 1, 1)
    clock.set(NOW)
    return pa


def prepared():
    """an authority with a live and an ended session and stored policies, kept for requests that must change nothing"""
    if 'ready' not in BOX:
        authority()
        pa = BOX['ready'] = BOX.pop('pa')
        old = bytes(svc.issue(serial=9, after=-1000, before=-500).encode())
        clock.set(NOW - 900)
        over = pa.start([(old, 0, 1)]).session_id
        clock.set(NOW)
        BOX['sids'] = {'live': pa.start([(BOX['certs'][0], 0, 1)]).session_id, 'both': pa.start([(BOX['certs'][0], 0, 1), (BOX['certs'][1], 0, 1)]).session_id, 'over': over}
        pa.add(*[svc.sp.Policy(uid=u, name='n', policy=t, ast=None) for u, t in STORED.items()])
    clock.set(NOW)
    return BOX['ready'], BOX['sids']


STORED = {'p1': GOOD, 'p2': 'user.a = ', 'p3': '1 = "s"', 'P1': 'TRUE AND', 'p1 ': 'TRUE', '': 'user.a', '%': GOOD}


def policy_gen():
    yield from c08.gen(c08.PIECES, 0, 2)()
    yield from c08.gen(c08.CORE, 3, 4 if THOROUGH else 3)()
    yield from c13.check_gen()
    for x, y, c in product(ISSUES, CLEAN, ('AND', 'OR')):
        yield '%s %s %s' % (x, c, y)
        yield '%s %s NOT (%s)' % (y, c, x)
    for c in map(chr, range(128)):
        for t in ('user.a = 1', 'TRUE', '(user.a = "s")'):
            yield c + t
            yield t + c
            yield t + c + c
            yield '%s AND%s %s' % (t, c, t)
    for x, y in product(CLEAN, repeat=2):
        yield '%s AND %s' % (x, y)


ISSUES = ['1 = "s"', 'user.x = 1 AND user.x = "s"', 'env.x > "s"', 'object.x IN 5', '{1} > 2', '"a" < "b"', 'user.x SUBSET 1', 'admin.x = 1 OR admin.x = 1.5', 'connect.x = {1} AND connect.x = 1', 'user.x AND user.x = 1', 'NULL > 1',
          'TRUE = 1']
CLEAN = ['TRUE', 'user.q', 'user.a IN {1, 2}', 'env.d SUBSET {"a"}', 'object.f >= 1.5', 'admin.n != NULL', 'connect.s = "s"', 'user.l <= env.m', 'NOT object.k', '(user.a = 1)', '{} = {}', 'UNDEF', '1 IN {1}', '2 > 1']


def policy_one(ctx, text):
    pa, sids = prepared()
    v = valid(text)
    ctx.state((text, v))
    ask(ctx, pa, sids['live'], None, text, None, True if v else 'client', dict(policy=text), False)


def stored_gen():
    texts = list(c08.gen(c08.PIECES, 0, 2 if THOROUGH else 1)()) + list(c13.check_gen())[:150]
    for i, t in enumerate(texts):
        yield (i, t)


def stored_one(ctx, case):
    i, text = case
    pa, sids = prepared()
    uid = 'stored-%d' % i
    pa.add(svc.sp.Policy(uid=uid, name=None, policy=text, ast=None))
    v = valid(text)
    ctx.state((text, v))
    ask(ctx, pa, sids['live'], uid, None, [], True if v else 'client', dict(stored_policy=text), False)
    ask(ctx, pa, sids['live'], uid + 'x', None, [], 'client', dict(stored_policy=text, asked_for=uid + 'x'), False)


REFS = [(None, None), (None, GOOD), (None, 'user.a ='), (None, '1 = "s"'), (None, ''), ('p1', None), ('p2', None), ('p3', None), ('P1', None), ('p1 ', None), (' p1', None), ('p', None), ('', None),
        ('%', None), ('p_', None), ('n', None), ('zz', None), ('zz', GOOD), ('p1', 'user.a ='), ('p1', GOOD), ('p2', GOOD), ('', GOOD)]
ATTS = [None, [], [('a', None)], [(None, 'u')], [('a', 'u')], [(None, None)]] + [[x, y] for x, y in product([('a', None), (None, 'u'), (None, None)], repeat=2)] + \
    [[('a', 'u')] * k + [(None, None)] + [('b', 'u')] * j for k, j in ((2, 0), (1, 1), (0, 2), (5, 0), (20, 0), (63, 3))] + [[('a%d' % i, None) for i in range(40)]] + \
    [[(n, u, t, v)] for n, u in ((None, None), ('a', None), (None, 'u'), ('', None), (None, '')) for t in (0, 1, 7) for v in (None, '', 'x')]
SIDS = ['live', 'both', 'over', 'unknown', 'live+1', 'live-1', 'zero', 'negative', 'big', 'high']


def sid_of(sids, name):
    if name in sids:
        return sids[name]
    live = sids['live']
    return {'unknown': 12345, 'live+1': live + 1, 'live-1': live - 1, 'zero': 0, 'negative': -live, 'big': live + 2 ** 160, 'high': live ^ (1 << 159)}[name]


def request_gen():
    for r in range(len(REFS)):
        for a in range(len(ATTS)):
            for s in SIDS:
                if THOROUGH or a < 6 or s in ('live', 'over') or r in (1, 5):
                    yield (r, a, s)


def request_one(ctx, case):
    r, a, s = case
    pa, sids = prepared()
    (uid, text), atts = REFS[r], ATTS[a]
    policy = STORED.get(uid) if uid is not None else text
    ok = policy is not None and valid(policy) and all(x[0] is not None or x[1] is not None for x in atts or []) and s in ('live', 'both')
    ctx.state((r, a, s))
    ask(ctx, pa, sid_of(sids, s), uid, text, atts, True if ok else False if s in ('negative', 'big') else 'client',
        dict(policy_uid=uid, policy_text=text, stored=STORED, attributes=atts, session=s))


# sessions over time

SETS = {'A': (0,), 'B': (0, 1), 'C': (2,), 'D': (1, 2)}
ENDS = {0: NOW + 1000, 1: NOW + 10 ** 6, 2: NOW + DAY + 500}
OWNER = {0: 'aa', 1: 'bb', 2: 'aa'}
ROWS = ['certificate', 'hash', 'valid_till', 'format', 'version', 'swap']


def time_gen():
    points = [0, 1, 998, 999, 1000, 1001, DAY - 1, DAY, DAY + 1, DAY + 499, DAY + 500, DAY + 501, 10 ** 6 - 1, 10 ** 6, 10 ** 6 + 1]
    for name in SETS:
        for start in (0, 5, 400):
            for p in points:
                if p >= start:
                    yield (name, start, p)
                    if p > start:
                        yield (name, start, p + 0.5)


def still(name, start, now):
    return int(now) <= min([start + DAY] + [ENDS[c] for c in SETS[name]]) and all(NOW - 10 < int(now) < ENDS[c] for c in SETS[name])


def time_one(ctx, case):
    name, start, p = case
    pa = authority()
    clock.set(NOW + start)
    sid = pa.start([(BOX['certs'][c], 0, 1) for c in SETS[name]]).session_id
    clock.set(NOW + p)
    ok = still(name, NOW + start, NOW + p)
    ctx.state((case, ok))
    ask(ctx, pa, sid, None, GOOD, None, True if ok else 'client', dict(certificates=list(SETS[name]), started=start, asked=p))


ACTS = ['start A', 'start B', 'start D', 'wait 1100', 'wait day', 'distrust aa', 'distrust bb', 'trust aa', 'other key aa', 'remove bb', 'restart']


def history_gen():
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for h in product(range(len(ACTS)), repeat=n):
            if h[0] < 3:
                yield h


def change(pa, uid, **values):
    s = pa.session()
    q = s.query(svc.sp.AttributeAuthority).filter(svc.sp.AttributeAuthority.uid == uid)
    q.update(values) if values else q.delete()
    s.commit()
    s.close()


def history_one(ctx, h):
    pa = authority()
    now, trusted = NOW, {'aa': True, 'bb': True}
    right, there, sessions = True, True, []
    names = [ACTS[x] for x in h]
    for x in h:
        act = ACTS[x]
        if act.startswith('start'):
            name = act[-1]
            fine = still(name, now, now) and all(trusted[OWNER[c]] and (right or OWNER[c] != 'aa') and (there or OWNER[c] != 'bb') for c in SETS[name])
            try:
                sessions.append((pa.start([(BOX['certs'][c], 0, 1) for c in SETS[name]]).session_id, name, now))
            except Exception as e:
                if fine:
                    raise Violation('a good session was refused', history=names, error=e)
            else:
                if not fine:
                    raise Violation('a session was started that has to be refused', history=names)
        elif act.startswith('wait'):
            now += 1100 if act.endswith('1100') else DAY
            clock.set(now)
        elif act.startswith('distrust'):
            change(pa, act[-2:], trust_level=0)
            trusted[act[-2:]] = False
        elif act == 'trust aa':
            change(pa, 'aa', trust_level=2)
            trusted['aa'] = True
        elif act == 'other key aa':
            right = not right
            change(pa, 'aa', pub_key=svc.PEMPUB[0 if right else 2].decode())
        elif act == 'remove bb':
            change(pa, 'bb')
            there = False
        else:
            pa.service = svc.spa.PolicyAuthority()
        for sid, name, started in sessions:
            ok = still(name, started, now) and all(trusted[OWNER[c]] and (right or OWNER[c] != 'aa') and (there or OWNER[c] != 'bb') for c in SETS[name])
            ask(ctx, pa, sid, None, GOOD, None, True if ok else 'client', dict(history=names, session=[name, started - NOW], now=now - NOW), False)
    ctx.state((tuple(sorted(trusted.items())), right, there, now, tuple(n for _, n, _ in sessions)))


def tamper_gen():
    for name in SETS:
        for c in SETS[name]:
            for what in ROWS:
                for back in (False, True):
                    yield (name, c, what, back)


def tamper_one(ctx, case):
    """the recorded certificate no longer is what the session was started with"""
    name, c, what, back = case
    pa = authority()
    sid = pa.start([(BOX['certs'][x], 0, 1) for x in SETS[name]]).session_id
    s = pa.session()
    row = s.query(svc.sp.AttributeCertificate).filter(svc.sp.AttributeCertificate.serial == svc.serial64(c + 1)).one()
    raw = bytearray(row.certificate)
    raw[-1] ^= 1
    new = {'certificate': bytes(raw), 'hash': row.hash[:-2] + ('A=' if row.hash[-2] != 'A' else 'B='), 'valid_till': row.valid_till + 1, 'format': 1, 'version': 2,
           'swap': BOX['certs'][(c + 1) % 3]}[what]
    field = 'certificate' if what == 'swap' else what
    old = getattr(row, field)
    setattr(row, field, new)
    s.commit()
    ask(ctx, pa, sid, None, GOOD, None, False, dict(certificates=list(SETS[name]), changed=what, of=c))
    if back:
        setattr(row, field, old)
        s.commit()
        ask(ctx, pa, sid, None, GOOD, None, True, dict(certificates=list(SETS[name]), changed_and_restored=what, of=c))
    s.close()
    ctx.state(case)


def crowd_gen():
    for n in range(1, 8 if THOROUGH else 7):
        for k in range(n):
            for what in ('distrust', 'other key', 'other exponent', 'remove', 'changed', 'end'):
                yield (n, k, what)
    for n in (11, 17, 33) + ((65, 101) if THOROUGH else ()):
        for k in sorted({0, 9, 10, min(15, n - 1), min(16, n - 1), n // 2, n - 2, n - 1}):
            for what in ('distrust', 'other key', 'changed'):
                yield (n, k, what)


def crowd_one(ctx, case):
    """a session on n certificates of n authorities, and what happens to one of them"""
    n, k, what = case
    pa = authority()
    if 'crowd' not in BOX:
        BOX['crowd'] = {(i, e): bytes(svc.issue(serial=20 + i, before=e, uid='c%d' % i, key=i % 2).encode()) for i in range(8) for e in (5000, 300)}
    for i in range(8, n):
        if (i, 5000) not in BOX['crowd']:
            BOX['crowd'][i, 5000] = bytes(svc.issue(serial=20 + i, before=5000, uid='c%d' % i, key=i % 2).encode())
    for i in range(n):
        pa.authority('c%d' % i, i % 2, 1)
    sid = pa.start([(BOX['crowd'][i, 300 if what == 'end' and i == k else 5000], 0, 1) for i in range(n)]).session_id
    d = dict(certificates=n, at=k, change=what)
    ask(ctx, pa, sid, None, GOOD, None, True, d)
    if what == 'distrust':
        change(pa, 'c%d' % k, trust_level=0)
    elif what == 'other key':
        change(pa, 'c%d' % k, pub_key=svc.PEMPUB[2].decode())
    elif what == 'other exponent':
        change(pa, 'c%d' % k, pub_key=RSA.construct((ac.KEYS[k % 2].n, 257)).export_key().decode())
    elif what == 'remove':
        change(pa, 'c%d' % k)
    elif what == 'end':
        clock.set(NOW + 301)
    else:
        s = pa.session()
        row = s.query(svc.sp.AttributeCertificate).filter(svc.sp.AttributeCertificate.serial == svc.serial64(20 + k)).one()
        row.certificate = row.certificate[:-1] + bytes([row.certificate[-1] ^ 1])
        s.commit()
        s.close()
    ask(ctx, pa, sid, None, GOOD, None, 'client' if what != 'changed' else False, d)
    ctx.state(case)


def run(chk):
    BOX.clear()
    chk.bounds = {'policies': '2 of 38 pieces, 3 (4) of 18 pieces, and comparisons with issues', 'requests': len(REFS) * len(ATTS) * len(SIDS), 'history_length': 4 if THOROUGH else 3, 'actions': len(ACTS)}
    chk.assumptions = ['evaluation itself is unfinished in the code: a request that passes every condition gets no decision', 'certificates are checked again at every request (RECHECK_CERT_EACH_EVAL)',
                       'the ladon web framework is replaced by a stub']
    chk.explore('all policies', policy_gen, policy_one)
    chk.explore('stored policies', stored_gen, stored_one)
    chk.explore('all requests', request_gen, request_one)
    chk.explore('all times', time_gen, time_one)
    chk.explore('changed records', tamper_gen, tamper_one)
    chk.explore('sessions on many certificates', crowd_gen, crowd_one)
    chk.explore('all histories of sessions and authorities', history_gen, history_one)
