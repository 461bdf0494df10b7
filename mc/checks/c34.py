"""C34 requests, granted or refused, never use up the services: all repeated patterns of requests on a pooled database."""
import gc
import os
from itertools import product

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH

BOX = {}
ROUNDS = 24
AACTS = ['good', 'named', 'password', 'nobody', 'unassigned', 'type', 'address', 'info', 'no type', 'no user', 'no password', 'no key', 'long', 'no attributes', 'surrogate', 'many', 'named twice']
PACTS = ['good', 'again', 'expired', 'garbage', 'untrusted', 'clash', 'empty', 'list', 'info', 'mixed', 'format', 'no format', 'version', 'no set', 'nothing', 'not a list', 'twice', 'evaluate', 'evaluate nothing', 'evaluate unknown', 'evaluate garbage', 'evaluate no pair', 'evaluate no session', 'evaluate -1', 'evaluate huge', 'evaluate uid', 'evaluate altered']


def impatient(engine):
    try:
        engine.pool._timeout = 0.5
    except Exception:
        pass


def attributes():
    S = svc.sa
    if BOX.get('which') != 'aa':
        BOX.clear()
        aa = svc.Attributes(sqlite=os.path.join(svc.SCRATCH, 'c34a-%d' % os.getpid()))
        aa.wipe()
        aa.add(S.User(id=1, username='dan', password=svc.pw('a')), S.Attribute(id='r', name='role', type=ac.AT.STRING), S.AttributeAssignment(user_id=1, att_id='r', value='v'))
        aa.add(S.User(id=2, username='lou', password=svc.pw('a')), *[S.Attribute(id='m%d' % i, name='m%d' % i, type=ac.AT.INT) for i in range(6)],
               *[S.AttributeAssignment(user_id=2, att_id='m%d' % i, value=str(i)) for i in range(6)])
        BOX.update(which='aa', svc=aa)
    aa = BOX['svc']
    impatient(aa.engine)
    return aa


def aa_act(aa, act):
    """True if granted"""
    try:
        if act == 'info':
            aa.service.info(REMOTE_ADDR='1.1.1.1')
        else:
            user = {'nobody': 'nobody', 'no user': None, 'many': 'lou', 'named twice': 'lou'}.get(act, 'dan')
            r = aa.ask(user, {'password': 'x', 'no password': None, 'long': 'x' * 500, 'surrogate': 'a\ud800'}.get(act, 'a'),
                       names={'named': ['role'], 'named twice': ['m0', 'm1', 'm2', 'm3'], 'unassigned': ['zz'], 'no attributes': 7}.get(act, []) if act != 'no attributes' else ['role', 7],
                       ctype={'type': 9, 'no type': None}.get(act, 0), key=None if act == 'no key' else b'user-key', addr='not:an:address' if act == 'address' else '10.0.0.1')
            r.data.close()
        return True, None
    except Exception as e:
        return False, e


def aa_want(act):
    return act in ('good', 'named', 'info', 'many', 'named twice')


def policies():
    if BOX.get('which') != 'pa':
        BOX.clear()
        pa = svc.Policies(sqlite=os.path.join(svc.SCRATCH, 'c34p-%d' % os.getpid()))
        certs = {'good': svc.issue(serial=1), 'mixed': svc.issue(serial=2), 'expired': svc.issue(serial=3, before=-1), 'untrusted': svc.issue(serial=4, uid='zz'), 'clash': svc.issue(serial=1, before=7)}
        BOX.update(which='pa', svc=pa, certs={k: bytes(c.encode()) for k, c in certs.items()})
    pa = BOX['svc']
    impatient(pa.engine)
    pa.wipe()
    pa.authority('aa', 0, 1)
    return pa


def move(pa, by):
    s = pa.session()
    for c in s.query(svc.sp.AttributeCertificate).all():
        c.valid_till += by
    s.commit()
    s.close()


def pa_act(pa, act, n):
    if act == 'evaluate altered':       # the stored record does not fit its certificate
        move(pa, 1)
        try:
            return pa_do(pa, act, n)
        finally:
            move(pa, -1)
    return pa_do(pa, act, n)


def pa_do(pa, act, n):
    C = BOX['certs']
    try:
        if act == 'info':
            pa.service.info(REMOTE_ADDR='1.1.1.1')
        elif act == 'evaluate garbage':
            pa.service.evaluate(None, object(), REMOTE_ADDR='1.1.1.1')
        elif act == 'evaluate no pair':
            pa.service.evaluate(BOX['sid'], None, REMOTE_ADDR='1.1.1.1')
        elif act.startswith('evaluate'):
            from mc.checks import c41
            sid = {'evaluate no session': None, 'evaluate -1': -1, 'evaluate huge': 2 ** 2000}.get(act, BOX['sid'])
            pa.service.evaluate(*c41.request(7 if act.endswith('unknown') else sid, [] if act.endswith('uid') else None, None if act.endswith('nothing') else 'user.a = 1', None), REMOTE_ADDR='1.1.1.1')
        elif act == 'list':
            pa.service.trusted_attribute_authorities(REMOTE_ADDR='1.1.1.1')
        else:
            certs = {'good': [C['good']], 'again': [C['good'], C['mixed']], 'garbage': [b'xx'], 'empty': [], 'mixed': [C['mixed'], C['expired']]}.get(act)
            if act == 'nothing':
                pa.service.start_session('svc', None, REMOTE_ADDR='1.2.3.4')
            elif act == 'not a list':
                pa.service.start_session('svc', 7, REMOTE_ADDR='1.2.3.4')
            elif act == 'no set':
                pa.start(None)
            elif act in ('format', 'no format', 'version', 'twice'):
                pa.start([(C['good'], {'format': 99, 'no format': None}.get(act, 0), 3 if act == 'version' else 1)] * (2 if act == 'twice' else 1))
            else:
                pa.start([(c, 0, 1) for c in (certs if certs is not None else [C[act]])])
        return True, None
    except Exception as e:
        return False, e


def patterns(acts):
    for n in (1, 2) + ((3,) if THOROUGH else ()):
        yield from product(range(len(acts)), repeat=n)


def gen():
    for p in patterns(AACTS):
        yield ('aa', p)
    for p in patterns(PACTS):
        yield ('pa', p)


def one(ctx, case):
    which, pat = case
    clock.set(ac.NOW)
    gc.disable()
    keep = []
    try:
        s = attributes() if which == 'aa' else policies()
        if which == 'pa':
            BOX['sid'] = s.start([(BOX['certs']['good'], 0, 1)]).session_id
        for a in pat:
            aa_act(s, AACTS[a]) if which == 'aa' else pa_act(s, PACTS[a], 0)
        open_before = len(os.listdir('/proc/self/fd'))
        for r in range(ROUNDS):
            for a in pat:
                act = (AACTS if which == 'aa' else PACTS)[a]
                ok, e = aa_act(s, act) if which == 'aa' else pa_act(s, act, r)
                keep.append(e)
                want = aa_want(act) if which == 'aa' else act in ('good', 'again', 'list', 'info', 'evaluate')
                ctx.step()
                if ok != want and act not in ('address', 'twice', 'no attributes', 'no key'):
                    raise Violation('after some requests the service answers differently', service=which, pattern=[(AACTS if which == 'aa' else PACTS)[x] for x in pat], round=r, request=act,
                                    granted=ok, error=e)
                if not ok and type(e).__name__ in ('TimeoutError', 'OperationalError'):
                    raise Violation('after some requests the service runs out of database connections', service=which, pattern=[(AACTS if which == 'aa' else PACTS)[x] for x in pat],
                                    round=r, request=act, error=e)
        del keep[:]
        e = None
        gc.collect()
        more = len(os.listdir('/proc/self/fd')) - open_before
        if more > ROUNDS // 2:
            raise Violation('requests leave files open', service=which, pattern=[(AACTS if which == 'aa' else PACTS)[x] for x in pat], requests=ROUNDS * len(pat), open_files_more=more)
        if which == 'aa':
            for f in s.files():
                os.unlink(os.path.join(s.dir, f))
        ctx.state(case)
    finally:
        gc.enable()
        if which == 'aa':
            del keep
            gc.collect()


def run(chk):
    chk.bounds = {'pattern_length': 3 if THOROUGH else 2, 'repetitions': ROUNDS, 'attribute_requests': AACTS, 'session_requests': PACTS}
    chk.assumptions = ['sqlite in a file with the default connection pool', 'no cyclic garbage collection between requests, and the caller keeps the errors']
    chk.explore('all repeated patterns of requests', gen, one)
