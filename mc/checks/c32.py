"""C32 the clients: what is sent, what counts as success, which key is kept; all reply sequences up to a length."""
from itertools import product

from mc import ac, keys, svc
from mc.core import Violation, THOROUGH

import ladon.clients.jsonwsp as wire
import Crypto.PublicKey.RSA as RSA

CC = svc.config.CLIENT_CONFIG
FRESH = []
ODD = {n: RSA.import_key(p) for n, p in keys.PEMODD.items()}
KEYS = {1024: ac.KEYS, 2048: [RSA.import_key(p) for p in keys.PEM2048]}


def generate(bits, *a, **kw):
    """stand-in: a key of the pool, never the one handed out last"""
    pool = KEYS[bits]
    k = pool[len(FRESH) % len(pool)]
    FRESH.append((bits, k))
    return k


RSA.generate = generate  # before the clients are imported, in whatever way they name it
import hgaa.clients.aauth as caa  # noqa: E402
import hgaa.clients.pauth as cpa  # noqa: E402


class Reply:
    def __init__(self, status, d):
        self.status, self.response_dict = status, d


RESULT = {'some': 'thing'}
FAULT = {'fault': {'string': 'no', 'detail': ['x']}}
REPLIES = [(200, {'result': RESULT}), (200, dict(FAULT)), (500, {'result': RESULT}), (404, dict(FAULT)), (0, {'result': RESULT}), (201, {'result': RESULT}), (None, {'result': RESULT}),
           (200, {'result': RESULT, 'fault': FAULT['fault']}), (400, {}), (200, {'result': None}), ('down', None),
           (200, {'result': RESULT, 'fault': {}}), (200, {'result': RESULT, 'fault': None}), (200, {'result': RESULT, 'fault': ''}), (200, {'result': {}})]


def script(k):
    status, d = REPLIES[k]

    def f(method, kw, url):
        if status == 'down':
            raise OSError('connection refused')
        return Reply(status, d)
    wire.SCRIPT[0] = f


def good(k, strict):
    status, d = REPLIES[k]
    return status == 200 and 'result' in d and not (strict and 'fault' in d)


def conf(**kw):
    old = {}
    for sect in ('AAUTH', 'PAUTH'):
        if not CC.has_section(sect):
            CC.add_section(sect)
    base = {'AAUTH': dict(CLIENT_TYPE='JSONWSP', SERVICE_DESCRIPTION='http://aa/d', KEY_SIZE='1024', CRED_TYPE='0', CRED_USER='u', CRED_PASS='p'),
            'PAUTH': dict(CLIENT_TYPE='JSONWSP', SERVICE_DESCRIPTION='http://pa/d')}
    for sect, d in base.items():
        for k, v in d.items():
            CC[sect][k] = kw.get(sect + '_' + k, v)
    return old


def attempt(fn):
    del wire.CALLS[:]
    try:
        return 'ok', fn()
    except Exception as e:
        return 'err', e


# -- attribute authority client --------------------------------------------------------------------------------------------------
ACTS = ['info', 'request', 'request key1', 'request key2', 'move']


def aa_gen():
    n = 3 if THOROUGH else 2
    for k in range(1, n + 1):
        for h in product(product(range(len(ACTS)), range(len(REPLIES))), repeat=k):
            if all(ACTS[a] != 'move' or r == 0 for a, r in h) and (k < 3 or all(r in (0, 1, 2, 10) for _, r in h)):
                yield h


def aa_one(ctx, h):
    conf()
    del FRESH[:]
    cli = caa.AttributeAuthorityClient()
    url, last = 'http://aa/d', None
    hist = [(ACTS[a], REPLIES[r][0]) for a, r in h]
    for a, r in h:
        act = ACTS[a]
        script(r)
        ctx.step()
        if act == 'move':
            url = url + 'x'
            cli.update_service(url=url)
            continue
        if act == 'info':
            kind, val = attempt(cli.info)
            check_call('info', url, {}, hist)
            ok = good(r, False) and not (REPLIES[r][1] or {}).get('fault')
            if REPLIES[r][0] == 200 and 'result' in REPLIES[r][1] and 'fault' in REPLIES[r][1]:
                continue
        else:
            key = {'request': None, 'request key1': ac.KEYS[1], 'request key2': ac.KEYS[2]}[act]
            n = len(FRESH)
            kind, val = attempt(lambda: cli.attribute_request(['n'], ['i'], key))
            ok = good(r, True)
            if key is None:
                if len(FRESH) != n + 1 or FRESH[-1][0] != 1024:
                    raise Violation('no fresh key of the configured size was made', history=hist, made=[x[0] for x in FRESH[n:]])
                key = FRESH[-1][1]
            elif len(FRESH) != n:
                raise Violation('a fresh key was made though one was given', history=hist)
            sent = {'credentials': {'type': '0', 'username': 'u', 'password': 'p'},
                    'user_public_key': {'public_key': key.publickey().export_key().decode(), 'key_algorithm': {'cipher': 'RSA', 'key_size': 1024}},
                    'attributes': {'attribute_names': ['n'], 'attribute_ids': ['i']}}
            check_call('attribute_request', url, sent, hist)
            if ok:
                last = key
            if cli.last_key != last:
                raise Violation('the key that was kept is not the key of the last certificate', history=hist, kept=cli.last_key and ac.KEYS.index(cli.last_key),
                                expected=last and ac.KEYS.index(last))
        outcome(kind, val, ok, r, hist)
        ctx.state((act, r, url, last and ac.KEYS.index(last)))


def check_call(method, url, sent, hist):
    if wire.CALLS != [(url, method, sent)]:
        raise Violation('the request sent is not the one asked for', sent=wire.CALLS, expected=(url, method, sent), history=hist)
    for c in wire.CALLS:
        if 'PRIVATE' in str(c):
            raise Violation('a private key was sent', history=hist)


def outcome(kind, val, ok, r, hist):
    if (kind == 'ok') != ok:
        raise Violation('a bad reply was taken for a result' if kind == 'ok' else 'a good reply was refused', reply=REPLIES[r], got=val, history=hist)
    if ok and val != REPLIES[r][1]['result']:
        raise Violation('another result than the one of the reply', got=val, history=hist)


# -- arguments -------------------------------------------------------------------------------------------------------------------
LISTS = [None, [], ['a'], ['a', 'B '], ['*']]
CREDS = [None, {'type': 0, 'username': 'x', 'password': 'y'}, {}]


def arg_gen():
    for names, ids, cred, key, size in product(LISTS, LISTS, range(len(CREDS)), (None, 0, 3), ('1024', '2048')):
        yield (names, ids, cred, key, size)
    for n in sorted(ODD):
        for size in ('1024', '2048'):
            yield (None, None, 0, n, size)


def arg_one(ctx, case):
    names, ids, cred, key, size = case
    conf(AAUTH_KEY_SIZE=size, AAUTH_CRED_USER='Dan', AAUTH_CRED_PASS='pä')
    del FRESH[:]
    cli = caa.AttributeAuthorityClient(CREDS[cred]) if CREDS[cred] is not None else caa.AttributeAuthorityClient()
    k = ODD[key] if key in ODD else ac.KEYS[key] if key is not None else None
    script(0)
    kw = {}
    if names is not None:
        kw['attribute_names'] = list(names)
    if ids is not None:
        kw['attribute_ids'] = list(ids)
    if k is not None:
        kw['key'] = k
    ctx.step()
    kind, val = attempt(lambda: cli.attribute_request(**kw))
    if k is None:
        if [x[0] for x in FRESH] != [int(size)]:
            raise Violation('no fresh key of the configured size was made', made=[x[0] for x in FRESH], configured=size)
        used, bits = FRESH[0][1], int(size)
    else:
        used, bits = k, key if key in ODD else 1024
    sent = {'credentials': CREDS[cred] if CREDS[cred] is not None else {'type': '0', 'username': 'Dan', 'password': 'pä'},
            'user_public_key': {'public_key': used.publickey().export_key().decode(), 'key_algorithm': {'cipher': 'RSA', 'key_size': bits}},
            'attributes': {'attribute_names': names, 'attribute_ids': ids}}
    check_call('attribute_request', 'http://aa/d', sent, None)
    outcome(kind, val, True, 0, None)
    if cli.last_key != used:
        raise Violation('the key that was kept is not the one that was sent')
    ctx.state(str(case))


GIVEN = [None, ('k', 1), ('k', 2)] + [('odd', n) for n in sorted(ODD)]


def kept_gen():
    for n in (1, 2, 3):
        for h in product(range(len(GIVEN)), repeat=n):
            for r in ((0,) * n, (0,) * (n - 1) + (1,), (2,) + (0,) * (n - 1)):
                yield (h, r)


def kept_one(ctx, case):
    """keys of all sizes in turn: the one of the last success is kept, with its private part"""
    h, r = case
    conf()
    cli = caa.AttributeAuthorityClient()
    last = None
    for i, (g, k) in enumerate(zip(h, r)):
        key = None if GIVEN[g] is None else ac.KEYS[GIVEN[g][1]] if GIVEN[g][0] == 'k' else ODD[GIVEN[g][1]]
        script(k)
        ctx.step()
        kind, _ = attempt(lambda: cli.attribute_request(['a'], None, key))
        if k == 0:
            last = key if key is not None else FRESH[-1][1]
        if (kind == 'ok') != (k == 0) or cli.last_key != last or (last is not None and cli.last_key.export_key() != last.export_key()):
            raise Violation('the key that was kept is not the key of the last certificate', given=[GIVEN[x] for x in h], replies=[REPLIES[x][0] for x in r], step=i)
    ctx.state(case)


# -- policy authority client and where requests go ----------------------------------------------------------------------------------
PACTS = ['info', 'trusted_attribute_authorities', 'start', 'move u1', 'move u2', 'move', 'nowhere', 'type SOAP', 'type JSONWSP', 'u3 SOAP']


def pa_gen():
    n = 4 if THOROUGH else 3
    for which in ('PA', 'AA'):
        for k in range(1, n + 1):
            for h in product(range(len(PACTS)), repeat=k):
                if which == 'AA' and any(PACTS[a] in ('trusted_attribute_authorities', 'start') for a in h):
                    continue
                for r in (range(len(REPLIES)) if k == 1 else (0, 2)):
                    yield (which, h, r)


def pa_one(ctx, case):
    which, h, r = case
    conf()
    cli = cpa.PolicyAuthorityClient('svc-é') if which == 'PA' else caa.AttributeAuthorityClient()
    url = 'http://pa/d' if which == 'PA' else 'http://aa/d'
    typ, active = 'JSONWSP', url
    hist = [PACTS[a] for a in h]
    script(r)
    for a in h:
        act = PACTS[a].split()
        ctx.step()
        if act[0] in ('move', 'type', 'u3', 'nowhere'):
            kw = {}
            if act[0] == 'nowhere':
                kw['url'] = url = ''
            if act[0] == 'move' and len(act) > 1:
                kw['url'] = url = act[1]
            elif act[0] == 'type':
                kw['client_type'] = typ = act[1]
            elif act[0] == 'u3':
                kw = {'url': 'u3', 'client_type': 'SOAP'}
                url, typ = 'u3', 'SOAP'
            kind, val = attempt(lambda: cli.update_service(**kw))
            if (kind == 'ok') != (typ == 'JSONWSP'):
                raise Violation('an unsupported kind of client was accepted' if kind == 'ok' else 'the service could not be changed', history=hist, error=val)
            if typ == 'JSONWSP':
                active = url
        elif act[0] == 'start':
            certs = [{'data': 'x', 'format': 0, 'version': 1}]
            kind, val = attempt(lambda: cli.start_session(certs))
            check_call('start_session', active, {'service_uid': 'svc-é', 'att_cert_set': {'attribute_certificates': certs}}, hist)
            if kind == 'ok' and REPLIES[r][0] == 'down':
                raise Violation('an unreachable service gave a session', history=hist)
            if kind == 'ok' and (not isinstance(val, Reply) or (val.status, val.response_dict) != REPLIES[r]):
                raise Violation('another reply than the one of the service', history=hist, got=val)
        else:
            kind, val = attempt(getattr(cli, act[0]))
            check_call(act[0], active, {}, hist)
            if not (REPLIES[r][0] == 200 and 'fault' in REPLIES[r][1] and 'result' in REPLIES[r][1]):
                outcome(kind, val, good(r, True), r, hist)
        ctx.state((which, url, typ, active, PACTS[a], r))


UIDS = ['s', 'svc-é', 'hgabac://x:1/', '/', '//a//', ' s ', 'S', '', 's?a=b#c', 's/../t', 'a' * 300, '"x"', '%s', 'None', '0']


def uid_one(ctx, uid):
    """the service names itself as it was told to, to every authority it talks to, and hands on the certificates as they are"""
    conf()
    for certs in ([], [{'data': 'x', 'format': 0, 'version': 1}], [{'data': uid, 'format': 1, 'version': 2}] * 3, [{'data': str(i), 'format': 0, 'version': 1} for i in range(120)]):
        cli = cpa.PolicyAuthorityClient(uid)
        script(0)
        for url in ('http://pa/d', 'http://two/', 'http://two'):
            if url != 'http://pa/d':
                cli.update_service(url=url)
            ctx.step()
            own = [dict(c) for c in certs]
            own = own if url == 'http://two/' else [own[certs.index(c)] for c in certs]          # also one object several times
            kind, val = attempt(lambda: cli.start_session(own))
            check_call('start_session', url, {'service_uid': uid, 'att_cert_set': {'attribute_certificates': certs}}, [uid, url])
            if kind != 'ok':
                raise Violation('a good reply was refused', uid=uid, error=val)
    ctx.state(uid)


def status_gen():
    for st in list(range(100, 600)) + [200.5, -200, 2000, '200', '200 OK', '', False, True]:
        for d in ({'result': RESULT}, dict(FAULT), {'result': RESULT, 'fault': FAULT['fault']}):
            yield (st, d)


def status_one(ctx, case):
    """every status of a reply, for every request of both clients"""
    st, d = case
    wire.SCRIPT[0] = lambda method, kw, url: Reply(st, d)
    conf()
    a = caa.AttributeAuthorityClient()
    for what, call in (('info', a.info), ('request', lambda: a.attribute_request(['a'], None, ac.KEYS[1]))):
        if what == 'info' and len(d) == 2 and st == 200:
            continue        # both a result and a fault: not said which
        ctx.step()
        kind, val = attempt(call)
        want = st == 200 and not isinstance(st, str) and 'fault' not in d
        if (kind == 'ok') != want or (want and val != RESULT):
            raise Violation('a client reported success' if not want else 'a client did not return the result', status=st, reply=d, call=what, got=val)
    ctx.state((st, len(d), 'fault' in d))


def types(ctx):
    for t in ('SOAP', '', 'jsonwsp', 'XMLRPC'):
        conf(AAUTH_CLIENT_TYPE=t, PAUTH_CLIENT_TYPE=t)
        for mk in (caa.AttributeAuthorityClient, lambda: cpa.PolicyAuthorityClient('s')):
            ctx.step()
            if attempt(mk)[0] == 'ok':
                raise Violation('an unsupported kind of client was made', type=t)
    ctx.traces += 8


def run(chk):
    chk.bounds = {'calls': 3 if THOROUGH else 2, 'replies': len(REPLIES), 'service_changes': 4 if THOROUGH else 3}
    chk.assumptions = ['the JSON web service transport is replaced by a scripted one', 'key generation is replaced by a pool of keys']
    chk.explore('all sequences of calls and replies', aa_gen, aa_one)
    chk.explore('all arguments', arg_gen, arg_one)
    chk.explore('all sequences of keys', kept_gen, kept_one)
    chk.explore('all sequences of service changes', pa_gen, pa_one)
    chk.explore('every status', status_gen, status_one)
    chk.explore('names of services', lambda: iter(UIDS), uid_one)
    chk.one('kinds of clients', types)
