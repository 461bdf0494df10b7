"""C44 clients and services fit together: requests of the client classes are carried to the services and back as the services declare them, for every way through the system."""
import inspect
import io
from itertools import product

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH
from mc.checks import c32

import ladon.clients.jsonwsp as wire
from ladon.exceptions.service import ServiceFault
from ladon.types.attachment import attachment
from ladon.types.ladontype import LadonType

A = ac.A


# -- the carrier: what ladon's JSON-WSP does with the declarations ---------------------------------------------------------------
class Refused(Exception):
    pass


def fields(t):
    out = {}
    for k in reversed(t.__mro__):
        if k not in (object, LadonType):
            out.update({n: v for n, v in vars(k).items() if not n.startswith('_') and not callable(getattr(v, '__func__', None)) and (isinstance(v, (dict, list, type)))})
    return out


def arrive(t, v, path):
    """a plain value as the declared type"""
    if isinstance(t, dict):
        if v is None:
            if t.get('nullable'):
                return None
            raise Refused('%s must not be null' % path)
        return arrive(t['type'], v, path)
    if isinstance(t, list):
        return None if v is None else [arrive(t[0], x, path) for x in v]
    if v is None:
        return None
    if t is attachment:
        return v if isinstance(v, attachment) else attachment(v)
    if isinstance(t, type) and issubclass(t, LadonType):
        f = fields(t)
        if set(v) - set(f):
            raise Refused('%s has no %s' % (path, sorted(set(v) - set(f))))
        o = t()
        for n in f:
            if n not in v:
                if isinstance(f[n], dict) and not f[n].get('nullable'):
                    raise Refused('%s lacks %s' % (path, n))
            setattr(o, n, arrive(f[n], v.get(n), path + '.' + n))
        return o
    if t is bytes:
        return v.encode('utf-8') if isinstance(v, str) else bytes(v)
    return t(v)


def leave(t, v, path):
    """a result of the service as a plain value"""
    if isinstance(t, dict):
        if v is None:
            if t.get('nullable'):
                return None
            raise Violation('a result lacks a field that is never null', field=path)
        return leave(t['type'], v, path)
    if isinstance(t, list):
        if not isinstance(v, (list, tuple)):
            raise Violation('a result is not the declared list', field=path, got=v)
        return [leave(t[0], x, path) for x in v]
    if isinstance(t, type) and issubclass(t, LadonType):
        out = {}
        for n, ft in fields(t).items():
            if n not in vars(v):
                raise Violation('a result lacks a declared field', field=path + '.' + n)
            out[n] = leave(ft, getattr(v, n), path + '.' + n)
        return out
    if t is attachment:
        if not hasattr(v, 'read'):
            raise Violation('a result has no attachment', field=path, got=v)
        return v
    if t is bytes:
        return v if isinstance(v, str) else bytes(v).decode('utf-8')
    if not isinstance(v, t) or isinstance(v, bool):
        raise Violation('a result is not of the declared type', field=path, got=v, expected=t.__name__)
    return v


def carry(service, method, kw, addr='10.0.0.1'):
    """one request; -> response dictionary"""
    fn = getattr(type(service), method, None)
    if fn is None or not hasattr(fn, '_ladon'):
        raise Violation('the service does not offer a method', service=type(service).__name__, method=method)
    types, opts = fn._ladon
    names = [p.name for p in inspect.signature(fn).parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD][1:]
    if len(names) != len(types):
        raise Violation('declared and real parameters differ', method=method, names=names, types=len(types))
    try:
        if set(kw) - set(names) or set(names) - set(kw):
            raise Refused('parameters %s instead of %s' % (sorted(kw), names))
        args = {n: arrive(t, kw[n], n) for n, t in zip(names, types)}
    except Refused as e:
        return {'type': 'jsonwsp/fault', 'fault': {'code': 'client', 'string': str(e), 'detail': []}}
    exports = {'REMOTE_ADDR': addr} if any(p.kind is p.VAR_KEYWORD for p in inspect.signature(fn).parameters.values()) else {}
    try:
        r = getattr(service, method)(*[args[n] for n in names], **exports)
    except ServiceFault as e:
        return {'type': 'jsonwsp/fault', 'fault': {'code': type(e).__name__, 'string': e.faultstring, 'detail': []}}
    return {'type': 'jsonwsp/response', 'result': leave(opts['rtype'], r, method)}


BOX = {}
SERVICE_UID = ' Urn:Service/É #1'


def world():
    """both services with two users and trust between them; clients are connected to them"""
    if not BOX:
        svc.configure('AAUTH', AAUTH_ID='n', A_URI='urn:aa', REV_URL='', KEY_FILE=svc.KEYFILES[0], AC_EXPIRE_LENGTH='3600')
        svc.configure('LADON', SERVICE_HOST='h', SERVICE_PORT='1')
        aa = BOX['aa'] = svc.Attributes()
        pa = BOX['pa'] = svc.Policies(keep=True)
        aa.add(svc.sa.User(id=1, username='dan', password=svc.pw('a')), svc.sa.User(id=2, username='eve', password=svc.pw('b')),
               svc.sa.Attribute(id='/u/role', name='role', type=A.AttributeType.STRING), svc.sa.Attribute(id='/u/age', name='age', type=A.AttributeType.INT))
        aa.add(svc.sa.AttributeAssignment(att_id='/u/role', user_id=1, value='nurse'), svc.sa.AttributeAssignment(att_id='/u/age', user_id=1, value='30'),
               svc.sa.AttributeAssignment(att_id='/u/role', user_id=2, value='doctor'))

        def script(method, kw, url):
            service = BOX['aa'].service if url == 'http://aa/d' else BOX['pa'].service if url == 'http://pa/d' else None
            if service is None:
                raise OSError('no such service')
            return c32.Reply(200, carry(service, method, kw))
        BOX['script'] = script
    wire.SCRIPT[0] = BOX['script']
    clock.set(ac.NOW)
    return BOX['aa'], BOX['pa']


HAS = {'dan': ('a', {'/u/role': ('role', 'STRING', 'nurse'), '/u/age': ('age', 'INT', '30')}), 'eve': ('b', {'/u/role': ('role', 'STRING', 'doctor')})}
CREDS = [('dan', 'a'), ('DAN', 'a'), ('eve', 'b'), ('dan', 'b'), ('eve', ''), ('zoe', 'a'), (None, 'a'), ('dan', None), ('config', None)]
ASKED = [(None, None), ([], []), (['role'], []), (None, ['/u/age']), (['age'], ['/u/role']), (['none'], None), (['*'], []), ([], ['/U/ROLE'])]
TYPES = ['0', 0, 1, '7']


def gen():
    for c, a, k in product(range(len(CREDS)), range(len(ASKED)), range(3)):
        for trust in (1, 0):
            yield (c, a, k, trust, 0, 1)
    for n in sorted(c32.ODD):
        yield (0, 0, n, 1, 0, 1)
        yield (2, 3, n, 0, 0, 1)
    for t in (1, 2, 3):
        for wait in (1, 3599, 3600):
            yield (0, 0, 1, 1, t, wait)
    for wait in (2, 60, 3598, 3599, 3600, 3601, 100000):
        yield (0, 4, 2, 1, 0, wait)


def way(ctx, case):
    """credentials -> certificate -> session -> evaluate request"""
    c, a, k, trust, t, wait = case
    aa, pa = world()
    user, password = CREDS[c]
    names, ids = ASKED[a]
    c32.conf(AAUTH_CRED_TYPE='0', AAUTH_CRED_USER='eve', AAUTH_CRED_PASS='b')
    if user == 'config':
        cli = c32.caa.AttributeAuthorityClient()
        user, password = 'eve', 'b'
    else:
        cli = c32.caa.AttributeAuthorityClient({'type': TYPES[t], 'username': user, 'password': password})
    key = None if k == 0 else c32.ODD[k] if k in c32.ODD else ac.KEYS[k]
    login = user is not None and user.lower() in HAS and HAS[user.lower()][0] == password and int(TYPES[t]) == 0
    have = HAS[user.lower()][1] if login else {}
    by_name = {v[0]: i for i, v in have.items()}
    asked = [by_name.get(n.lower()) for n in names or [] if n not in ('*', '')] + [i.lower() if i.lower() in have else None for i in ids or [] if i not in ('*', '')]
    want = login and None not in asked
    ctx.step()
    try:
        r = cli.attribute_request(names, ids, key)
    except Violation:
        raise
    except Exception as e:
        if want:
            raise Violation('a request that is allowed failed on the way', case=case, error=e)
        ctx.state(case)
        return
    if not want:
        raise Violation('a request that is not allowed succeeded', case=case, got=sorted(r))
    raw = r['data'].read()
    r['data'].close()
    cert = A.AttributeCertificate.import_ac(raw, A.ExportFormat(r['format']), True)
    if cert.info.version != r['version']:
        raise Violation('the reply names another version than the certificate has', got=r['version'], expected=cert.info.version)
    if cli.last_key is None or bytes(cert.holder.pub_key) != cli.last_key.publickey().export_key() or (key is not None and cli.last_key is not key):
        raise Violation('the certificate is not for the key of the client', case=case)
    if cert.holder.key_algo != 'RSA[%d]' % cli.last_key.size_in_bits():
        raise Violation('the certificate names another key algorithm than the client has', case=case, got=cert.holder.key_algo)
    expect = sorted((i,) + have[i] for i in (set(asked) or set(have)))
    if svc.user_atts(cert) != expect:
        raise Violation('the client got other attributes', case=case, got=svc.user_atts(cert), expected=expect)
    info = cli.info()
    s = pa.session()
    s.query(svc.sp.AttributeAuthority).delete()
    s.commit()
    s.close()
    pa.authority(info['attribute_uri'], trust=trust, pem=info['public_key'])
    pcli = c32.cpa.PolicyAuthorityClient(SERVICE_UID)
    listed = pcli.trusted_attribute_authorities()['attribute_authorities']
    if [(x['uid'], x['public_key'], x['trust_level'], x['key_algorithm']['key_size']) for x in listed] != [(info['attribute_uri'], info['public_key'], trust, 1024)]:
        raise Violation('the client is shown other authorities', got=listed)
    if pcli.info()['uid'] != 'hgabac://pa':
        raise Violation('the client is shown another policy authority', got=pcli.info())
    clock.set(ac.NOW + wait)
    ctx.step(4)
    resp = pcli.start_session([{'data': io.BytesIO(raw), 'version': r['version'], 'format': r['format']}])
    ok = trust > 0 and 0 < wait < 3600
    if ('result' in resp.response_dict) != ok:
        raise Violation('starting a session with a fresh certificate', case=case, expected=ok, got=resp.response_dict)
    if ok:
        sess = resp.response_dict['result']
        if (sess['start'], sess['valid_till']) != (ac.NOW + wait, ac.NOW + 3600):
            raise Violation('the client is told other times of its session', case=case, got=(sess['start'], sess['valid_till']), expected=(ac.NOW + wait, ac.NOW + 3600))
        rows = [x for x in pa.dump()[2] if x[5] == SERVICE_UID and x[0] == svc.serial64(sess['session_id'])]
        if len(rows) != 1:
            raise Violation('the session that the client was told of is not recorded', case=case)
        for text, uid, want_ok in (('user.role = "nurse"', None, True), ('user.role = ', None, False), (None, None, False), (None, 'urn:none', False)):
            try:
                e = carry(pa.service, 'evaluate', {'session_id': sess['session_id'], 'policy_objatt_pair': {'policy': {'policy_uid': uid, 'policy_string': text, 'policy_lang_ver': 1}, 'object_attributes': [
                    {'name': 'x', 'uid': None, 'type': 1, 'value': '1'}]}})
            except Exception as err:
                if isinstance(err, Violation) or not want_ok:
                    raise
                e = {}
                continue      # passing every check ends in an evaluation that is not finished
            if want_ok == ('fault' in e):
                raise Violation('evaluating through the interface', policy=text, uid=uid, got=e)
    ctx.state(case)


# -- the declared interface -------------------------------------------------------------------------------------------------------
S, I, B = 'str', 'int', 'bytes'
KEYALG = {'cipher': S, 'key_size': I}
CERT = {'data': 'attachment', 'version': I, 'format': I}
INTERFACE = {
    'aauth': {
        'info': ({}, {'aauth_id': S, 'attribute_authority_version': I, 'attribute_certificate_version': I, 'attribute_uri': S, 'revocation_url': S, 'public_key': B, 'credential_types': [{'name': S, 'value': I}],
                      'key_algorithm': KEYALG, 'signature_type': {'hash_algorithm': S, 'signature_algorithm': S}}),
        'attribute_request': ({'credentials': {'type': I, 'username': S + '?', 'password': S + '?'}, 'user_public_key': {'public_key': B, 'key_algorithm': KEYALG}, 'attributes': {'attribute_names': [S], 'attribute_ids': [S]}}, CERT),
    },
    'pauth': {
        'simp': ({}, I),
        'trusted_attribute_authorities': ({}, {'attribute_authorities': [{'name': S, 'url': S, 'uid': S, 'public_key': B, 'key_algorithm': KEYALG, 'trust_level': I}]}),
        'info': ({}, {'name': S, 'uid': S, 'version': I, 'attribute_certificate_version': I, 'url': S, 'policy_language_version': I}),
        'start_session': ({'service_uid': S, 'att_cert_set': {'attribute_certificates': [CERT]}}, {'session_id': I, 'valid_till': I, 'start': I}),
        'evaluate': ({'session_id': I, 'policy_objatt_pair': {'policy': {'policy_uid': S + '?', 'policy_string': S + '?', 'policy_lang_ver': I + '?'},
                                                              'object_attributes': [{'name': S + '?', 'uid': S + '?', 'type': I, 'value': S + '?'}]}}, {'result': I}),
    },
}


def plain(t, top=False):
    if isinstance(t, dict):
        inner = plain(t['type'])
        return inner + '?' if t.get('nullable') and isinstance(inner, str) else inner
    if isinstance(t, list):
        return [plain(t[0])]
    if issubclass(t, LadonType):
        return {n: plain(f) for n, f in fields(t).items()}
    return t.__name__


def offered_gen():
    for s in INTERFACE:
        for m in INTERFACE[s]:
            yield (s, m)


def offered(ctx, case):
    """what a service declares to its clients: methods, parameters, fields, types"""
    s, m = case
    import importlib
    import hgaa.services
    cls = getattr(importlib.import_module('hgaa.services.' + s), hgaa.services.ServiceList[s])
    fn = getattr(cls, m, None)
    ctx.step()
    if fn is None or not hasattr(fn, '_ladon'):
        raise Violation('the service does not offer a method', service=s, method=m)
    types, opts = fn._ladon
    names = [p.name for p in inspect.signature(fn).parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD][1:]
    got = ({n: plain(t) for n, t in zip(names, types)}, plain(opts['rtype']))
    if len(names) != len(types) or got != INTERFACE[s][m]:
        raise Violation('a method is declared differently', service=s, method=m, got=got, expected=INTERFACE[s][m])
    extra = sorted(n for n, f in inspect.getmembers(cls) if hasattr(f, '_ladon') and n not in INTERFACE[s] and not n.startswith('_'))
    if extra:
        raise Violation('the service offers a request that is not documented', methods=extra)
    for n in vars(cls):
        if n.startswith('_') and hasattr(getattr(cls, n), '_ladon'):
            raise Violation('the service offers a private method', method=n)
    ctx.state(case)


# -- requests that are not as declared --------------------------------------------------------------------------------------------
def batch_gen():
    for n in range(0, 6 if THOROUGH else 5):
        for p in product('ab', repeat=n):
            yield ''.join(p)


def batch(ctx, order):
    """several users of one client machine by turns: everyone gets what is theirs"""
    aa, pa = world()
    c32.conf()
    clis = {'a': c32.caa.AttributeAuthorityClient({'type': 0, 'username': 'dan', 'password': 'a'}), 'b': c32.caa.AttributeAuthorityClient({'type': 0, 'username': 'eve', 'password': 'b'})}
    got = []
    for x in order:
        ctx.step()
        r = clis[x].attribute_request()
        raw = r['data'].read()
        r['data'].close()
        cert = A.AttributeCertificate.import_ac(raw, A.ExportFormat(r['format']), True)
        if cert.holder.name != {'a': 'dan', 'b': 'eve'}[x] or bytes(cert.holder.pub_key) != clis[x].last_key.publickey().export_key():
            raise Violation('a client got the certificate of another request', order=order, holder=cert.holder.name)
        got.append((raw, r))
    s = pa.session()
    for t in (svc.sp.AttributeCertificateAssignment, svc.sp.Session, svc.sp.AttributeCertificate, svc.sp.AttributeAuthority):
        s.query(t).delete()
    s.commit()
    s.close()
    pa.authority('urn:aa')
    clock.set(ac.NOW + 5)
    pcli = c32.cpa.PolicyAuthorityClient('urn:s')
    resp = pcli.start_session([{'data': io.BytesIO(raw), 'version': r['version'], 'format': r['format']} for raw, r in got])
    if ('result' in resp.response_dict) != (len(got) > 0):
        raise Violation('a session of several certificates', order=order, got=resp.response_dict)
    if got and len(pa.dump()[1]) != len(got):
        raise Violation('a session does not hold all certificates', order=order, got=len(pa.dump()[1]), expected=len(got))
    ctx.state(order)


def run(chk):
    chk.bounds = {'ways': len(list(gen())), 'methods': len(list(offered_gen())), 'requests_by_turns': 5 if THOROUGH else 4}
    chk.assumptions = ['ladon is not installed: a carrier that follows the declarations (types, nullable, lists, attachments) stands in for it']
    chk.explore('the declared interface', offered_gen, offered)
    chk.explore('from credentials to a session', gen, way)
    chk.explore('two users by turns', batch_gen, batch)
