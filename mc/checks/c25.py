"""C25 what an issued certificate binds: holder key, issuer, validity, connection; all configurations, times, addresses, keys."""
import base64
import datetime
import ipaddress
import os
import time
from itertools import product

from mc import ac, clock, svc
from mc.core import Violation

AA = []
WEEK = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTH = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
CONF = dict(AAUTH_ID='aa-name', A_URI='hgabac://aa', REV_URL='', KEY=0, AC_EXPIRE_LENGTH='3600', SERVICE_HOST='aa.example', SERVICE_PORT='8888')


def setup(conf):
    c = dict(CONF)
    c.update(conf)
    svc.configure('AAUTH', AAUTH_ID=c['AAUTH_ID'], A_URI=c['A_URI'], REV_URL=c['REV_URL'], KEY_FILE=svc.KEYFILES[c['KEY']], AC_EXPIRE_LENGTH=c['AC_EXPIRE_LENGTH'])
    svc.configure('LADON', SERVICE_HOST=c['SERVICE_HOST'], SERVICE_PORT=c['SERVICE_PORT'])
    if not AA:
        AA.append(svc.Attributes())
        AA[0].add(svc.sa.User(id=1, username='dan', password=svc.pw('a')), svc.sa.User(id=2, username='jess', password=svc.pw('b')),
                  svc.sa.Attribute(id='r', name='role', type=ac.AT.STRING), svc.sa.AttributeAssignment(user_id=1, att_id='r', value='v'))
        AA[0].conf = None
    aa = AA[0]
    if aa.conf != c:
        aa.service = svc.saa.AttributeAuthority()
        aa.conf = c
    for f in aa.files():
        os.unlink(os.path.join(aa.dir, f))
    return aa, c


def octets(addr):
    if ':' not in addr:
        return [('remote_addr_v4_oct%d' % i, 'INT', str(int(o))) for i, o in enumerate(addr.split('.'))]
    n = int(ipaddress.IPv6Address(addr.split('%')[0]))
    return [('remote_addr_v6_hex%d' % i, 'INT', str(n >> (112 - 16 * i) & 0xffff)) for i in range(8)]


def connection(c, key, cipher, size, addr, exports, t, serial, ctype):
    """what the certificate has to say about the connection"""
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))
    url = base_url(c)
    out = [('remote_addr', 'STRING', addr)] + [(k.lower(), 'STRING', v) for k, v in exports.items() if k in ('REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER')]
    out += [('ip_v4', 'BOOL', str(':' not in addr)), ('ip_v6', 'BOOL', str(':' in addr))] + octets(addr)
    out += [('auth_method', 'INT', str(ctype)), ('pub_key', 'STRING', base64.b64encode(key).decode()), ('pub_key_size', 'INT', str(size)), ('pub_key_algo', 'STRING', cipher)]
    out += [('con_time', 'INT', str(int(t))), ('con_time_weekdayname', 'STRING', WEEK[d.weekday()]), ('con_time_monthname', 'STRING', MONTH[d.month - 1]),
            ('con_time_month', 'INT', str(d.month)), ('con_time_day', 'INT', str(d.day)), ('con_time_weekday', 'INT', str(d.weekday())),
            ('con_time_year', 'INT', str(d.year)), ('con_time_yearday', 'INT', str((d - datetime.datetime(d.year, 1, 1)).days + 1)),
            ('con_time_hour', 'INT', str(d.hour)), ('con_time_min', 'INT', str(d.minute)), ('con_time_sec', 'INT', str(d.second)), ('con_time_zone', 'STRING', 'GMT'),
            ('con_time_dst', 'BOOL', 'False')]
    pem = svc.PEMPUB[c['KEY']]
    out += [('aauth_uid', 'STRING', c['A_URI']), ('aauth_name', 'STRING', c['AAUTH_ID']), ('aauth_url', 'STRING', url + '/AttributeAuthority/jsonwsp/'),
            ('aauth_pub_key', 'STRING', base64.b64encode(pem).decode()), ('aauth_pub_key_size', 'INT', '1024'), ('aauth_pub_key_algo', 'STRING', 'RSA'),
            ('aauth_version', 'INT', '1'), ('ac_version', 'INT', '1'), ('session_id', 'INT', str(serial)), ('session_length', 'INT', str(int(c['AC_EXPIRE_LENGTH'])))]
    return sorted((i, i, ty, v) for i, ty, v in out)


def base_url(c):
    return 'http://' + (c['SERVICE_HOST'] if c['SERVICE_HOST'].strip() else 'localhost') + ':' + c['SERVICE_PORT']


SERIALS = set()


def one(ctx, case):
    conf, t, addr, exports, key, cipher, size, user, zone = case
    os.environ['TZ'] = zone
    time.tzset()
    aa, c = setup(conf)
    clock.set(t)
    name, password = user
    ctx.step()
    before = aa.files()
    cert, raw, reply = aa.request(name, password, key=key, cipher=cipher, size=size, addr=addr, **exports)
    after = aa.files()

    def bad(what, got, want):
        if got != want:
            raise Violation(what, got=got, expected=want, config=c, time=t, user=name)
    bad('the holder is bound to another public key', bytes(cert.holder.pub_key), key)
    bad('the holder is another user', (cert.holder.uid, cert.holder.name), ('%s/user/%s' % (c['A_URI'], name), name))
    bad('the holder key has another algorithm', cert.holder.key_algo, '%s[%d]' % (cipher, size))
    i = cert.issuer
    bad('the issuer is not this authority', (bytes(i.pub_key), i.key_algo, i.uid, i.name, i.url),
        (svc.PEMPUB[c['KEY']], 'RSA[1024]', c['A_URI'], c['AAUTH_ID'], base_url(c) + '/AttributeAuthority/jsonwsp/'))
    bad('the certificate was not issued now', cert.info.issued, int(t))
    bad('the certificate has another version', (cert.info.version, reply.version, reply.format), (1, 1, 0))
    bad('the validity is not the configured one', (cert.rev_rules.valid_after, cert.rev_rules.valid_before), (int(t), int(t) + int(c['AC_EXPIRE_LENGTH'])))
    bad('the revocation url is not the configured one', cert.rev_rules.url,
        c['REV_URL'] if c['REV_URL'].strip() else base_url(c) + '/AttributeAuthority/jsonwsp/revocation_list')
    got = sorted((i, n, ty, v or '') for i, n, ty, v in svc.conn_atts(cert))
    want = connection(c, key, cipher, size, addr, exports, t, cert.info.serial, 0)
    bad('the certificate says something else about the connection', [x for x in got if x not in want or got.count(x) > 1], [x for x in want if x not in got])
    new = [f for f in after if f not in before]
    if len(new) != 1 or open(os.path.join(aa.dir, new[0]), 'rb').read() != raw:
        raise Violation('the returned certificate is not the one that was stored', new_files=new)
    if cert.info.serial in SERIALS or not 0 <= cert.info.serial < 2 ** 160:
        raise Violation('serial is not unique', serial=cert.info.serial)
    SERIALS.add(cert.info.serial)
    if not cert.verify_signature():
        raise Violation('the certificate does not verify')
    other = ac.KEYS[(c['KEY'] + 1) % len(ac.KEYS)]
    import copy
    swapped = copy.deepcopy(cert)
    swapped.issuer.pub_key = other.publickey().export_key()
    try:
        if swapped.verify_signature():
            raise Violation('the certificate verifies with a key that is not the authority\'s')
    except Violation:
        raise
    except Exception:
        pass
    ctx.state((str(sorted(conf.items())), t, addr, str(exports), bytes(key), cipher, size, name, zone))


USER = ('dan', 'a')
DEF = [{}, ac.NOW, '10.1.2.3', {}, b'user-key', 'RSA', 1024, USER, 'UTC']


def case(**kw):
    names = ['conf', 't', 'addr', 'exports', 'key', 'cipher', 'size', 'user', 'zone']
    return tuple(kw.get(n, d) for n, d in zip(names, DEF))


def confs():
    for k in range(3):
        for exp in ('1', '0', '3600', '86400', '604801'):
            for rev in ('', '  ', 'http://rev/x?a=%20', 'https://é'):
                yield dict(KEY=k, AC_EXPIRE_LENGTH=exp, REV_URL=rev)
    for exp in ('2', '59', '60', '3599', '65535', '65536', '2592000', '31535999', '31536000', '31536001', '31622401', '315360000', '+5', ' 7 ', '0010'):
        yield dict(AC_EXPIRE_LENGTH=exp)
    for port in ('80', '443', '0', '8080', '65535', '080'):
        for host in ('', 'h', 'localhost', '0.0.0.0', '127.0.0.1', '::1', '::', 'H.Example', 'www.example'):
            yield dict(SERVICE_PORT=port, SERVICE_HOST=host)
    for uri in ('hgabac://aa/', 'hgabac://aa//', '/', 'aa', 'http://aa', 'HGABAC://AA', 'hgabac://aa?x', 'hgabac://aa#x', 'hgabac://aa/user', 'a b', 'hgabac://aa%20', 'urn:'):
        yield dict(A_URI=uri)
    for rev in ('http://rev/', 'rev', '/rev', 'http://rev:80', 'HTTP://REV', ' http://rev ', '-', 'none', 'None', 'null'):
        yield dict(REV_URL=rev)
    for aid in ('a', 'A', ' a', 'a/b', 'x' * 1000, '日本', 'None', '0'):
        yield dict(AAUTH_ID=aid)
    for host, port, uri, aid in product(('', ' ', 'h', '::1', 'a.b-c'), ('8888', '1'), ('hgabac://aa', 'urn:é', 'x' * 300), ('n', 'Name é', 'w' * 256)):
        yield dict(SERVICE_HOST=host, SERVICE_PORT=port, A_URI=uri, AAUTH_ID=aid)


def times():
    base = datetime.datetime(1970, 1, 1)
    for y in (1970, 1999, 2000, 2016, 2023, 2024, 2037, 2100):
        for m in range(1, 13):
            for d in (1, 15, 28 if m == 2 else 30):
                for h, mi, s in ((0, 0, 0), (13, 59, 59), (23, 59, 59)):
                    yield int((datetime.datetime(y, m, d, h, mi, s) - base).total_seconds())
            if m in (1, 3, 5, 7, 8, 10, 12):
                yield int((datetime.datetime(y, m, 31, 23, 59, 59) - base).total_seconds())
        if y % 4 == 0 and y != 2100:
            yield int((datetime.datetime(y, 2, 29, 12, 30, 5) - base).total_seconds())
    yield from (ac.NOW + 0.25, ac.NOW + 0.999, 1.5)


ADDRS = ['0.0.0.0', '255.255.255.255', '1.2.3.4', '192.168.0.10', '127.0.0.1', '::', '::1', '1::', 'fe80::1', '2001:db8::ff00:42:8329', '2001:0db8:0000:0000:0000:ff00:0042:8329',
         '1:2:3:4:5:6:7:8', 'FFFF:ffff:ABCD::', '::ffff:192.168.1.2', '::1.2.3.4', '64:ff9b::1.2.3.4', 'fe80::1%eth0', 'fe80::1%2']


def gen():
    for c in confs():
        yield case(conf=c)
    for t in times():
        for z in ('UTC', 'XYZ-5:30', 'ABC+11', 'EST5EDT,M3.2.0,M11.1.0'):
            yield case(t=t, zone=z)
    vals = [{}, {'REMOTE_HOST': 'h'}, {'REMOTE_HOST': ''}, {'REMOTE_IDENT': 'id', 'REMOTE_USER': 'é'}, {'REMOTE_HOST': 'h', 'REMOTE_IDENT': 'i', 'REMOTE_USER': 'u', 'HTTP_COOKIE': 'z'},
            {'SERVER_NAME': 'x'}]
    names = ['HTTP_X_FORWARDED_FOR', 'HTTP_CLIENT_IP', 'HTTP_X_REAL_IP', 'HTTP_X_REMOTE_USER', 'HTTP_X_CLUSTER_CLIENT_IP', 'HTTP_FORWARDED', 'HTTP_VIA', 'HTTP_HOST', 'HTTP_X_FORWARDED_HOST', 'HTTP_X_FORWARDED_PROTO',
             'HTTP_USER_AGENT', 'HTTP_REFERER', 'HTTP_AUTHORIZATION', 'HTTP_ORIGIN', 'HTTP_DATE', 'HTTP_FROM', 'HTTP_X_FORWARDED_USER', 'HTTP_REMOTE_ADDR', 'HTTP_REMOTE_USER', 'SERVER_PORT', 'SERVER_ADDR', 'AUTH_TYPE',
             'AUTH_USER', 'LOGON_USER', 'REMOTE_PORT', 'REMOTE_REALM', 'SSL_CLIENT_S_DN', 'SSL_CLIENT_CERT', 'HTTPS', 'REQUEST_METHOD', 'PATH_INFO', 'QUERY_STRING', 'SCRIPT_NAME', 'DEBUG', 'USER', 'TZ', 'remote_addr',
             'remote_user']
    for n in names:
        for v in ('9.9.9.9', '2001::9', 'root', '', '1', 'https', 'Mon, 01 Jan 2001 00:00:00 GMT'):
            vals_n = {n: v}
            yield case(exports=vals_n)
        yield case(exports={n: '9.9.9.9', 'REMOTE_USER': 'u'}, addr='::1')
    yield case(exports={n: '9.9.9.9' for n in names})
    for v in ('x', 'X Y', ' x ', 'x' * 300, 'é\n', '10.0.0.1', 'None', '-', 'unknown'):
        yield case(exports={'REMOTE_HOST': v, 'REMOTE_IDENT': v + '2', 'REMOTE_USER': v + '3'})
    for a in ADDRS:
        for e in vals:
            yield case(addr=a, exports=e)
            yield case(addr=a, exports=e, user=('jess', 'b'))
    for n in (100, 1000, 5000, 20000):
        yield case(key=bytes(i * 7 % 256 for i in range(n)))
        yield case(exports={'REMOTE_HOST': 'h' * n, 'REMOTE_USER': 'ü%' * n})
        yield case(conf=dict(A_URI='u' * n, AAUTH_ID='n' * n, REV_URL='r' * n))
    for k in ac.BYT + svc.PEMPUB + ac.PUB:
        for cipher in ('RSA', 'EC', 'é', ''):
            for size in (1024, 0, 65536):
                yield case(key=k, cipher=cipher, size=size)
    for u in (('dan', 'a'), ('jess', 'b')):
        for k in range(3):
            for t in (1, ac.NOW, 2 ** 31 - 5000, 2 ** 31 + 5):
                yield case(user=u, conf=dict(KEY=k), t=t)


CLASH = []


def clash_gen():
    for how in ('id', 'name', 'both', 'upper', 'space'):
        for names in ([], ['remote_addr'], ['ip_v4', 'con_time', 'role']):
            for addr in ('10.1.2.3', '::1'):
                yield (how, names, addr)


def clash_one(ctx, spec):
    """a user whose own attributes have the ids or names of connection attributes: the true connection is stated all the same"""
    how, names, addr = spec
    S = svc.sa
    setup({})
    aa = svc.Attributes()
    AA.clear()                     # the next one makes its own again
    aa.add(S.User(id=1, username='dan', password=svc.pw('a')), S.Attribute(id='r', name='role', type=ac.AT.STRING), S.AttributeAssignment(user_id=1, att_id='r', value='v'))
    want = connection(CONF, b'user-key', 'RSA', 1024, addr, {}, ac.NOW, 0, 0)
    for i, (n, _, _, v) in enumerate(want):
        aid = {'name': '/attribute/user/%s' % n, 'upper': '/ATTRIBUTE/CONNECTION/%s' % n.upper(), 'space': ' %s%s' % (svc.CONN, n)}.get(how, svc.CONN + n)
        name = {'id': 'n%d' % i, 'upper': n.upper(), 'space': n + ' '}.get(how, n)
        aa.add(S.Attribute(id=aid, name=name, type=ac.AT.STRING), S.AttributeAssignment(user_id=1, att_id=aid, value='false'))
    clock.set(ac.NOW)
    ctx.step()
    if how == 'id':
        names = [x for x in names if x == 'role']
    cert, _, _ = aa.request('dan', 'a', names=names, key=b'user-key', addr=addr)
    got = [(i, n, ty, v or '') for i, n, ty, v in svc.conn_atts(cert)]
    want = connection(CONF, b'user-key', 'RSA', 1024, addr, {}, ac.NOW, cert.info.serial, 0)
    if not set(want) <= set(got):
        raise Violation('attributes of the user hide what the certificate says about the connection', case=spec, missing=sorted(set(want) - set(got)))
    ctx.state((how, tuple(names), addr))


def many(ctx):
    """serials stay distinct whatever the clock does"""
    aa, c = setup({})
    seen = set()
    for t in (ac.NOW, ac.NOW, ac.NOW + 1, ac.NOW):
        clock.set(t)
        for _ in range(60):
            cert, _, _ = aa.request('dan', 'a')
            ctx.step()
            if cert.info.serial in seen:
                raise Violation('two certificates with one serial', serial=cert.info.serial)
            seen.add(cert.info.serial)
    if len(aa.files()) != len(seen):
        raise Violation('stored certificates overwrite each other', files=len(aa.files()), issued=len(seen))
    if max(s.bit_length() for s in seen) <= 100:
        raise Violation('serials are short', longest=max(s.bit_length() for s in seen))
    ctx.traces += 1


# -- a clock that moves, random numbers that nearly repeat ------------------------------------------------------------------------
class Ticking:
    """a clock that moves on by a fixed step at every look"""

    def __init__(self, start, step):
        self.now, self.step, self.looks = start, step, 0

    def __call__(self):
        t = self.now
        self.now += self.step
        self.looks += 1
        return t


def tick_gen():
    base = datetime.datetime(1970, 1, 1)
    for start in (ac.NOW, int((datetime.datetime(2023, 12, 31, 23, 59, 59) - base).total_seconds()), int((datetime.datetime(2024, 2, 28, 23, 59, 58) - base).total_seconds())):
        for frac in (0, 0.3, 0.9):
            for step in (0.05, 0.5, 1, 1.5, 61, 3601, 90000):
                for length in ('1', '3600', '86400'):
                    yield (start + frac, step, length)


def tick_one(ctx, spec):
    """time passes during the request: everything that is said about one moment still fits together"""
    start, step, length = spec
    os.environ['TZ'] = 'UTC'
    time.tzset()
    aa, c = setup(dict(AC_EXPIRE_LENGTH=length))
    tick = Ticking(start, step)
    clock.follow(tick)
    try:
        cert, raw, _ = aa.request('dan', 'a')
    finally:
        clock.follow(None)
        clock.set(ac.NOW)
    end = tick.now
    ctx.step()
    info = dict(start=start, step=step, length=length)
    r = cert.rev_rules
    if not int(start) <= cert.info.issued <= int(end):
        raise Violation('issued outside the request', issued=cert.info.issued, end=end, **info)
    if r.valid_before - r.valid_after != int(length):
        raise Violation('the validity is not as long as configured', got=r.valid_before - r.valid_after, **info)
    if not int(start) <= r.valid_after <= int(end):
        raise Violation('valid from a time outside the request', got=r.valid_after, end=end, **info)
    said = {n: v for n, _, _, v in svc.conn_atts(cert)}
    t = int(said['con_time'])
    if not int(start) <= t <= int(end):
        raise Violation('connected at a time outside the request', got=t, end=end, **info)
    want = {n: v for n, _, _, v in connection(c, b'user-key', 'RSA', 1024, '10.1.2.3', {}, t, cert.info.serial, 0)}
    if said != want:
        raise Violation('the times of the connection do not fit together', got={k: v for k, v in said.items() if want.get(k) != v}, expected={k: v for k, v in want.items() if said.get(k) != v}, **info)
    if not cert.verify_signature():
        raise Violation('the certificate does not verify', **info)
    ctx.state(spec)


def twin_gen():
    top = 2 ** 160 - 1
    bases = [0, 1, top, 2 ** 159, 0x1234567890abcdef1234567890abcdef12345678]
    for b in bases:
        for k in range(160):
            yield (b, b ^ (1 << k))
    for a, b in product((0, 1, 9, 10, 15, 16, 17, 255, 256, 2 ** 64, 2 ** 128, 2 ** 156, 2 ** 160 - 1), repeat=2):
        if a != b:
            yield (a, b)


def twin_one(ctx, spec):
    """two serials, however similar, are two stored certificates (serials are drawn from the source of randomness)"""
    import hgaa.attcert as M
    aa, c = setup({})
    clock.set(ac.NOW)
    if not hasattr(M, 'getrandbits'):
        return
    draw = list(spec)
    old = M.getrandbits
    M.getrandbits = lambda bits: draw.pop(0) if draw else old(bits)
    try:
        got = [aa.request('dan', 'a') for _ in spec]
    finally:
        M.getrandbits = old
    ctx.step(2)
    files = {open(os.path.join(aa.dir, f), 'rb').read() for f in aa.files()}
    if len(aa.files()) != 2 or files != {g[1] for g in got}:
        raise Violation('stored certificates overwrite each other', serials=[g[0].info.serial for g in got], files=aa.files())
    ctx.state(spec)


def run(chk):
    chk.bounds = {'configurations': len(list(confs())), 'times': len(list(times())), 'time_zones': 4, 'addresses': len(ADDRS), 'serials_compared': 240}
    chk.assumptions = ['a clock that runs during a request moves by fixed steps', 'the ladon web framework is replaced by a stub: methods are called with decoded arguments']
    chk.explore('configurations, times, addresses, keys, users', gen, one)
    chk.explore('a running clock', tick_gen, tick_one)
    chk.explore('attributes like those of the connection', clash_gen, clash_one)
    chk.explore('similar serials', twin_gen, twin_one)
    chk.one('serials', many)
