"""C33 what the authorities say about themselves and about whom they trust is what is configured and recorded now: all configurations and histories."""
from itertools import product

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH

PA = []


def policies():
    if not PA:
        PA.append(svc.Policies())
    PA[0].wipe()
    clock.set(ac.NOW)
    return PA[0]


def listing(pa):
    r = pa.service.trusted_attribute_authorities(REMOTE_ADDR='1.2.3.4')
    return sorted((a.uid, a.name, a.url, a.public_key if isinstance(a.public_key, str) else bytes(a.public_key).decode(), a.trust_level, a.key_algorithm.cipher, a.key_algorithm.key_size)
                  for a in r.attribute_authorities)


ACTS = ['add a 1', 'add a 0', 'add b 5', 'add b -1', 'add b 1', 'add A 1', 'remove a', 'remove b', 'trust a', 'distrust a', 'rekey a', 'rename b', 'wipe', 'restart']


def gen():
    n = 5 if THOROUGH else 4
    for k in range(0, n + 1):
        for h in product(range(len(ACTS)), repeat=k):
            if k < n or ACTS[h[0]].startswith('add'):
                yield h


def one(ctx, h):
    pa = policies()
    S = svc.sp
    model = {}
    for a in (None,) + h:
        if a is not None:
            w = ACTS[a].split()
            s = pa.session()
            q = s.query(S.AttributeAuthority).filter_by(uid=w[1] if len(w) > 1 else None)
            if w[0] == 'add' and w[1] not in model:
                i = len(w[2])
                s.add(S.AttributeAuthority(uid=w[1], name='n' + w[2], url='http://' + w[2], key_cipher='RSA', key_size=1024 * i, pub_key='key' + w[2], trust_level=int(w[2])))
                model[w[1]] = ['n' + w[2], 'http://' + w[2], 'key' + w[2], int(w[2]), 'RSA', 1024 * i]
            elif w[0] == 'remove':
                q.delete()
                model.pop(w[1], None)
            elif w[0] in ('trust', 'distrust') and w[1] in model:
                model[w[1]][3] = 7 if w[0] == 'trust' else 0
                q.update({'trust_level': model[w[1]][3]})
            elif w[0] == 'rekey' and w[1] in model:
                model[w[1]][2] = 'other key'
                q.update({'pub_key': 'other key'})
            elif w[0] == 'rename' and w[1] in model:
                model[w[1]][0] = 'é'
                q.update({'name': 'é'})
            elif w[0] == 'wipe':
                s.query(S.AttributeAuthority).delete()
                model.clear()
            elif w[0] == 'restart':
                pa.service = svc.spa.PolicyAuthority()
            s.commit()
            s.close()
        ctx.step()
        got = listing(pa)
        want = sorted((u,) + tuple(v) for u, v in model.items())
        if got != want:
            raise Violation('the listed authorities are not the recorded ones', history=[ACTS[i] for i in h], got=got, expected=want)
        ctx.state(str(want))


# -- info -----------------------------------------------------------------------------------------------------------------------
def info_gen():
    for host, port, name, uid, rev, key in product(('', '  ', 'h', 'a.b', '0.0.0.0', '127.0.0.1', '::1', '::', 'localhost', 'H.Example'), ('8888', '1', '80', '443', '0'), ('n', 'é x', ''), ('hgabac://u', 'v', ''), ('', 'http://r'), (0, 1)):
        yield (host, port, name, uid, rev, key)
    for rev in ('ldap://x', 'r', 'HTTPS://R/?a=%s', 'http://r/', 'urn:r', 'x' * 300, '/r', 'é', 'none', '0'):
        for host in ('', 'h'):
            yield (host, '8888', 'n', 'hgabac://u', rev, 0)


def info_one(ctx, case):
    host, port, name, uid, rev, key = case
    svc.configure('LADON', SERVICE_HOST=host, SERVICE_PORT=port)
    svc.configure('AAUTH', AAUTH_ID=name, A_URI=uid, REV_URL=rev, KEY_FILE=svc.KEYFILES[key], DB_TYPE='MEMORY')
    svc.configure('PAUTH', PAUTH_NAME=name + '2', PAUTH_UID=uid + '2', DB_TYPE='MEMORY')
    base = 'http://' + (host if host.strip() else 'localhost') + ':' + port
    ctx.step(2)
    i = svc.saa.AttributeAuthority().info(REMOTE_ADDR='::1')
    got = (i.aauth_id, i.attribute_authority_version, i.attribute_certificate_version, i.attribute_uri, i.revocation_url, bytes(i.public_key) if not isinstance(i.public_key, str) else i.public_key.encode(),
           [(c.name, c.value) for c in i.credential_types], i.key_algorithm.cipher, i.key_algorithm.key_size, i.signature_type.hash_algorithm, i.signature_type.signature_algorithm)
    want = (name, 1, 1, uid, rev or base + '/AttributeAuthority/jsonwsp/revocation_list', svc.PEMPUB[key], [('USER_PASS', 0)], 'RSA', 1024, 'SHA256', 'RSASSA-PKCS1-v1_5')
    if got != want:
        raise Violation('the attribute authority describes itself wrongly', got=got, expected=want)
    p = svc.spa.PolicyAuthority().info(REMOTE_ADDR='::1')
    got = (p.url, p.version, p.uid, p.name, p.attribute_certificate_version, p.policy_language_version)
    want = (base + '/PolicyAuthority/jsonwsp/', 1, uid + '2', name + '2', 1, 1)
    if got != want:
        raise Violation('the policy authority describes itself wrongly', got=got, expected=want)
    ctx.state(case)


def crowd_gen():
    for n in list(range(0, 41)) + [49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 999, 1000, 1001, 1025] + ([2000, 5000] if THOROUGH else []):
        yield n


def crowd_one(ctx, n):
    """many recorded authorities, written at once or one after the other"""
    for way in (0, 1):
        pa = policies()
        rows = [('u%d' % k, 'n%d' % (k % 7), 'http://%d' % (k % 5), 'key %d' % (k % 11), k - 3, 'RSA' if k % 3 else 'EC', 512 * k) for k in range(n)]
        objs = [svc.sp.AttributeAuthority(uid=u, name=m, url=w, pub_key=p, trust_level=t, key_cipher=c, key_size=z) for u, m, w, p, t, c, z in (rows if way else rows[::-1])]
        if way and n <= 40:
            for o in objs:
                pa.add(o)
        else:
            pa.add(*objs)
        for again in range(2):
            ctx.step()
            got = listing(pa)
            if got != sorted(rows):
                raise Violation('the listed authorities are not the recorded ones', recorded=n, missing=[r for r in rows if r not in got][:5], extra=[r for r in got if r not in rows][:5])
    ctx.state(n)


TEXT = ['', ' ', 'a', ' a ', 'A', 'é', 'e\u0301', '日本', '😀', "a'b", 'a"b', 'a\\b', '%', '%s', 'a\nb', 'None', '0', 'x' * 64, 'x' * 255, 'x' * 256, 'x' * 2000, 'http://a/', 'http://a//', 'HTTP://A', '<a>&']
NUMBER = [0, 1, -1, 2, 127, 128, 255, 256, 1024, 2048, 4096, 65535, 65536, 2 ** 31 - 1, -2 ** 31]


def field_gen():
    for i in range(5):
        for t in TEXT:
            yield (i, t)
    for i in (5, 6):
        for t in NUMBER:
            yield (i, t)


def field_one(ctx, case):
    i, v = case
    row = ['u', 'n', 'http://u', 'key', 'RSA', 1, 1024]
    row[i] = v
    u, m, w, p, c, t, z = row
    pa = policies()
    pa.add(svc.sp.AttributeAuthority(uid=u, name=m, url=w, pub_key=p, trust_level=t, key_cipher=c, key_size=z),
           svc.sp.AttributeAuthority(uid='other', name='o', url='o', pub_key='o', trust_level=9, key_cipher='o', key_size=9))
    ctx.step()
    got = listing(pa)
    want = sorted([(u, m, w, p, t, c, z), ('other', 'o', 'o', 'o', 9, 'o', 9)])
    if got != want:
        raise Violation('the listed authorities are not the recorded ones', got=got, expected=want)
    ctx.state(case)


def end_to_end(ctx):
    """a certificate issued by an attribute authority whose info was recorded starts a session"""
    for key in range(3):
        svc.configure('AAUTH', AAUTH_ID='n', A_URI='urn:aa', REV_URL='', KEY_FILE=svc.KEYFILES[key], AC_EXPIRE_LENGTH='3600')
        svc.configure('LADON', SERVICE_HOST='h', SERVICE_PORT='1')
        PA.clear()
        aa = svc.Attributes()
        aa.add(svc.sa.User(id=1, username='dan', password=svc.pw('a')))
        clock.set(ac.NOW)
        info = aa.service.info(REMOTE_ADDR='::1')
        raws = []
        for _ in range(3):
            raws.append(aa.request('dan', 'a')[1])
        pa = svc.Policies()
        pem = info.public_key if isinstance(info.public_key, str) else bytes(info.public_key).decode()
        pa.authority(info.attribute_uri, trust=1, pem=pem)
        for wait, ok in ((1, True), (3599, True), (3600, False), (7200, False)):
            clock.set(ac.NOW + wait)
            ctx.step()
            try:
                pa.start([(r, 0, info.attribute_certificate_version) for r in raws])
                got = True
            except Exception as e:
                got = e
            if (got is True) != ok:
                raise Violation('certificates of a trusted authority', after=wait, accepted=got, expected=ok)
        ctx.traces += 1


def size_gen():
    for bits in [1024, 1025, 1027, 1031, 1032, 1279, 1280, 1536, 2048] + ([1026, 1028, 1029, 1030, 1033, 2047, 2049, 3072, 4096] if THOROUGH else []):
        yield bits


def size_one(ctx, bits):
    """keys of every size: the authority describes its key, and its certificates, truthfully"""
    import hashlib
    import os
    from Crypto.PublicKey import RSA
    n = [0]

    def draw(k):
        n[0] += 1
        return hashlib.shake_256(b'%d %d' % (bits, n[0])).digest(k)
    key = RSA.generate(bits, draw)
    path = os.path.join(svc.SCRATCH, 'size-%d.pem' % bits)
    with open(path, 'wb') as f:
        f.write(key.export_key())
    svc.configure('AAUTH', AAUTH_ID='n', A_URI='urn:aa', REV_URL='', KEY_FILE=path, AC_EXPIRE_LENGTH='3600', DB_TYPE='MEMORY')
    svc.configure('LADON', SERVICE_HOST='h', SERVICE_PORT='1')
    PA.clear()
    aa = svc.Attributes()
    aa.add(svc.sa.User(id=1, username='dan', password=svc.pw('a')))
    clock.set(ac.NOW)
    info = aa.service.info(REMOTE_ADDR='::1')
    pem = info.public_key if isinstance(info.public_key, str) else bytes(info.public_key).decode()
    size = key.n.bit_length()
    ctx.step(2)
    if (info.key_algorithm.cipher, info.key_algorithm.key_size) != ('RSA', size) or RSA.import_key(pem) != key.publickey() or RSA.import_key(pem).has_private():
        raise Violation('the attribute authority describes its key wrongly', bits=size, got=(info.key_algorithm.cipher, info.key_algorithm.key_size))
    cert, raw = aa.request('dan', 'a')[:2]
    said = {a.att_id.split('/')[-1]: a.att_value for a in cert.att_set}
    if cert.issuer.key_algo != 'RSA[%d]' % size or said.get('aauth_pub_key_size') != str(size) or RSA.import_key(cert.issuer.pub_key) != key.publickey() or not cert.verify_signature():
        raise Violation('a certificate describes the key of its authority wrongly', bits=size, got=(cert.issuer.key_algo, said.get('aauth_pub_key_size')))
    pa = svc.Policies()
    pa.authority(info.attribute_uri, trust=1, pem=pem)
    clock.set(ac.NOW + 1)
    try:
        pa.start([(raw, 0, 1)])
    except Exception as e:
        raise Violation('a certificate of a trusted authority was refused', bits=size, error=e)
    ctx.state(bits)


def run(chk):
    chk.bounds = {'history_length': 5 if THOROUGH else 4, 'actions': len(ACTS), 'recorded_authorities': 5000 if THOROUGH else 1025, 'configurations': len(list(info_gen()))}
    chk.assumptions = ['the ladon web framework is replaced by a stub']
    chk.explore('all histories of recorded authorities', gen, one)
    chk.explore('many authorities', crowd_gen, crowd_one)
    chk.explore('every field', field_gen, field_one)
    chk.explore('all configurations', info_gen, info_one)
    chk.explore('keys of every size', size_gen, size_one)
    chk.one('from attribute authority to policy authority', end_to_end)
