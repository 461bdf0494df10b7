"""C26 a session starts only from certificates that are all genuine, from a trusted authority, and valid now: all combinations, sets and histories."""
import base64
from itertools import product

from Crypto.PublicKey import RSA

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH
from mc.checks import c19

PA = []
NOW = ac.NOW


def authority(sqlite=None):
    if not PA:
        PA.append(svc.Policies())
    PA[0].wipe()
    clock.set(NOW)
    return PA[0]


def export(cert, fmt):
    d = cert.export_ac(ac.EF(fmt)) if fmt in (0, 1, 3, 4) else cert.export_ac(ac.EF.BYTES)
    return d.encode() if isinstance(d, str) else bytes(d)


def attempt(pa, certs, want, **info):
    """start a session; certs [(bytes, format, version)]"""
    before = pa.dump()
    try:
        r = pa.start(certs)
    except Exception as e:
        if want:
            raise Violation('a session was refused for valid certificates', error=e, **info)
        if pa.dump() != before:
            raise Violation('a refused session left a trace', **info)
        return None
    if not want:
        raise Violation('a session was started from a certificate that has to be refused', **info)
    after = pa.dump()
    if len(after[2]) != len(before[2]) + 1 or not set(before[2]) <= set(after[2]):
        raise Violation('starting a session did not record one session', before=len(before[2]), after=len(after[2]), **info)
    return r


# -- one certificate: all combinations of what can be wrong -----------------------------------------------------------------
SIGNED = ['key', 'other key', 'unsigned', 'content changed', 'signature changed', 'signature of another certificate', 'key replaced', 'cut short', 'extra byte', 'no signature value']
TRUST = [1, 2, 100, 0, -1, None, 'other uid only']
TIME = [(-10, 1000), (-1, 1), (0, 1000), (1, 1000), (-10, 0), (-10, -1), (1000, 2000), (-2000, -1000), (10, -10)]
UID = ['aa', 'AA', 'aa ', '', 'b', 'a']
FORMAT = [0, 3, 4, 1, 2, 5, -1, -3, -4, 256, 260]
VERSION = [1, 0, 2, 255, 257, -1]


def single_gen():
    for signed, trust, t in product(SIGNED, TRUST, TIME):
        for fmt in (0, 3, 4):
            yield (signed, trust, t, 'aa', fmt, 1)
    for trust, uid, fmt, ver in product(TRUST, UID, FORMAT, VERSION):
        yield ('key', trust, TIME[0], uid, fmt, ver)
    for signed, uid, fmt, ver in product(SIGNED, UID, FORMAT, VERSION):
        yield (signed, 1, TIME[0], uid, fmt, ver)


def build(signed, t, uid, fmt, serial=7, key=0):
    cert = svc.issue(1 if signed == 'other key' else key, uid, serial, t[0], t[1])
    if signed == 'other key':
        cert.issuer.pub_key = svc.PEMPUB[key]
        cert.sign(ac.KEYS[1])
    elif signed == 'key replaced':
        cert.issuer.pub_key = svc.PEMPUB[2]
        cert.sign(ac.KEYS[2])
    elif signed == 'unsigned':
        cert.signature = None
    elif signed == 'content changed':
        cert.att_set[0].att_value = 'admin'
    elif signed == 'signature changed':
        v = bytearray(cert.signature.sig_value)
        v[5] ^= 1
        cert.signature.sig_value = bytes(v)
    elif signed == 'signature of another certificate':
        cert.signature = svc.issue(key, uid, serial + 1, t[0], t[1]).signature
    elif signed == 'no signature value':
        cert.signature.sig_value = b'\x00'
    raw = bytes(cert.export_ac(ac.EF.BYTES))
    if signed == 'cut short':
        raw = raw[:-1]
    elif signed == 'extra byte':
        raw += b'\x00'
    if abs(fmt) % 256 == 3:
        return base64.b64encode(raw)
    if abs(fmt) % 256 == 4:
        lines = export(cert, 4).split(b'\n')
        lines[3] = base64.b64encode(raw)
        return b'\n'.join(lines)
    return raw


def issued_gen():
    """the time of issue says nothing about validity"""
    for t in TIME:
        for issued in (-NOW, -100000, -10, -1, 0, 1, 5, 999, 1000, 1001, 100000, 2 ** 32 - 1 - NOW):
            yield (t, issued)


def issued_one(ctx, case):
    t, issued = case
    pa = authority()
    pa.authority('aa', 0, 1)
    cert = svc.issue(0, 'aa', 7, t[0], t[1], issued=NOW + issued)
    ctx.step()
    ctx.state(case)
    attempt(pa, [(export(cert, 0), 0, 1)], t[0] < 0 < t[1], valid=t, issued=issued)


def single_one(ctx, case):
    signed, trust, t, uid, fmt, ver = case
    pa = authority()
    if trust == 'other uid only':
        pa.authority('aa2', 0, 1)
    elif trust is not None:
        pa.authority('aa', 0, trust)
    pa.authority('b', 1, 1)
    good = signed == 'key' and isinstance(trust, int) and trust > 0 and t[0] < 0 < t[1] and uid == 'aa' and fmt in (0, 3, 4) and ver == 1
    ctx.step()
    attempt(pa, [(build(signed, t, uid, fmt), fmt, ver)], good, case_signed=signed, trust=trust, valid=t, issuer=uid, format=fmt, version=ver)
    ctx.state(case)


def label_gen():
    """bad signatures x what is said about the signature and around the certificate"""
    for signed in ('other key', 'content changed', 'signature changed', 'no signature value', 'signature of another certificate'):
        for fmt in (0, 3, 4):
            for lab in c19.LABELS:
                yield (signed, fmt, lab, 0, 0)
        for h in range(len(c19.HEADS)):
            for f in range(len(c19.FOOTS)):
                yield (signed, 4, None, h, f)


def label_one(ctx, case):
    signed, fmt, lab, h, f = case
    pa = authority()
    pa.authority('aa', 0, 1)
    raw = build(signed, TIME[0], 'aa', 0)
    if lab is not None:
        cert = ac.A.AttributeCertificate.decode(bytearray(raw))
        cert.signature.sig_algo = lab
        raw = bytes(cert.encode())
    if fmt:
        raw = base64.b64encode(raw)
    if fmt == 4:
        raw = '\n'.join(c19.HEADS[h] + [raw.decode(), c19.FOOTS[f]]).encode()
    ctx.step()
    attempt(pa, [(raw, fmt, 1)], False, case_signed=signed, algorithm=lab, format=fmt, head=c19.HEADS[h], end=c19.FOOTS[f])
    ctx.state(case)


def key_gen():
    """authorities x the key that signed x the way the key is written in certificate and database"""
    for rec, signer, form, recform, uid in product(range(3), range(3), ('PEM', 'DER', 'OpenSSH', 'private'), ('PEM', 'OpenSSH'), ('aa', 'bb')):
        yield (rec, signer, form, recform, uid)


def twin(key, e):
    """another key pair with the modulus of the first"""
    return RSA.construct((key.n, e, pow(e, -1, (key.p - 1) * (key.q - 1)), key.p, key.q))


def twin_gen():
    yield from product(range(2), (257, 17, 65539, 2 ** 32 + 15), ('PEM', 'DER', 'OpenSSH'), (0, 1))


def twin_one(ctx, case):
    rec, e, form, own = case
    pa = authority()
    try:
        k = ac.KEYS[rec] if own else twin(ac.KEYS[rec], e)
    except ValueError:
        return          # not a key
    pa.authority('aa', rec, 1)
    cert = svc.issue(rec, 'aa', 5, pub=k.publickey().export_key(form))
    cert.sign(k)
    ctx.step()
    attempt(pa, [(bytes(cert.encode()), 0, 1)], bool(own), recorded_key=rec, exponent=k.e, form=form)
    ctx.state(case)


def key_one(ctx, case):
    rec, signer, form, recform, uid = case
    pa = authority()
    pub = ac.KEYS[rec].publickey()
    pa.authority('aa', trust=1, pem=pub.export_key(recform).decode())
    pa.authority('bb', key=(rec + 1) % 3, trust=3)
    own = rec if uid == 'aa' else (rec + 1) % 3
    k = ac.KEYS[signer]
    text = k.export_key() if form == 'private' else k.publickey().export_key(form)
    cert = svc.issue(signer, uid, 5, pub=text)
    ctx.step()
    if form == 'private':
        # a private key in place of a public one: whether it is accepted does not matter, another authority's never is
        if own == signer:
            return
    attempt(pa, [(bytes(cert.encode()), 0, 1)], own == signer, recorded_key=own, signing_key=signer, form=form, issuer=uid)
    ctx.state(case)


# -- sets ---------------------------------------------------------------------------------------------------------------------
KINDS = ['good aa', 'good bb', 'good b64', 'expired', 'future', 'tampered', 'stranger', 'distrusted', 'aa by bb', 'unsigned', 'version 2', 'text', 'garbage', 'empty', 'good full']


def made(kind, serial):
    if kind == 'good aa':
        return build('key', (-10, 1000), 'aa', 0, serial), 0, 1
    if kind == 'good bb':
        return build('key', (-10, 50), 'bb', 0, serial, 1), 0, 1
    if kind == 'good b64':
        return build('key', (-10, 1000), 'aa', 3, serial), 3, 1
    if kind == 'good full':
        return build('key', (-10, 1000), 'bb', 4, serial, 1), 4, 1
    if kind == 'expired':
        return build('key', (-100, -1), 'aa', 0, serial), 0, 1
    if kind == 'future':
        return build('key', (1, 100), 'aa', 0, serial), 0, 1
    if kind == 'tampered':
        return build('content changed', (-10, 1000), 'aa', 0, serial), 0, 1
    if kind == 'stranger':
        return build('key', (-10, 1000), 'zz', 0, serial, 2), 0, 1
    if kind == 'distrusted':
        return build('key', (-10, 1000), 'cc', 0, serial, 2), 0, 1
    if kind == 'aa by bb':
        return build('key', (-10, 1000), 'aa', 0, serial, 1), 0, 1
    if kind == 'unsigned':
        return build('unsigned', (-10, 1000), 'aa', 0, serial), 0, 1
    if kind == 'version 2':
        return build('key', (-10, 1000), 'aa', 0, serial), 0, 2
    if kind == 'text':
        return build('key', (-10, 1000), 'aa', 0, serial), 1, 1
    if kind == 'garbage':
        return b'\x01' * 40, 0, 1
    return b'', 0, 1


def set_gen():
    for n in (1, 2, 3):
        for c in product(range(len(KINDS)), repeat=n):
            yield c
    if THOROUGH:
        for c in product(range(len(KINDS)), repeat=4):
            if sum(not KINDS[x].startswith('good') for x in c) <= 2:
                yield c


def set_one(ctx, case):
    pa = authority()
    pa.authority('aa', 0, 1)
    pa.authority('bb', 1, 2)
    pa.authority('cc', 2, 0)
    serials = (0, 2 ** 160 - 1, 1, 2 ** 159) if sum(case) % 2 or len(case) == 1 and KINDS[case[0]] == 'good aa' else (100, 101, 102, 103)
    certs = [made(KINDS[k], serials[i]) for i, k in enumerate(case)]
    ctx.step()
    attempt(pa, certs, all(KINDS[k].startswith('good') for k in case), set=[KINDS[k] for k in case])
    ctx.state(case)


def empty(ctx):
    pa = authority()
    pa.authority('aa', 0, 1)
    before = pa.dump()
    for certs in (None, []):
        attempt(pa, certs, False, set=certs)
    try:
        pa.service.start_session('svc', None, REMOTE_ADDR='1.2.3.4')
    except Exception:
        pass
    else:
        raise Violation('a session was started without certificates')
    if pa.dump() != before:
        raise Violation('a refused session left a trace')
    ctx.step(3)
    ctx.traces += 3


# -- histories of trust, keys and time ----------------------------------------------------------------------------------------
ACTS = ['trust', 'distrust', 'remove', 'rekey', 'wait', 'start a', 'start b', 'restart', 'start a+b', 'start c']


def hist_gen():
    n = 5 if THOROUGH else 4
    for k in range(2, n + 1):
        for h in product(range(len(ACTS)), repeat=k):
            w = [ACTS[x] for x in h]
            if w[-1].startswith('start ') and (w[0] == 'trust' or k < n):
                yield h


CACHE = {}


def hist_one(ctx, h):
    if not CACHE:
        CACHE['a'] = (bytes(svc.issue(0, 'aa', 1, -10, 1000).encode()), 0, 1)
        CACHE['b'] = (bytes(svc.issue(1, 'aa', 2, -10, 1000).encode()), 0, 1)
        CACHE['c'] = (bytes(svc.issue(0, 'aa', 3, -10, 100000).encode()), 0, 1)
    pa = authority()
    S = svc.sp
    trust, key, now = None, 0, NOW
    for a in h:
        w = ACTS[a]
        ctx.step()
        if w.startswith('start '):
            ok = True
            for c in w[6:].split('+'):
                ok = ok and trust is not None and trust > 0 and key == (1 if c == 'b' else 0) and now < NOW + (1000 if c != 'c' else 100000)
            attempt(pa, [CACHE[c] for c in w[6:].split('+')], ok, history=[ACTS[x] for x in h], at=w)
        elif w == 'wait':
            now += 600
            clock.set(now)
        elif w == 'restart':
            pa.service = svc.spa.PolicyAuthority()
        else:
            s = pa.session()
            q = s.query(S.AttributeAuthority).filter_by(uid='aa')
            if w == 'remove':
                q.delete()
                trust, key = None, 0
            elif trust is None:
                s.close()
                if w == 'trust':
                    pa.authority('aa', key, 1)
                    trust = 1
                continue
            elif w in ('trust', 'distrust'):
                trust = 1 if w == 'trust' else 0
                q.update({'trust_level': trust})
            elif w == 'rekey':
                key = 1 - key
                q.update({'pub_key': svc.PEMPUB[key].decode()})
            s.commit()
            s.close()
        ctx.state((trust, key, now, w))


# -- who is recorded ------------------------------------------------------------------------------------------------------------
NAMES = ['aa', 'AA', 'Aa', 'aa ', ' aa', 'aa/', '/aa', 'aa//', 'a', 'aaa', 'aa\n', 'aa\x00', 'hgabac://aa', 'hgabac://aa/', 'hgabac://AA', 'http://aa', 'https://aa', 'http://aa/', 'aa.', 'aa%', '%', '_a', 'a_', '*', '', 'é', 'e\u0301', 'ß', 'ss',
         'ﬁ', 'fi', '\u0430\u0430', 'aa?', 'aa#x', 'aa:80', 'www.aa', 'None', 'null', '0', 'n-aa', 'x' * 255, 'x' * 256, 'x' * 64, 'x' * 65, "a'a"]


def name_gen():
    for k in range(len(NAMES)):
        for full in (False, True):
            yield (k, full)


def name_one(ctx, case):
    """one recorded authority (or all others too, not trusted), certificates of every issuer with the same key"""
    k, full = case
    pa = authority()
    S = svc.sp
    rows = [S.AttributeAuthority(uid=NAMES[k], name='bb', url='cc', key_cipher='RSA', key_size=1024, pub_key=svc.PEMPUB[0].decode(), trust_level=1)]
    if full:
        rows += [S.AttributeAuthority(uid=n, name=NAMES[k], url=NAMES[k], key_cipher='RSA', key_size=1024, pub_key=svc.PEMPUB[0].decode(), trust_level=0) for n in NAMES if n != NAMES[k]]
    pa.add(*rows)
    for n, uid in enumerate(NAMES + ['bb', 'cc', 'n', 'http://u', 'RSA']):
        ctx.step()
        attempt(pa, [(bytes(svc.issue(0, uid, 100 + n).encode()), 0, 1)], uid == NAMES[k], recorded=NAMES[k], issuer=uid)
        ctx.state((k, full, uid))


def record_gen():
    pem = svc.PEMPUB[0].decode()
    der = base64.b64encode(ac.PUB[0]).decode()
    for text in ('', ' ', '\n', 'None', '*', 'garbage', '0', pem[:40], pem[:-40], svc.PEMPUB[1].decode(), pem.split('\n')[1], der[:-8], 'ssh-rsa', '-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----',
                 svc.PEMPUB[1].decode() + '\n' + pem, svc.PEMPUB[3].decode()):
        for cipher in ('RSA', '', 'EC'):
            for size in (1024, 0):
                yield (text, cipher, size, 1)
    for trust in list(range(-5, 12)) + [99, 100, 101, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 31 - 1, -2 ** 31, -255, -256, 2 ** 32, 2 ** 32 + 1]:
        for cipher, size in (('RSA', 1024), ('', 0), ('EC', 2048), ('rsa', 1)):
            yield (pem, cipher, size, trust)


def record_one(ctx, case):
    text, cipher, size, trust = case
    pa = authority()
    pa.add(svc.sp.AttributeAuthority(uid='aa', name='n', url='http://u', key_cipher=cipher, key_size=size, pub_key=text, trust_level=trust))
    ctx.step()
    attempt(pa, [(bytes(svc.issue(0, 'aa', 3).encode()), 0, 1)], text == svc.PEMPUB[0].decode() and trust > 0, recorded_key=text, trust=trust, cipher=cipher, size=size)
    ctx.state(case)


def crowd_gen():
    for n in list(range(1, 13)) + [16, 17, 20, 31, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 200] + ([256, 257, 500, 1000] if THOROUGH else []):
        yield n


def crowd_one(ctx, n):
    """many recorded authorities, each with its own trust and key; and many certificates at a time"""
    pa = authority()
    pa.add(*[svc.sp.AttributeAuthority(uid='u%d' % k, name='n', url='http://u', key_cipher='RSA', key_size=1024, pub_key=svc.PEMPUB[k % 3].decode(), trust_level=k % 4) for k in range(n)])
    for k in sorted({0, 1, 2, 3, n // 2, n - 4, n - 3, n - 2, n - 1, n} & set(range(n + 1))):
        for signer in range(3):
            ctx.step()
            attempt(pa, [(bytes(svc.issue(signer, 'u%d' % k, 1000 * signer + k).encode()), 0, 1)], k < n and k % 4 > 0 and k % 3 == signer, authorities=n, issuer=k, signer=signer)
    m = n if n in (100, 200) or n <= 40 else 40
    good = [(bytes(svc.issue(1, 'u1', 5000 + i).encode()), 0, 1) for i in range(m)]
    bad = [(bytes(svc.issue(1, 'u1', 6000, before=-1).encode()), 0, 1), (bytes(svc.issue(2, 'u1', 6001).encode()), 0, 1), (build('content changed', (-10, 1000), 'u1', 0, 6002, 1), 0, 1)]
    for at in sorted({0, 1, m // 2, m - 1, m} & set(range(m + 1))):
        for b in bad:
            ctx.step()
            attempt(pa, good[:at] + [b] + good[at:], False, certificates=m, bad_at=at)
    attempt(pa, good, n > 1, certificates=m)
    ctx.state(n)


def size_gen():
    for size in [1000, 4000, 4096, 5000, 8192, 16384, 20000, 32768, 40000, 60000, 66000, 100000, 132000, 262144, 300000] + ([1048576, 3000000] if THOROUGH else []):
        for fmt in (0, 3, 4):
            yield (size, fmt)


def trusting():
    pa = authority()
    pa.authority('aa', 0, 1)
    return pa


def size_one(ctx, case):
    """large certificates are accepted if genuine, and refused if changed anywhere, cut or extended"""
    size, fmt = case
    A, AT = ac.A, ac.AT
    fill = [A.ACAttribute('f%d' % i, AT.STRING, 'x' * min(60000, size - i * 60000), 'f') for i in range((size + 59999) // 60000)]
    good = svc.issue(serial=9, atts=fill + [A.ACAttribute('user.role', AT.STRING, 'nurse', 'role')])
    for what in ('good', 'last', 'first', 'end', 'extension', 'time', 'holder', 'good'):
        c = A.AttributeCertificate.decode(bytearray(good.encode()))
        if what == 'last':
            c.att_set[-1].att_value = 'chief'
        elif what == 'first':
            c.att_set[0].att_value = 'y' + c.att_set[0].att_value[1:]
        elif what == 'end':
            c.att_set[-2].att_value = c.att_set[-2].att_value[:-1] + 'y'
        elif what == 'extension':
            c.extensions = list(c.extensions or []) + [A.ACExtensions('z', b'z')]
        elif what == 'time':
            c.rev_rules.valid_before += 1
        elif what == 'holder':
            c.holder.uid = 'eve'
        ctx.step()
        attempt(trusting(), [(export(c, fmt), fmt, 1)], what == 'good', size=size, format=fmt, changed=what)
    raw = export(good, 0)
    if fmt == 0:
        for cut in (1, 10, 4096, len(raw) // 2):
            ctx.step()
            attempt(trusting(), [(raw[:-cut], 0, 1)], False, size=size, cut=cut)
    ctx.state(case)


def run(chk):
    chk.bounds = {'single': len(list(single_gen())), 'set_size': 4 if THOROUGH else 3, 'kinds': len(KINDS), 'history_length': 5 if THOROUGH else 4, 'actions': len(ACTS), 'issuer_names': len(NAMES), 'recorded_authorities': 1000 if THOROUGH else 200, 'certificates_in_a_set': 200}
    chk.assumptions = ['RSA signatures cannot be forged', 'serial numbers are not reused', 'the ladon web framework is replaced by a stub: methods are called with decoded arguments']
    chk.explore('times of issue', issued_gen, issued_one)
    chk.explore('one certificate: everything that can be wrong', single_gen, single_one)
    chk.explore('one certificate: names of the algorithm, texts around', label_gen, label_one)
    chk.explore('one certificate: keys', key_gen, key_one)
    chk.explore('one certificate: another key with the same modulus', twin_gen, twin_one)
    chk.explore('all sets of certificates', set_gen, set_one)
    chk.explore('all recorded and issuing names', name_gen, name_one)
    chk.explore('recorded keys and trust', record_gen, record_one)
    chk.explore('many authorities, many certificates', crowd_gen, crowd_one)
    chk.explore('large certificates', size_gen, size_one)
    chk.one('empty sets', empty)
    chk.explore('all histories of trust, keys and time', hist_gen, hist_one)
