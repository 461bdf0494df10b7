"""C19 import with verification: every tampering of the bytes is refused or leaves the signed content as it was."""
import base64

from mc import ac
from mc.core import Violation, THOROUGH

A = ac.A
CERTS = []      # (bytes, content)


def prepare():
    a = ac.base(holder=A.ACHolder(b'hk', 'R', 'bob'))
    b = ac.base(1, info=A.ACInformation(1, 2 ** 159 + 5, ac.NOW), holder=A.ACHolder(b'hk', 'R', 'eve', 'E'), del_rules=A.ACDelegationRules(b'dd'), extensions=None)
    c = ac.base(att_set=[], extensions=[A.ACExtensions('x', None)], holder=A.ACHolder(b'hk', 'R', 'bob'))
    for cert, k in ((a, 0), (b, 1), (c, 0)):
        cert.sign(ac.KEYS[k])
        CERTS.append((bytes(cert.encode()), ac.content(cert, False)))


BIG = []


def big_prepare():
    for n, size in ((3, 60000), (60, 3000), (500, 8)):
        cert = ac.base(att_set=[A.ACAttribute('user.a%d' % j, ac.AT.STRING, 'v' * size) for j in range(n)], del_rules=A.ACDelegationRules(b'd' * 70))
        cert.sign(ac.KEYS[0])
        BIG.append((bytes(cert.encode()), ac.content(cert, False)))


def big_gen():
    """large certificates: bytes around every power of two from either end, and at even distances"""
    for i, (d, _) in enumerate(BIG):
        n = len(d)
        at = {p + e for b in range(20) for p in (2 ** b, n - 2 ** b) for e in (-1, 0, 1)} | set(range(0, n, max(1, n // (400 if THOROUGH else 100))))
        for p in sorted(at):
            if 0 <= p < n:
                yield (i, p)


def big_one(ctx, case):
    i, p = case
    d, c = BIG[i]
    ctx.step()
    ctx.state(case)
    x = bytearray(d)
    x[p] ^= 1
    for data, what in ((x, 'changed byte'), (bytearray(d[:p] + d[p + 1:]), 'removed byte'), (bytearray(d[:p]), 'cut')):
        try:
            cert = A.AttributeCertificate.import_ac(data, ac.EF.BYTES, True)
        except Exception:
            continue
        if what == 'cut' or ac.content(cert, False) != c:
            raise Violation('a tampered large certificate was accepted', tampering=what, at=p, of=len(d))


def attempt(ctx, data, allowed, what):
    ctx.step()
    results = []
    for fmt, src in ((ac.EF.BYTES, bytearray(data)),) + (((ac.EF.BASE64, base64.b64encode(data)),) if what[1] == 'splice' else ()):
        try:
            cert = A.AttributeCertificate.import_ac(src, fmt, True)
        except Exception:
            results.append(None)
            continue
        results.append(ac.content(cert, False))
        if results[-1] not in allowed:
            raise Violation('a tampered certificate was accepted', tampering=what, got=results[-1], expected=allowed[0])
    ctx.state(what)
    return results[0]


def flips_gen():
    for i, (d, _) in enumerate(CERTS):
        for pos in range(len(d)):
            if THOROUGH:
                for x in range(1, 256):
                    yield (i, 'byte', pos, x)
            else:
                for bit in range(8):
                    yield (i, 'byte', pos, 1 << bit)


def one(ctx, case):
    i, kind = case[:2]
    d, c = CERTS[i]
    if kind == 'byte':
        pos, x = case[2:]
        attempt(ctx, d[:pos] + bytes([d[pos] ^ x]) + d[pos + 1:], [c], case)
    elif kind == 'cut':
        n = case[2]
        r = attempt(ctx, d[:n], [c], case)
        if r is not None:
            raise Violation('a truncated certificate was accepted', certificate=i, length=n)
        try:
            A.AttributeCertificate.import_ac(bytearray(d[:n]), ac.EF.BYTES, False)
        except Exception:
            return
        raise Violation('a truncated certificate was imported (without verification)', certificate=i, length=n, of=len(d))
    elif kind == 'insert':
        pos, b = case[2:]
        attempt(ctx, d[:pos] + b + d[pos:], [c], case)
        if pos == len(d):
            try:
                A.AttributeCertificate.import_ac(bytearray(d + b), ac.EF.BYTES, False)
            except Exception:
                return
            raise Violation('a certificate with bytes after its end was imported', certificate=i, extra=b)
    elif kind == 'delete':
        pos, n = case[2:]
        attempt(ctx, d[:pos] + d[pos + n:], [c], case)
    elif kind == 'swap':
        a, b = case[2:]
        x = bytearray(d)
        x[a], x[b] = x[b], x[a]
        attempt(ctx, bytes(x), [c], case)
    elif kind == 'splice':
        j, k = case[2:]
        e, c2 = CERTS[j]
        attempt(ctx, d[:k] + e[k:], [c, c2], case)
    elif kind == 'resplice':
        j, a, b = case[2:]
        e, c2 = CERTS[j]
        attempt(ctx, d[:a] + e[b:], [c, c2], case)
    elif kind == 'none':
        r = attempt(ctx, d, [c], case)
        if r is None:
            raise Violation('a genuine certificate was refused', certificate=i)


def edits_gen():
    for i, (d, _) in enumerate(CERTS):
        yield (i, 'none')
        for n in range(len(d)):
            yield (i, 'cut', n)
        for pos in range(len(d) + 1):
            for b in (b'\x00', b'\x01', b'a') + ((b'\xff', b'\x00\x00', b'aaaa') if THOROUGH else ()):
                yield (i, 'insert', pos, b)
        for pos in range(len(d)):
            for n in (1, 2, 4, 8):
                yield (i, 'delete', pos, n)
            for b in range(pos + 1, min(len(d), pos + (20 if THOROUGH else 3))):
                if d[pos] != d[b]:
                    yield (i, 'swap', pos, b)
        for j in range(len(CERTS)):
            if i != j:
                for k in range(1, len(d)):
                    yield (i, 'splice', j, k)
    if THOROUGH:
        d, e = CERTS[0][0], CERTS[2][0]
        for a in range(0, len(d), 3):
            for b in range(0, len(e), 5):
                yield (0, 'resplice', 2, a, b)


def resign_gen():
    """an attacker with a key of his own, or with no key: the certificate verifies only against the key it names"""
    for i in range(len(CERTS)):
        for mode in ('foreign signature', 'foreign key and signature', 'unsigned', 'empty algorithm', 'empty value', 'raw body as signature'):
            yield (i, mode)


def resign_one(ctx, case):
    i, mode = case
    d, c = CERTS[i]
    cert = A.AttributeCertificate.decode(bytearray(d))
    own = c[0][0]
    ctx.step()
    ctx.state(case)
    allowed = False
    if mode == 'foreign signature':
        cert.sign(ac.KEYS[2])
    elif mode == 'foreign key and signature':
        cert.issuer.pub_key = ac.PUB[2]
        cert.sign(ac.KEYS[2])
        allowed = True           # verifies, but names the other key: the holder of that key is visible
    elif mode == 'unsigned':
        cert.signature = None
    elif mode == 'empty algorithm':
        cert.signature.sig_algo = ''
    elif mode == 'empty value':
        cert.signature.sig_value = b''
    elif mode == 'raw body as signature':
        cert.signature.sig_value = d[:128]
    try:
        got = A.AttributeCertificate.import_ac(cert.encode(), ac.EF.BYTES, True)
    except Exception:
        if allowed:
            raise Violation('a certificate signed with the key it names was refused', mode=mode)
        return
    if not allowed:
        raise Violation('a certificate without a signature of its issuer was accepted', mode=mode)
    if got.issuer.pub_key == own:
        raise Violation('issuer key lost', mode=mode)


LABELS = ['NONE', 'none', 'None', '', ' ', '0', 'null', 'x', 'plain', 'test', 'RSA', 'RSASSA-PKCS1-v1_5', 'RSASSA-PKCS1-v1_5:', ':SHA256', 'SHA256', 'RSASSA-PKCS1-v1_5:SHA1', 'RSASSA-PKCS1-v1_5:MD5', 'RSASSA-PKCS1-v1_5:SHA512',
          'RSASSA-PSS:SHA256', 'NONE:SHA256', 'RSASSA-PKCS1-v1_5:NONE', 'NONE:NONE', 'HMAC:SHA256', 'rsassa-pkcs1-v1_5:sha256', 'RSASSA-PKCS1-v1_5:SHA256 ', 'ECDSA:SHA256', 'unsigned', '-', 'é']
HEADS = [['---- BEGIN ATTRIBUTE CERTIFICATE ----', 'FORMAT: BASE64', 'VERSION: 1']]
HEADS += [[h if i == j else x for i, x in enumerate(HEADS[0])] for j in range(3) for h in ('', ' ', 'x', 'FORMAT: BYTES', 'FORMAT: base64', 'FORMAT: TEXT', 'VERSION: 0', 'VERSION: 2', 'VERSION: 255', 'VERSION:', 'VERSION: 1 ',
                                                                                            'VERIFY: NO', '---- begin attribute certificate ----', '---- BEGIN UNSIGNED CERTIFICATE ----')]
FOOTS = ['---- END ATTRIBUTE CERTIFICATE ----', '', 'x']


def label_gen():
    for i in range(len(CERTS)):
        for change in ('holder', 'zeros', 'short', 'foreign', 'version', 'unsigned'):
            for lab in LABELS:
                yield (i, change, lab, None, 0)
            for h in range(len(HEADS)):
                for f in range(len(FOOTS)):
                    yield (i, change, None, h, f)


def label_one(ctx, case):
    """whatever is said about the signature or around the certificate"""
    i, change, lab, h, f = case
    d, c = CERTS[i]
    cert = A.AttributeCertificate.decode(bytearray(d))
    if change == 'holder':
        cert.holder.uid = 'mallory'
    elif change == 'zeros':
        cert.signature.sig_value = bytes(128)
    elif change == 'short':
        cert.signature.sig_value = b's'
    elif change == 'foreign':
        cert.sign(ac.KEYS[2])
    elif change == 'version':
        cert.info.version ^= 3
    else:
        cert.signature.sig_value = b''
    if lab is not None:
        cert.signature.sig_algo = lab
    data = bytes(cert.encode())
    text = base64.b64encode(data).decode()
    ways = [(ac.EF.BYTES, data), (ac.EF.BASE64, text)] if h is None else []
    full = '\n'.join(HEADS[h or 0] + [text, FOOTS[f]])
    ways += [(ac.EF.BASE64FULL, full), (ac.EF.BASE64FULL, full.encode())]
    ctx.state(case)
    for fmt, src in ways:
        ctx.step()
        try:
            A.AttributeCertificate.import_ac(src, fmt, True)
        except Exception:
            continue
        raise Violation('a certificate without a signature of its issuer was accepted', certificate=i, change=change, algorithm=lab, head=HEADS[h or 0], end=FOOTS[f], format=fmt.name)


def run(chk):
    prepare()
    big_prepare()
    chk.bounds = {'certificates': len(CERTS), 'bytes': [len(d) for d, _ in CERTS], 'large': [len(d) for d, _ in BIG], 'byte_changes': 255 if THOROUGH else 8}
    chk.assumptions = ['PKCS#1 v1.5 with SHA-256 is unforgeable']
    chk.explore('cuts, insertions, deletions, swaps and splices', edits_gen, one)
    chk.explore('large certificates', big_gen, big_one)
    chk.explore('other keys', resign_gen, resign_one)
    chk.explore('names of the algorithm, texts around', label_gen, label_one)
    chk.explore('byte changes', flips_gen, one)
