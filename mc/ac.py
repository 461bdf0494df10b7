"""Certificates for the checks: builders, field variants and an independent reading of their content."""
from mc import keys, clock

clock.install()
import hgaa.attcert as A  # noqa: E402
from Crypto.PublicKey import RSA  # noqa: E402

KEYS = [RSA.import_key(p) for p in keys.PEM]
PUB = [k.publickey().export_key('DER') for k in KEYS]
AT = A.AttributeType
EF = A.ExportFormat
NOW = 1500000000

LONG = ['x' * 255, 'y' * 256, 'é' * 127 + 'z', 'é' * 128, '日' * 86]
HUGE = ['x' * 65535, 'é' * 32767, 'w' * 32768]
STR = ['a', '', 'ab', 'é', '日本x', 'a\x00b', ' a ', '\n', '𝒳'] + LONG
OSTR = [None] + STR
BYT = [b'k', b'', b'\x00', b'\x00\x00', b'\xff\xfe', bytes(range(256)), b'q' * 255, b'\x01\x00' * 128]
OBYT = [None] + BYT
TIMES = [NOW, 0, 1, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
FIELDS = {
    'info': (A.ACInformation, [('version', [1, 0, 2, 127, 128, 255]), ('serial', [1, 0, 255, 256, 2 ** 80, 2 ** 159, 2 ** 160 - 1]), ('issued', TIMES)]),
    'issuer': (A.ACIssuer, [('pub_key', BYT), ('key_algo', STR), ('uid', STR), ('name', OSTR), ('url', OSTR)]),
    'holder': (A.ACHolder, [('pub_key', BYT), ('key_algo', STR), ('uid', STR), ('name', OSTR)]),
    'att': (A.ACAttribute, [('att_id', STR), ('att_type', list(AT)), ('att_value', OSTR), ('att_name', OSTR), ('extra_bytes', OBYT)]),
    'rev': (A.ACRevocationRules, [('valid_after', TIMES), ('valid_before', TIMES), ('url', OSTR), ('extra_bytes', OBYT)]),
    'del': (A.ACDelegationRules, [('extra_bytes', OBYT)]),
    'ext': (A.ACExtensions, [('eid', STR), ('extra_bytes', OBYT)]),
    'sig': (A.ACSignature, [('sig_algo', ['RSASSA-PKCS1-v1_5:SHA256', 'a', 'é', 'x' * 256]), ('sig_value', [b'\x00', b's', b'v' * 128, b'w' * 256])]),
}
OPTIONAL = {'name', 'url', 'att_value', 'att_name', 'extra_bytes'}


def make(kind, values):
    cls, fields = FIELDS[kind]
    return cls(**dict(zip([f for f, _ in fields], values)))


def given(kind, values):
    """content of a part made from these values"""
    out = []
    for (f, _), v in zip(FIELDS[kind][1], values):
        if f == 'att_type':
            v = v.name
        out.append(None if f in OPTIONAL and v is not None and len(v) == 0 else v)
    return tuple(out)


def part(kind, obj):
    """content of a part; absent and empty optional fields are the same content"""
    if obj is None:
        if kind == 'sig':
            return None
        return part(kind, FIELDS[kind][0]()) if kind == 'del' else None
    out = []
    for f, _ in FIELDS[kind][1]:
        v = getattr(obj, f)
        if isinstance(v, (bytes, bytearray)):
            v = bytes(v)
        if f in OPTIONAL and v is not None and len(v) == 0:
            v = None
        if f == 'att_type':
            v = v.name
        out.append(v if v is None or isinstance(v, (bytes, str, int)) else repr(v))
    return tuple(out)


def content(ac, signature=True):
    c = (part('issuer', ac.issuer), part('holder', ac.holder), part('info', ac.info), tuple(part('att', a) for a in ac.att_set or []),
         part('rev', ac.rev_rules), part('del', ac.del_rules), tuple(part('ext', e) for e in ac.extensions or []))
    return c + (part('sig', ac.signature),) if signature else c


def has_empty(cert):
    """some optional field is empty instead of absent (decodes to absent)"""
    for kind, ps in (('issuer', [cert.issuer]), ('holder', [cert.holder]), ('rev', [cert.rev_rules]), ('del', [cert.del_rules]),
                     ('att', cert.att_set or []), ('ext', cert.extensions or [])):
        for p in ps:
            if p is not None and any(f in OPTIONAL and getattr(p, f) is not None and len(getattr(p, f)) == 0 for f, _ in FIELDS[kind][1]):
                return True
    return False


def base(key=0, **kw):
    """a small certificate issued with KEYS[key]"""
    d = dict(issuer=A.ACIssuer(PUB[key], 'RSA', 'aa', 'Auth', 'http://a'), holder=A.ACHolder(b'holder-key', 'RSA', 'bob', 'Bob'),
             info=A.ACInformation(1, 12345, NOW),
             att_set=[A.ACAttribute('user.role', AT.STRING, 'nurse', 'role'), A.ACAttribute('user.n', AT.INT, '7', None, b'\x01')],
             rev_rules=A.ACRevocationRules(NOW - 10, NOW + 1000, 'http://r', None), del_rules=None,
             extensions=[A.ACExtensions('e1', b'xx')], signature=None)
    d.update(kw)
    return A.AttributeCertificate(**d)


# -- one field of a part over unusual values -----------------------------------------------------------------------------------
STRANGE = ['a', 'A', ' ', '\x00', '\n', '\u00e9', 'e\u0301', '/', '"', '0', '\u212a', 'k']
_STRINGS = {'issuer': (1, 2, 3, 4), 'holder': (1, 2, 3), 'att': (0, 2, 3), 'rev': (2,), 'ext': (0,), 'sig': (0,)}
_BYTES = {'issuer': (0,), 'holder': (0,), 'att': (4,), 'rev': (3,), 'del': (0,), 'ext': (1,), 'sig': (1,)}
_BASE = {'info': [1, 5, 9], 'issuer': [b'k', 'R', 'i', 'n', 'u'], 'holder': [b'k', 'R', 'i', 'n'], 'att': ['i', AT.STRING, 'v', 'n', b'x'],
         'rev': [1, 2, 'u', b'x'], 'del': [b'x'], 'ext': ['i', b'x'], 'sig': ['a', b'x']}


def field_gen():
    for kind in _BASE:
        for f in _STRINGS.get(kind, ()):
            yield (kind, f, 's')
        for f in _BYTES.get(kind, ()):
            yield (kind, f, 'b')
        if kind == 'info':
            yield (kind, 1, 'n')
            yield (kind, 2, 't')
            yield (kind, 0, 'v')
        if kind == 'rev':
            yield (kind, 0, 't')
            yield (kind, 1, 't')


def field_values(what, n):
    """all short strings of unusual characters, or all short byte strings, or all numbers of one and two bits"""
    from itertools import product
    if what == 's':
        return [''.join(p) for k in range(1, n + 1) for p in product(STRANGE, repeat=k)]
    if what == 'b':
        return [bytes(p) for k in range(1, n + 2) for p in product((0, 1, 32, 97, 255), repeat=k)]
    if what == 'v':
        return list(range(256))
    bits = 160 if what == 'n' else 32
    return sorted({0, 2 ** bits - 1} | {2 ** i for i in range(bits)} | {2 ** i + 2 ** j for i in range(bits) for j in range(i)})


LADDER = list(range(1, 70)) + [100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]


def ladder(what, lengths=LADDER):
    """texts or byte strings of every length, each with small variations"""
    out = []
    for n in lengths:
        if what == 's':
            s = ('Ab3' * n)[:n]
            vs = [s, s.lower(), s.upper(), s[:-1] + ' ', ' ' + s[1:], s[:-1] + '/', s[:-1] + '\u00e9', s[:-1] + 'e\u0301', s[:-1] + '\x00', s[:n // 2] + 'Z' + s[n // 2 + 1:],
                  '7' * n, s[:-1] + '=', s[:-1] + '\u212a', s[:-1] + '.', '\ufeff' + s[1:], s[:-1] + '\ufeff', s[:-1] + '\u200b']
        else:
            vs = [bytes([n % 251]) * n, b'\x00' * n, b'\xff' * n, b'\x00' * (n - 1) + b'\x01', b'\x01' + b'\x00' * (n - 1), b'a' * (n - 1) + b'\n', b'\xc3' * (n - 1) + b'(']
        out += vs
    return list(dict.fromkeys(out))


def field_part(kind, f, v, rest=False):
    """the given field set to v; rest: the optional fields behind it absent"""
    fields = list(_BASE[kind])
    if rest:
        for i in range(f + 1, len(fields)):
            if FIELDS[kind][1][i][0] in OPTIONAL:
                fields[i] = None
    fields[f] = v
    return make(kind, fields)
