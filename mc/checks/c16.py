"""C16 a certificate, and each part, survives encoding and decoding: every field at every boundary, all pairs of fields."""
from itertools import combinations, product

from mc import ac
from mc.core import Violation, THOROUGH

A = ac.A


def part_gen():
    for kind, (cls, fields) in ac.FIELDS.items():
        dflt = [vs[0] for _, vs in fields]
        seen = set()
        for i, j in list(combinations(range(len(fields)), 2)) or [(0, 0)]:
            for a in fields[i][1]:
                for b in fields[j][1]:
                    v = list(dflt)
                    v[i], v[j] = a, b
                    k = repr(v)
                    if k not in seen:
                        seen.add(k)
                        yield kind, v
        for i, (f, vs) in enumerate(fields):
            if isinstance(vs[0], str) or vs[0] is None:
                for h in ac.HUGE:
                    v = list(dflt)
                    v[i] = h if f not in ('extra_bytes',) else h.encode()[:65535]
                    yield kind, v


JUNK = [b'', b'\x00', b'\x01\x02\x03', b'\xff' * 40]


def part_one(ctx, case):
    kind, v = case
    p = ac.make(kind, v)
    want = ac.part(kind, p)
    if want != ac.given(kind, v):
        raise Violation('a %s is made with other values than given' % kind, got=want, expected=ac.given(kind, v))
    enc = p.encode()
    ctx.state((kind, want))
    for junk in JUNK:
        buf = bytearray(bytes(enc) + junk)
        got = type(p).decode(buf)
        ctx.step()
        if ac.part(kind, got) != want:
            raise Violation('decoded %s differs' % kind, values=v, got=ac.part(kind, got), expected=want)
        if bytes(buf) != junk:
            raise Violation('decoding a %s took too much or too little' % kind, values=v, left=bytes(buf), expected=junk)
        if bytes(got.encode()) != bytes(enc):
            raise Violation('encoding the decoded %s gives other bytes' % kind, values=v)
        str(got)
    if ac.part(kind, p) != want:
        raise Violation('encoding changed the %s' % kind, values=v)


def roundtrip(ctx, cert, what):
    want = ac.content(cert)
    enc = cert.encode()
    ctx.step(2)
    got = A.AttributeCertificate.decode(bytearray(enc))
    if ac.content(got) != want:
        raise Violation('decoded certificate differs', case=what, got=ac.content(got), expected=want)
    if bytes(got.encode()) != bytes(enc):
        raise Violation('encoding the decoded certificate gives other bytes', case=what)
    small = len(cert.att_set or ()) + len(cert.extensions or ()) <= 1100  # comparing unordered collections may take quadratic time
    if small and not (got == A.AttributeCertificate.decode(bytearray(enc))) or (small and not ac.has_empty(cert) and not (got == cert)):
        raise Violation('decoded certificate does not compare equal', case=what)
    if ac.content(cert) != want:
        raise Violation('encoding changed the certificate', case=what)
    str(got)
    ctx.state(want)


def small(kind):
    """a few variants of a part for whole-certificate products"""
    cls, fields = ac.FIELDS[kind]
    dflt = [vs[0] for _, vs in fields]
    out = [dflt]
    for i, (f, vs) in enumerate(fields):
        for a in (vs if THOROUGH else vs[1:3] + vs[-1:]):
            v = list(dflt)
            v[i] = a
            out.append(v)
    return out


def cert_gen():
    kinds = ['issuer', 'holder', 'info', 'rev', 'del', 'ext', 'att', 'sig']
    for a, b in combinations(kinds, 2):
        for x in small(a):
            for y in small(b):
                yield {a: x, b: y}


SLOT = {'issuer': 'issuer', 'holder': 'holder', 'info': 'info', 'rev': 'rev_rules', 'del': 'del_rules', 'sig': 'signature'}


def cert_one(ctx, case):
    kw = {}
    for kind, v in case.items():
        p = ac.make(kind, v)
        if kind in SLOT:
            kw[SLOT[kind]] = p
        elif kind == 'att':
            kw['att_set'] = [p, ac.A.ACAttribute('z', ac.AT.INT, '1')]
        else:
            kw['extensions'] = [p, ac.A.ACExtensions('z', b'1')]
    roundtrip(ctx, ac.base(**kw), case)


def sizes_gen():
    ns = [None, 0, 1, 2, 3, 10, 127, 128, 254, 255, 256, 257, 300] + ([511, 512, 513, 1000, 4096] if THOROUGH else [])
    for n, m in product(ns, [None, 0, 1, 2, 255, 256, 257]):
        for d in (None, b'', b'd'):
            yield (n, m, d)
    for n in [1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193] + ([16384, 32767, 32768, 65535] if THOROUGH else []):
        yield (n, 1, None)
        yield (1, n, None)
    for n in [254, 255, 256, 257, 1000, 4096, 16384, 32767, 32768, 32769, 65279, 65280, 65281, 65534, 65535]:
        yield (1, 1, b'd' * n)
        yield (0, 0, b'\xff' * n)


def sizes_one(ctx, case):
    n, m, d = case
    atts = None if n is None else [A.ACAttribute('a%d' % i, list(ac.AT)[i % 6], str(i) if i % 3 else None) for i in range(n)]
    exts = None if m is None else [A.ACExtensions('e%d' % i, b'x' * (i % 3) or None) for i in range(m)]
    dr = None if d is None else A.ACDelegationRules(d or None)
    roundtrip(ctx, ac.base(att_set=atts, extensions=exts, del_rules=dr), case)


def atts_gen():
    """all lists of up to three attributes over a small domain (order, repetition, absent fields)"""
    dom = [('a', ac.AT.INT, '1', None, None), ('a', ac.AT.INT, None, None, None), ('a', ac.AT.STRING, '1', 'n', None), ('', ac.AT.NULL, None, None, b'\x00'),
           ('é', ac.AT.BOOL, 'TRUE', 'é', b'\xff'), ('b', ac.AT.SET, '{1, "x"}', '', b''), ('a', ac.AT.FLOAT, '1.5', 'n', b'zz')]
    for n in range(0, 4 if THOROUGH else 3):
        for p in product(dom, repeat=n):
            for e in product([('x', None), ('x', b'1'), ('', b'\x00\x00'), ('é', b'')], repeat=min(n, 2)):
                yield (p, e)


def atts_one(ctx, case):
    p, e = case
    roundtrip(ctx, ac.base(att_set=[A.ACAttribute(*x) for x in p], extensions=[A.ACExtensions(*x) for x in e]), case)


def field_one(ctx, case):
    kind, f, what = case
    for v in ac.field_values(what, 4 if THOROUGH else 3) + (ac.ladder(what) if what in 'sb' else []):
        p = ac.field_part(kind, f, v)
        want = ac.part(kind, p)
        enc = p.encode()
        ctx.step()
        buf = bytearray(bytes(enc) + b'\x05')
        got = type(p).decode(buf)
        if ac.part(kind, got) != want or bytes(buf) != b'\x05' or bytes(got.encode()) != bytes(enc):
            raise Violation('decoded %s differs' % kind, field=f, value=v, got=ac.part(kind, got), expected=want)
        ctx.state((kind, want))


def points():
    return [c for c in list(range(0x10000)) + [0x10000, 0x1f600, 0x2ffff, 0xe0001, 0xe0100, 0xfffff, 0x10ffff] if not 0xd800 <= c < 0xe000]


def point_gen():
    for kind, f, what in ac.field_gen():
        if what == 's':
            for lo in range(0, 0x10000, 0x400):
                yield (kind, f, lo)


def point_one(ctx, case):
    """every character of a block at the start, in the middle and at the end of every text field"""
    kind, f, lo = case
    for c in points():
        if lo <= c < lo + 0x400 or (lo == 0 and c >= 0x10000):
            ch = chr(c)
            for v in (ch, ch + 'x' + ch + ch + 'y' + ch):
                p = ac.field_part(kind, f, v)
                want = ac.part(kind, p)
                enc = p.encode()
                ctx.step()
                buf = bytearray(bytes(enc) + b'\x05')
                got = type(p).decode(buf)
                if ac.part(kind, got) != want or bytes(buf) != b'\x05' or want[f] != v:
                    raise Violation('decoded %s differs' % kind, field=f, value=v, got=ac.part(kind, got), expected=want)
    ctx.state(case)


def run(chk):
    chk.bounds = {'field_pairs': 'all', 'string_bytes': 65535, 'attributes': 4096 if THOROUGH else 300, 'extensions': 257}
    chk.assumptions = ['absent and empty optional fields are the same content']
    chk.explore('parts: all pairs of fields', part_gen, part_one)
    chk.explore('parts: one field over unusual values', ac.field_gen, field_one)
    chk.explore('parts: every character in every text field', point_gen, point_one)
    chk.explore('certificates: all pairs of parts', cert_gen, cert_one)
    chk.explore('numbers of attributes and extensions', sizes_gen, sizes_one)
    chk.explore('lists of attributes and extensions', atts_gen, atts_one)
