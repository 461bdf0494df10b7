"""C22 equality of certificates is equality of content: an equivalence, checked on all pairs of small certificates."""
from itertools import product

from mc import ac
from mc.core import Violation, THOROUGH

A = ac.A


def pool():
    """(description, certificate arguments) with one or two differences from the base"""
    att = A.ACAttribute
    a1, a2, a3 = ('a', ac.AT.INT, '1', None, None), ('a', ac.AT.INT, '2', None, None), ('b', ac.AT.STRING, '1', 'n', b'x')
    out = []
    for n in range(0, 4):
        for p in product((a1, a2, a3), repeat=n):
            out.append(('atts', p))
    out.append(('atts', None))
    for n in range(0, 4):
        for p in product((('e', None), ('e', b'1'), ('f', b'1')), repeat=n):
            out.append(('exts', p))
    out.append(('exts', None))
    for kind in ('issuer', 'holder', 'info', 'rev', 'att1', 'sig', 'del'):
        k = 'att' if kind == 'att1' else kind
        fields = ac.FIELDS[k][1]
        dflt = [vs[0] for _, vs in fields]
        for i, (f, vs) in enumerate(fields):
            for v in vs[:4]:
                w = list(dflt)
                w[i] = v
                if w not in [x[1] for x in out if x[0] == kind]:
                    out.append((kind, w))
    out += [('sig', None), ('del', None)]
    return out


def build(spec):
    kind, v = spec
    kw = dict(issuer=A.ACIssuer(b'k', 'a', 'a'), holder=A.ACHolder(b'k', 'a', 'a'), info=A.ACInformation(1, 1, ac.NOW), rev_rules=A.ACRevocationRules(ac.NOW, ac.NOW),
              att_set=[A.ACAttribute('a', ac.AT.INT, '1')], extensions=None, del_rules=None, signature=None)
    if kind == 'atts':
        kw['att_set'] = None if v is None else [A.ACAttribute(*x) for x in v]
    elif kind == 'exts':
        kw['extensions'] = None if v is None else [A.ACExtensions(*x) for x in v]
    elif kind == 'att1':
        kw['att_set'] = [ac.make('att', v)]
    else:
        slot = {'issuer': 'issuer', 'holder': 'holder', 'info': 'info', 'rev': 'rev_rules', 'sig': 'signature', 'del': 'del_rules'}[kind]
        kw[slot] = None if v is None else ac.make(kind, v)
    return A.AttributeCertificate(**kw)


def key(cert):
    """content that equality looks at: display names of issuer and holder are not identity, sets are unordered"""
    iss, hol, info, atts, rev, dl, exts, sig = ac.content(cert)
    return (iss[:3] + iss[4:], hol[:3], info, tuple(sorted(map(repr, atts))), rev, dl, tuple(sorted(map(repr, exts))), sig)


def raw_optional_empty(cert):
    return ac.has_empty(cert)


POOL = pool()


def gen():
    for i in range(len(POOL)):
        yield i


def one(ctx, i):
    a = build(POOL[i])
    ka = key(a)
    ctx.state(ka)
    for spec in POOL:
        b = build(spec)
        if raw_optional_empty(a) or raw_optional_empty(b):
            # an empty optional field decodes to an absent one: compare what a receiver holds
            a2, b2 = (A.AttributeCertificate.decode(bytearray(x.encode())) for x in (a, b))
        else:
            a2, b2 = a, b
        want = ka == key(b)
        ctx.step()
        for x, y in ((a2, b2), (b2, a2)):
            if (x == y) is not want:
                raise Violation('equality is wrong', first=POOL[i], second=spec, got=not want, expected=want)
            if (x != y) is not (not want):
                raise Violation('inequality is not the opposite of equality', first=POOL[i], second=spec)
    if not (a == build(POOL[i])) or not (a == a):
        raise Violation('certificate differs from itself', spec=POOL[i])
    for other in (None, 1, 'x', [], a.issuer):
        if a == other:
            raise Violation('certificate equals something that is no certificate', other=other)


def part_gen():
    for kind in ac.FIELDS:
        fields = ac.FIELDS[kind][1]
        yield kind


def part_one(ctx, kind):
    """parts: every field except display names of issuer and holder tells two parts apart"""
    fields = ac.FIELDS[kind][1]
    dflt = [vs[0] for _, vs in fields]
    for i, (f, vs) in enumerate(fields):
        for v in vs:
            for w in vs:
                x, y = list(dflt), list(dflt)
                x[i], y[i] = v, w
                if kind == 'att' and f in ('att_value', 'att_name') and (v or None) == (w or None):
                    want = True
                else:
                    want = v == w or (kind in ('issuer', 'holder') and f == 'name')
                p, q = ac.make(kind, x), ac.make(kind, y)
                ctx.step()
                if (p == q) is not want or (p != q) is want:
                    raise Violation('equality of a part is wrong', kind=kind, field=f, first=v, second=w, expected=want)
    ctx.state(kind)
    for other in (None, 1, 'x'):
        if ac.make(kind, dflt) == other:
            raise Violation('part equals something else', kind=kind)


M61 = 2 ** 61 - 1


def near(v):
    """values that are almost equal to v"""
    if isinstance(v, str):
        return [v, v.lower(), v.upper(), v + ' ', ' ' + v, v + '/', v + '.', v + '\x00', v[:-1], v + v[-1:], v.swapcase(), v[::-1], v.replace('a', '\u0430'), v + '\u0301']
    if isinstance(v, int):
        return [x for x in (v, v + 1, v + M61, v + 2 * M61, v + 2 ** 32, v + 2 ** 64, v ^ 1, v + 256, v + 65536, v + 60) if x >= 0]
    if v is None:
        return [None]
    return [v, v + b'\x00', b'\x00' + v, v[:-1], v[::-1], v + b'\n', v.swapcase(), v[:-1] + bytes([(v[-1] if v else 0) ^ 1])]


def near_gen():
    for kind in ac.FIELDS:
        for i, (f, vs) in enumerate(ac.FIELDS[kind][1]):
            if f == 'att_type':
                for t in ac.AT:
                    for val in ('true', '1', 'a', '1.0'):
                        yield (kind, i, (t, val))
            elif isinstance(vs[0], int):
                for v in (0, 1, 5, 2 ** 31 - 1, ac.NOW, 2 ** 64, M61):
                    yield (kind, i, v)
            else:
                for v in ('None', 'null', '0', 'False', ''):
                    yield (kind, i, ('absent', v))
                for n in list(range(1, 36)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]:
                    text = ('aBc' * n)[:n]
                    yield (kind, i, text.encode() if isinstance(vs[-1], bytes) else text)


def near_one(ctx, case):
    """equality looks at the whole of every field, for values of every size"""
    kind, i, v = case
    f = ac.FIELDS[kind][1][i][0]
    base = list(ac._BASE[kind])
    pairs = []
    if f == 'att_type':
        t, val = v
        base[2] = val
        for u in ac.AT:
            for w in (val, val.upper(), val + '.0', ' ' + val):
                other = list(base)
                base[1], other[1], other[2] = t, u, w
                pairs.append((list(base), other))
    else:
        if isinstance(v, tuple):
            v = v[1]
            text = not isinstance(ac.FIELDS[kind][1][i][1][-1], bytes)
            near_v = [v if text else v.encode(), '' if text else b'', 'None' if text else b'None'] + ([None] if f in ac.OPTIONAL else [])
        else:
            near_v = near(v)
        for w in near_v:
            for x in near_v:
                one, two = list(base), list(base)
                one[i], two[i] = w, x
                pairs.append((one, two))
    for x, y in pairs:
        p, q = ac.make(kind, x), ac.make(kind, y)
        want = x == y or kind in ('issuer', 'holder') and f == 'name' or all((a or None) == (b or None) and (g in ('att_value', 'att_name') or a == b)
                                                                            for a, b, (g, _) in zip(x, y, ac.FIELDS[kind][1]))
        ctx.step()
        if (p == q) is not want or (p != q) is want or (q == p) is not want:
            raise Violation('equality of a part is wrong', kind=kind, field=f, first=x, second=y, expected=want)
    ctx.state(repr(case)[:200])


def many_gen():
    for n in list(range(1, 20)) + [31, 32, 33, 64, 100, 300]:
        for what in ('att', 'ext'):
            yield (n, what)


def many_one(ctx, case):
    """collections of every size: one differing, missing, repeated element counts wherever it stands"""
    n, what = case
    make = (lambda i, v: A.ACAttribute('a%d' % i, ac.AT.INT, v)) if what == 'att' else (lambda i, v: A.ACExtensions('a%d' % i, v.encode()))
    slot = 'att_set' if what == 'att' else 'extensions'
    build_ = lambda l: ac.base(**{slot: l})  # noqa: E731
    one = build_([make(i, '1') for i in range(n)])
    for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
        for name, l, want in (('other value', [make(i, '2' if i == k else '1') for i in range(n)], False), ('missing', [make(i, '1') for i in range(n) if i != k], False),
                              ('twice', [make(i, '1') for i in range(n)] + [make(k, '1')], False), ('replaced', [make((k + 1) % n if i == k else i, '1') for i in range(n)], n == 1),
                              ('rotated', [make((i + k) % n, '1') for i in range(n)], True)):
            two = build_(l)
            ctx.step()
            if (one == two) is not want or (two == one) is not want or (one != two) is want:
                raise Violation('equality of certificates is wrong', size=n, element=k, change=name, expected=want)
    ctx.state(case)


def order_gen():
    """all orders of four attributes and of four extensions"""
    from itertools import permutations
    for p in permutations(range(5 if THOROUGH else 4)):
        yield p


def order_one(ctx, p):
    atts = [A.ACAttribute('a%d' % i, ac.AT.INT, '1') for i in p]
    exts = [A.ACExtensions('e%d' % i, b'1') for i in p]
    x = ac.base(att_set=atts, extensions=exts)
    y = ac.base(att_set=[A.ACAttribute('a%d' % i, ac.AT.INT, '1') for i in sorted(p)], extensions=[A.ACExtensions('e%d' % i, b'1') for i in sorted(p)])
    before = ac.content(x)
    ctx.step()
    ctx.state(p)
    if not (x == y) or not (y == x):
        raise Violation('order of attributes or extensions matters', order=p)
    if ac.content(x) != before:
        raise Violation('comparing changed a certificate', order=p)


def run(chk):
    chk.bounds = {'certificates': len(POOL), 'pairs': len(POOL) ** 2}
    chk.explore('all pairs of certificates', gen, one)
    chk.explore('all pairs of parts', part_gen, part_one)
    chk.explore('almost equal fields', near_gen, near_one)
    chk.explore('sizes of collections', many_gen, many_one)
    chk.explore('orders', order_gen, order_one)
