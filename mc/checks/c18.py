"""C18 a signature vouches for every field of the certificate and for the issuer's key: all field changes and all histories."""
import copy
from itertools import product

from mc import ac
from mc.core import Violation, THOROUGH

A = ac.A
TARGETS = [('issuer', 'issuer', None), ('holder', 'holder', None), ('info', 'info', None), ('rev', 'rev_rules', None), ('att', 'att_set', 0), ('att', 'att_set', 1),
           ('ext', 'extensions', 0)]


def verified(cert):
    """True, or False (also when the verification refuses by an exception)"""
    try:
        r = cert.verify_signature()
    except Exception:
        return False
    if r is not True and r is not False:
        raise Violation('verification gave something else than true or false', got=r)
    return r


def obj(cert, slot, idx):
    o = getattr(cert, slot)
    return o if idx is None else o[idx]


def field_gen():
    for kind, slot, idx in TARGETS:
        for f, vs in ac.FIELDS[kind][1]:
            for v in vs:
                for extra in (0, 1):
                    yield (kind, slot, idx, f, v, extra)


def field_one(ctx, case):
    """change one field after signing; then restore it"""
    kind, slot, idx, f, v, extra = case
    cert = ac.base(del_rules=A.ACDelegationRules(b'd') if extra else None)
    cert.sign(ac.KEYS[0])
    before = ac.content(cert)
    if not verified(cert):
        raise Violation('a freshly signed certificate does not verify')
    o = obj(cert, slot, idx)
    old = getattr(o, f)
    setattr(o, f, v)
    same = ac.content(cert) == before
    ctx.step(3)
    ctx.state((kind, idx, f, repr(v)[:40]))
    if verified(cert) != same:
        raise Violation('a changed certificate still verifies' if not same else 'an equal certificate does not verify', field=(slot, idx, f), value=v)
    setattr(o, f, old)
    if not verified(cert):
        raise Violation('the restored certificate does not verify', field=(slot, idx, f), value=v)


def struct_changes():
    def f(name, fn):
        return (name, fn)

    att = lambda *a: A.ACAttribute(*a)  # noqa: E731
    return [
        f('append attribute', lambda c: c.att_set.append(att('user.x', ac.AT.BOOL, 'TRUE'))),
        f('append empty attribute', lambda c: c.att_set.append(att('', ac.AT.NULL, None))),
        f('drop first attribute', lambda c: c.att_set.pop(0)),
        f('drop last attribute', lambda c: c.att_set.pop()),
        f('no attributes', lambda c: setattr(c, 'att_set', [])),
        f('attributes None', lambda c: setattr(c, 'att_set', None)),
        f('swap attributes', lambda c: c.att_set.reverse()),
        f('repeat attribute', lambda c: c.att_set.append(c.att_set[0])),
        f('swap values', lambda c: swap(c.att_set[0], c.att_set[1], 'att_value')),
        f('swap types', lambda c: swap(c.att_set[0], c.att_set[1], 'att_type')),
        f('swap ids', lambda c: swap(c.att_set[0], c.att_set[1], 'att_id')),
        f('move value to name', lambda c: (setattr(c.att_set[0], 'att_name', 'nurse'), setattr(c.att_set[0], 'att_value', 'role'))),
        f('no extensions', lambda c: setattr(c, 'extensions', None)),
        f('empty extensions', lambda c: setattr(c, 'extensions', [])),
        f('append extension', lambda c: c.extensions.append(A.ACExtensions('e2'))),
        f('delegation rules', lambda c: setattr(c, 'del_rules', A.ACDelegationRules(b'any'))),
        f('delegation rules zero', lambda c: setattr(c, 'del_rules', A.ACDelegationRules(b'\x00'))),
        f('later end', lambda c: setattr(c.rev_rules, 'valid_before', c.rev_rules.valid_before + 1)),
        f('earlier start', lambda c: setattr(c.rev_rules, 'valid_after', c.rev_rules.valid_after - 1)),
        f('issuer and holder key swapped', lambda c: swap(c.issuer, c.holder, 'pub_key')),
        f('issuer and holder id swapped', lambda c: swap(c.issuer, c.holder, 'uid')),
        f('issuer name and url swapped', lambda c: (lambda n, u: (setattr(c.issuer, 'name', u), setattr(c.issuer, 'url', n)))(c.issuer.name, c.issuer.url)),
        f('no revocation url', lambda c: setattr(c.rev_rules, 'url', None)),
        f('uid moved into algorithm', lambda c: (setattr(c.holder, 'key_algo', c.holder.key_algo + c.holder.uid), setattr(c.holder, 'uid', ''))),
        f('other serial', lambda c: setattr(c.info, 'serial', c.info.serial + 1)),
        f('signature removed', lambda c: setattr(c, 'signature', None)),
        f('signature value None', lambda c: setattr(c.signature, 'sig_value', None)),
        f('signature value empty', lambda c: setattr(c.signature, 'sig_value', b'')),
        f('signature zeros', lambda c: setattr(c.signature, 'sig_value', b'\x00' * 128)),
        f('signature one bit', lambda c: setattr(c.signature, 'sig_value', bytes([c.signature.sig_value[0] ^ 1]) + bytes(c.signature.sig_value[1:]))),
        f('signature cut', lambda c: setattr(c.signature, 'sig_value', bytes(c.signature.sig_value[:-1]))),
        f('signature longer', lambda c: setattr(c.signature, 'sig_value', bytes(c.signature.sig_value) + b'\x00')),
        f('signature algorithm None', lambda c: setattr(c.signature, 'sig_algo', None)),
        f('issuer key of another authority', lambda c: setattr(c.issuer, 'pub_key', ac.PUB[1])),
        f('issuer key None', lambda c: setattr(c.issuer, 'pub_key', None)),
        f('issuer key algorithm None', lambda c: setattr(c.issuer, 'key_algo', None)),
        f('nothing', lambda c: None),
    ]


def swap(a, b, f):
    x, y = getattr(a, f), getattr(b, f)
    setattr(a, f, y)
    setattr(b, f, x)


CHANGES = struct_changes()


def struct_gen():
    for i in range(len(CHANGES)):
        for via in (0, 1):
            yield (i, via)


def struct_one(ctx, case):
    i, via = case
    name, fn = CHANGES[i]
    cert = ac.base()
    cert.sign(ac.KEYS[0])
    if via:
        cert = A.AttributeCertificate.decode(bytearray(cert.encode()))
    before = ac.content(cert)
    fn(cert)
    ctx.step()
    ctx.state(name)
    try:
        same = ac.content(cert) == before
    except TypeError:
        same = False
    if verified(cert) != same:
        raise Violation('a changed certificate still verifies' if not same else 'an unchanged certificate does not verify', change=name, decoded=bool(via))


# -- whatever is said about how it was signed -----------------------------------------------------------------------------
LABELS = ['NONE', 'none', 'None', '', ' ', '0', 'null', 'x', 'plain', 'test', 'RSA', 'RSASSA-PKCS1-v1_5', 'RSASSA-PKCS1-v1_5:', ':SHA256', 'SHA256', 'RSASSA-PKCS1-v1_5:SHA1', 'RSASSA-PKCS1-v1_5:MD5', 'RSASSA-PKCS1-v1_5:SHA512',
          'RSASSA-PSS:SHA256', 'NONE:SHA256', 'RSASSA-PKCS1-v1_5:NONE', 'NONE:NONE', 'HMAC:SHA256', 'rsassa-pkcs1-v1_5:sha256', 'RSASSA-PKCS1-v1_5:SHA256 ', 'ECDSA:SHA256', 'unsigned', '-', 'é']


def label_gen():
    for lab in LABELS:
        for change in ('holder', 'value', 'zeros', 'short', 'other key', 'foreign'):
            for via in (0, 1):
                yield (lab, change, via)


def label_one(ctx, case):
    lab, change, via = case
    cert = ac.base()
    cert.sign(ac.KEYS[0])
    if via:
        cert = A.AttributeCertificate.decode(bytearray(cert.encode()))
    cert.signature.sig_algo = lab
    if change == 'holder':
        cert.holder.uid = 'eve'
    elif change == 'value':
        cert.att_set[0].att_value = 'doctor'
    elif change == 'zeros':
        cert.signature.sig_value = bytes(128)
    elif change == 'short':
        cert.signature.sig_value = b's'
    elif change == 'other key':
        cert.issuer.pub_key = ac.PUB[1]
    else:
        cert.sign(ac.KEYS[1], lab)
    ctx.step()
    ctx.state(case)
    if verified(cert):
        raise Violation('a changed certificate still verifies', algorithm=lab, change=change, decoded=bool(via))


# -- certificates of every layout -------------------------------------------------------------------------------------------
def layout_gen():
    for n, m, d, names in product((0, 1, 2, 3), (0, 1, 2), (None, b'', b'd'), (0, 1)):
        yield (n, m, d, names)
    for algo in ('', 'X', 'RSA[1024]', 'x' * 300, 'RSASSA-PKCS1-v1_5:SHA256'):
        yield ('key algorithm', algo)
        yield ('signature algorithm', algo)


def laid_out(case):
    n, m, d, names = case
    cert = ac.base(att_set=[A.ACAttribute('user.a%d' % i, ac.AT.INT, str(i), 'n%d' % i if names else None, b'x' if names else None) for i in range(n)],
                   extensions=[A.ACExtensions('e%d' % i, b'q') for i in range(m)] or None, del_rules=None if d is None else A.ACDelegationRules(d))
    if not names:
        cert.issuer.name = cert.issuer.url = cert.holder.name = cert.rev_rules.url = None
    return cert


def layout_one(ctx, case):
    """every field that is there is vouched for, whatever else is absent"""
    if isinstance(case[0], str):
        cert = ac.base()
        if case[0] == 'key algorithm':
            cert.issuer.key_algo = cert.holder.key_algo = case[1]
            cert.sign(ac.KEYS[0])
        else:
            cert.sign(ac.KEYS[0], case[1])
        ctx.step()
        ctx.state(case)
        if not verified(cert):
            raise Violation('a freshly signed certificate does not verify', case=case)
        cert.issuer.uid += 'x'
        if verified(cert):
            raise Violation('a changed certificate still verifies', case=case)
        return
    cert = laid_out(case)
    cert.sign(ac.KEYS[0])
    ctx.state(case)
    if not verified(cert):
        raise Violation('a freshly signed certificate does not verify', case=case)
    targets = [('issuer', cert.issuer), ('holder', cert.holder), ('info', cert.info), ('rev', cert.rev_rules)]
    targets += [('att', a) for a in cert.att_set] + [('ext', e) for e in cert.extensions or []]
    if cert.del_rules is not None:
        targets.append(('del', cert.del_rules))
    before = ac.content(cert)
    for kind, o in targets:
        for f, _ in ac.FIELDS[kind][1]:
            old = getattr(o, f)
            if kind == 'issuer' and f == 'pub_key':
                news = [ac.PUB[1], b'']
            elif isinstance(old, int):
                news = [old + 1, old ^ 128] if f != 'att_type' else []
            elif f == 'att_type':
                news = [t for t in ac.AT if t is not old]
            elif isinstance(old, (bytes, bytearray)) or f == 'extra_bytes':
                news = [(old or b'') + b'\x00', b'\x00', None if f in ac.OPTIONAL else b'']
            else:
                news = [(old or '') + ' ', (old or '').upper(), 'other', (old or 'a')[:-1]]
            for new in news:
                setattr(o, f, new)
                ctx.step()
                same = ac.content(cert) == before
                if verified(cert) != same:
                    raise Violation('a changed certificate still verifies' if not same else 'an equal certificate does not verify', case=case, part=kind, field=f, value=new)
            setattr(o, f, old)
    if not verified(cert):
        raise Violation('the restored certificate does not verify', case=case)


LAYOUTS = list(product((0, 1, 2, 3), (0, 1, 2), (None, b'', b'd'), (0, 1)))
PARTS = ('issuer', 'holder', 'info', 'att_set', 'rev_rules', 'del_rules', 'extensions')


def graft_gen():
    for i in range(len(LAYOUTS)):
        for via in (0, 1):
            yield (i, via)


def graft_one(ctx, case):
    """the signature of a certificate of one layout under the parts of every other, and under each single part of the other"""
    i, via = case
    cert = laid_out(LAYOUTS[i])
    cert.sign(ac.KEYS[0])
    if via:
        cert = A.AttributeCertificate.decode(bytearray(cert.encode()))
    before = ac.content(cert)
    own = {p: getattr(cert, p) for p in PARTS}
    ctx.state(case)
    for j, other in enumerate(LAYOUTS):
        o = laid_out(other)
        # single parts: only where the other layout differs in no more than one choice
        near = sum(x != y for x, y in zip(LAYOUTS[i], other)) <= 1
        for parts in [PARTS] + [(p,) for p in PARTS if near]:
            for p in parts:
                setattr(cert, p, getattr(o, p))
            ctx.step()
            same = ac.content(cert) == before
            if verified(cert) != same:
                raise Violation('a certificate with replaced parts still verifies' if not same else 'an equal certificate does not verify', signed=LAYOUTS[i],
                                replaced=parts, by=other)
            for p in parts:
                setattr(cert, p, own[p])
    if not verified(cert):
        raise Violation('the restored certificate does not verify', layout=LAYOUTS[i])


# -- large certificates ------------------------------------------------------------------------------------------------------
SIZES = [(1, 60000), (3, 60000), (40, 100), (300, 10), (60, 5000)]


def large_gen():
    for i, (n, size) in enumerate(SIZES):
        for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)) | {2 ** b - 1 for b in range(9) if 2 ** b <= n}):
            for at in sorted({0, 1, size // 2, size - 1}):
                yield (i, k, at)
        for f in ('extension', 'rev', 'del', 'holder'):
            yield (i, f, 0)


def large_one(ctx, case):
    """a change anywhere in a large certificate, also far behind its beginning"""
    i, k, at = case
    n, size = SIZES[i]
    cert = ac.base(att_set=[A.ACAttribute('user.a%d' % j, ac.AT.STRING, 'v' * size) for j in range(n)], del_rules=A.ACDelegationRules(b'd' * 70))
    cert.sign(ac.KEYS[0])
    ctx.step(2)
    ctx.state(case)
    if not verified(cert):
        raise Violation('a freshly signed large certificate does not verify', attributes=n, size=size)
    if k == 'extension':
        cert.extensions[0].extra_bytes = b'xy'
    elif k == 'rev':
        cert.rev_rules.valid_before += 1
    elif k == 'del':
        cert.del_rules.extra_bytes = b'd' * 69 + b'e'
    elif k == 'holder':
        cert.holder.uid = 'eve'
    else:
        cert.att_set[k].att_value = 'v' * at + 'w' + 'v' * (size - at - 1)
    if verified(cert):
        raise Violation('a changed large certificate still verifies', attributes=n, size=size, changed=k, at=at)


# -- histories: the model knows which content was signed last, with which key ------------------------------------------------
ACTS = ['sign0', 'sign1', 'issuer0', 'issuer1', 'value', 'unvalue', 'late', 'unlate', 'reload', 'steal', 'export_sign0', 'drop']


def hist_gen():
    n = 4 if THOROUGH else 3
    for k in range(1, n + 1):
        for b in range(len(BASES)):
            for h in product(range(len(ACTS)), repeat=k):
                yield (b, h)


BASES = [dict(), dict(info=A.ACInformation(0, 1, ac.NOW)), dict(info=A.ACInformation(255, 0, 0), att_set=[A.ACAttribute('user.role', ac.AT.STRING, 'nurse')], extensions=None,
                                                               holder=A.ACHolder(b'k', 'RSA', 'eve'))]


OTHER = []


def hist_one(ctx, case):
    b, h = case
    cert = ac.base(**copy.deepcopy(BASES[b]))
    signed = None          # (content without signature, key)
    for a in h:
        act = ACTS[a]
        ctx.step()
        if act in ('sign0', 'sign1'):
            cert.sign(ac.KEYS[int(act[-1])])
            signed = (ac.content(cert, False), int(act[-1]))
        elif act == 'export_sign0':
            cert.export_ac(ac.EF.BYTES, True, ac.KEYS[0])
            signed = (ac.content(cert, False), 0)
        elif act in ('issuer0', 'issuer1'):
            cert.issuer.pub_key = ac.PUB[int(act[-1])]
        elif act == 'value':
            cert.att_set[0].att_value = 'doctor'
        elif act == 'unvalue':
            cert.att_set[0].att_value = 'nurse'
        elif act == 'late':
            cert.rev_rules.valid_before = 2 ** 32 - 1
        elif act == 'unlate':
            cert.rev_rules.valid_before = ac.NOW + 1000
        elif act == 'reload':
            before = ac.content(cert)
            cert = A.AttributeCertificate.decode(bytearray(cert.encode()))
            if ac.content(cert) != before:
                raise Violation('certificate changed by encoding and decoding', history=[ACTS[x] for x in h])
        elif act == 'steal':
            cert.signature = copy.copy(OTHER[0].signature)
            signed = (ac.content(OTHER[0], False), 0)
        elif act == 'drop':
            cert.signature = None
            signed = None
        body = ac.content(cert, False)
        want = signed is not None and signed[0] == body and cert.issuer.pub_key == ac.PUB[signed[1]]
        ctx.state((b, body, signed))
        if verified(cert) != want:
            raise Violation('signature verification does not match what was signed', history=[ACTS[x] for x in h], got=not want, expected=want)


# -- signing one certificate touches no other --------------------------------------------------------------------------------
def share_gen():
    for how in ('signature object', 'shallow copy', 'deep copy', 'signature copy'):
        for key in (0, 1):
            for changed in (False, True):
                for via in ('sign', 'export'):
                    for back in (False, True):
                        yield (how, key, changed, via, back)


def share_one(ctx, case):
    how, key, changed, via, back = case
    one = ac.base()
    one.sign(ac.KEYS[0])
    if how == 'shallow copy':
        two = copy.copy(one)
        two.info = copy.copy(one.info)
        two.issuer = copy.copy(one.issuer)
    elif how == 'deep copy':
        two = copy.deepcopy(one)
    else:
        two = ac.base()
        two.signature = one.signature if how == 'signature object' else copy.copy(one.signature)
    if back:
        one, two = two, one
    if changed:
        two.info.serial += 1
    two.issuer.pub_key = ac.PUB[key]
    before = ac.content(one)
    ctx.step(2)
    ctx.state(case)
    if via == 'sign':
        two.sign(ac.KEYS[key])
    else:
        two.export_ac(ac.EF.BASE64, True, ac.KEYS[key])
    if ac.content(one) != before or not verified(one):
        raise Violation('signing one certificate changed another', case=case)
    if not verified(two):
        raise Violation('a freshly signed certificate does not verify', case=case)


def run(chk):
    o = ac.base(holder=A.ACHolder(b'other', 'RSA', 'eve'))
    o.sign(ac.KEYS[0])
    OTHER.append(o)
    chk.bounds = {'large': SIZES, 'fields': 'every field of every part', 'history_length': 4 if THOROUGH else 3, 'actions': len(ACTS)}
    chk.assumptions = ['PKCS#1 v1.5 with SHA-256 is unforgeable', 'the algorithm label beside the signature value is not part of the signed content']
    chk.explore('every field', field_gen, field_one)
    chk.explore('structural changes', struct_gen, struct_one)
    chk.explore('names of the algorithm', label_gen, label_one)
    chk.explore('certificates of every layout', layout_gen, layout_one)
    chk.explore('signatures under other parts', graft_gen, graft_one)
    chk.explore('large certificates', large_gen, large_one)
    chk.explore('signing beside another certificate', share_gen, share_one)
    chk.explore('all histories', hist_gen, hist_one)
