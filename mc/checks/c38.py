"""C38 stored policies and certificates: what other installations wrote is read with the same content, what is written now they can read."""
import base64
import json
import os

from mc import ref, hg, ac, wire
from mc.core import Violation, THOROUGH, VERIF
from mc.checks import c09, c16

A = ac.A
GOLDEN = json.load(open(os.path.join(VERIF, 'mc', 'golden.json')))
ENC = hg.ast.ASTEncoder


# -- policies ----------------------------------------------------------------------------------------------------------------------
def rotated(nodes):
    return nodes[len(nodes) // 2:] + nodes[:len(nodes) // 2]


LAYOUTS = [dict(), dict(first=1), dict(first=17, stride=3), dict(order=lambda n: n[::-1]), dict(first=40000, order=rotated), dict(first=256, order=lambda n: n[::-1]),
           dict(order=lambda n: n[1:] + n[:1])]


def exact_small(tree):
    """every float of the tree has an exact four byte form"""
    if isinstance(tree, tuple):
        if tree and tree[0] == 'float':
            import struct
            try:
                return struct.unpack('<f', struct.pack('<f', tree[2]))[0] == tree[2]
            except OverflowError:
                return False
        return all(map(exact_small, tree))
    return True


def policy_one(ctx, text):
    tree = ref.parse_text(text)
    want = hg.typed(tree)
    node = hg.must_parse(text)
    if hg.typed(hg.to_tree(node)) != want:
        raise Violation('wrong tree before encoding', policy=text[:300])
    enc = bytes(ENC.encode(node))
    ctx.step(2)
    try:
        got = wire.read_policy(enc)
    except wire.Malformed as e:
        raise Violation('another installation cannot read the written policy: %s' % e, policy=text[:300], written=enc[:200].hex())
    if not wire.same_records(got, wire.policy_records(tree)):
        raise Violation('another installation reads another policy than was written', policy=text[:300], written=enc[:200].hex(), got=str(got)[:500])
    for i, lay in enumerate(LAYOUTS):
        if i and lay.get('stride', 1) * len(enc) > 20000:
            continue
        for small in ((False, True) if i == 0 and exact_small(tree) else (False,)):
            raw = wire.write_policy(tree, small=small, **lay)
            ctx.step()
            try:
                dec = ENC.decode(raw)
                if i == 0:
                    ENC.decode(base64.b64encode(raw), True)
            except Exception as e:
                raise Violation('a policy written by another installation cannot be read', policy=text[:300], layout=i, raised=e, stored=raw[:200].hex())
            if hg.typed(hg.to_tree(dec)) != want:
                raise Violation('a policy written by another installation is read as another policy', policy=text[:300], layout=i, got=str(hg.to_tree(dec))[:500])
    ctx.state(text[:200])


def golden_policy_one(ctx, case):
    text, raw, b64 = case
    want = ref.strip_pos(ref.parse_text(text))
    for dec in (ENC.decode(bytes.fromhex(raw)), ENC.decode(bytearray.fromhex(raw)), ENC.decode(b64, True), ENC.decode(b64.encode(), True)):
        ctx.step()
        if hg.typed(ref.strip_pos(hg.to_tree(dec))) != hg.typed(want):
            raise Violation('a policy stored by an earlier version is read as another policy', policy=text, got=hg.to_tree(dec))
        for env in c09.ENVS:
            ctx.step()
            if hg.decide(dec, env) != hg.ref_eval(ref.parse_text(text), env):
                raise Violation('a policy stored by an earlier version decides differently', policy=text, attributes=env)
    ctx.state(text)


# -- certificates ------------------------------------------------------------------------------------------------------------------
def part_one(ctx, case):
    kind, v = case
    p = ac.make(kind, v)
    c = ac.part(kind, p)
    raw = wire.part_bytes(kind, c)
    ctx.step(2)
    ctx.state((kind, c))
    if bytes(p.encode()) != raw:
        raise Violation('%s is not written in the stored format' % kind, values=v, got=bytes(p.encode())[:200].hex(), expected=raw[:200].hex())
    buf = bytearray(raw)
    got = type(p).decode(buf)
    if ac.part(kind, got) != c or len(buf):
        raise Violation('%s written by another installation is read differently' % kind, values=v, got=ac.part(kind, got))


def field_one(ctx, case):
    kind, f, what = case
    for v in ac.field_values(what, 2) + (ac.ladder(what) if what in 'sb' else []):
        fields = list(ac._BASE[kind])
        fields[f] = v
        part_one(ctx, (kind, fields))


def stored(ctx, cert, what, key=None):
    """both directions for a whole certificate, signed by either side"""
    c = ac.content(cert, signature=False)
    key = ac.KEYS[0] if key is None else key
    raw = wire.write_certificate(c, key)
    ctx.step(4)
    plain = wire.write_certificate(c)
    cert.signature = None
    if bytes(cert.encode()) != plain:
        raise Violation('the certificate is not written in the stored format', case=what, got=bytes(cert.encode())[:300].hex(), expected=plain[:300].hex())
    signer = cert.issuer.pub_key == key.publickey().export_key('DER')
    try:
        got = A.AttributeCertificate.import_ac(raw, verify=signer)
    except Exception as e:
        raise Violation('a certificate written by another installation is refused', case=what, raised=e)
    if ac.content(got, signature=False) != c or bytes(got.signature.sig_value) != raw[-len(got.signature.sig_value):]:
        raise Violation('a certificate written by another installation is read differently', case=what, got=ac.content(got))
    for fmt, data in ((A.ExportFormat.BASE64, base64.b64encode(raw)), (A.ExportFormat.BASE64FULL, wire.envelope(raw, cert.info.version))):
        if ac.content(A.AttributeCertificate.import_ac(data, fmt, verify=signer)) != ac.content(got):
            raise Violation('an exported certificate of another installation is read differently', case=what, format=fmt.name)
    cert.sign(key)
    if not wire.rsa_good(key, wire.body_bytes(c), bytes(cert.signature.sig_value)):
        raise Violation('another installation cannot verify the signature', case=what)
    now = bytes(cert.encode())
    if now != raw:
        raise Violation('the signed certificate is not written in the stored format', case=what)
    if bytes(base64.b64decode(cert.export_ac(A.ExportFormat.BASE64))) != raw or cert.export_ac(A.ExportFormat.BASE64FULL) != wire.envelope(raw, cert.info.version):
        raise Violation('an exported certificate is not in the stored format', case=what)
    ctx.state(c)


def cert_gen():
    for case in c16.cert_gen():
        if 'sig' not in case:
            yield case


def cert_one(ctx, case):
    kw = {}
    for kind, v in case.items():
        p = ac.make(kind, v)
        if kind in c16.SLOT:
            kw[c16.SLOT[kind]] = p
        elif kind == 'att':
            kw['att_set'] = [p, A.ACAttribute('z', ac.AT.INT, '1')]
        else:
            kw['extensions'] = [p, A.ACExtensions('z', b'1')]
    stored(ctx, ac.base(**kw), case)


def atts_one(ctx, case):
    p, e = case
    stored(ctx, ac.base(att_set=[A.ACAttribute(*x) for x in p], extensions=[A.ACExtensions(*x) for x in e]), case)


def keys_gen():
    for k in range(len(ac.KEYS)):
        for pem in (False, True):
            for n in (0, 1, 5, 300):
                yield k, pem, n


def keys_one(ctx, case):
    """signatures of every key, key stored in either form"""
    k, pem, n = case
    pub = ac.KEYS[k].publickey().export_key('PEM' if pem else 'DER')
    cert = ac.base(k, issuer=A.ACIssuer(pub, 'RSA', 'aa', 'Auth', 'http://a'), att_set=[A.ACAttribute('user.a%d' % i, list(ac.AT)[i % 6], str(i)) for i in range(n)])
    stored(ctx, cert, case, ac.KEYS[k])
    raw = wire.write_certificate(ac.content(cert, signature=False), ac.KEYS[k])
    if A.AttributeCertificate.import_ac(raw, verify=True).verify_signature() is not True:
        raise Violation('a certificate signed by another installation does not verify', case=case)


def golden_cert_one(ctx, case):
    raw, full = bytes.fromhex(case[0]), case[1]
    for data, fmt in ((raw, A.ExportFormat.BYTES), (full, A.ExportFormat.BASE64FULL), (full.encode(), A.ExportFormat.BASE64FULL),
                      (base64.b64encode(raw), A.ExportFormat.BASE64)):
        got = A.AttributeCertificate.import_ac(data, fmt, verify=True)
        ctx.step()
        if wire.write_certificate(ac.content(got)) != raw or bytes(got.encode()) != raw or got.verify_signature() is not True:
            raise Violation('a certificate stored by an earlier version is read differently', format=fmt.name, got=ac.content(got))
    ctx.state(case[0])


def numbers(ctx):
    """numbers that stand for types and formats in stored data"""
    for enum, want in ((A.AttributeType, wire.ATYPE), (A.ExportFormat, wire.FORMAT)):
        got = {m.name: m.value for m in enum}
        for k, v in want.items():
            ctx.step()
            if got.get(k) != v:
                raise Violation('the number of a type or format changed', which=enum.__name__, name=k, got=got.get(k), expected=v)


def run(chk):
    chk.bounds = {'sentence_length': 8 if THOROUGH else 7, 'layouts': len(LAYOUTS), 'certificate_fields': 'all pairs', 'golden': 'policies and certificates written by the first commit'}
    chk.assumptions = ['records may be numbered and ordered freely in a stored policy; numbers may use any size that holds them when written (4 or 8 byte floats when read)']
    chk.one('numbers', numbers)
    chk.explore('golden policies', lambda: iter(GOLDEN['policies']), golden_policy_one, workers=1)
    chk.explore('golden certificates', lambda: iter(GOLDEN['certificates']), golden_cert_one, workers=1)
    chk.explore('policy values', c09.values_gen, policy_one)
    chk.explore('policy sizes', c09.sizes_gen, policy_one)
    chk.explore('all sentences', c09.sentence_gen, policy_one)
    chk.explore('parts: all pairs of fields', c16.part_gen, part_one)
    chk.explore('parts: one field over unusual values', ac.field_gen, field_one)
    chk.explore('keys', keys_gen, keys_one)
    chk.explore('certificates: all pairs of parts', cert_gen, cert_one)
    chk.explore('lists of attributes and extensions', c16.atts_gen, atts_one)
