"""C20 all export formats carry the same certificate, import of any of them gives it back and leaves its input alone: all combinations and histories."""
import base64
from itertools import product

from mc import ac
from mc.core import Violation, THOROUGH

A, EF = ac.A, ac.EF
IMPORTABLE = [EF.BYTES, EF.BASE64, EF.BASE64FULL]


def variants():
    big = [A.ACAttribute('a%d' % i, ac.AT.STRING, 'v%d' % i) for i in range(60)]
    sized = {'%d attributes' % n: dict(att_set=big[:n] if n <= 60 else [A.ACAttribute('a%d' % i, ac.AT.STRING, 'v' * n) for i in range(n)])
             for n in (0, 1, 2, 5, 20, 30, 100, 300)}
    sized.update({'value of %d' % n: dict(att_set=[A.ACAttribute('a', ac.AT.STRING, 'w' * n)]) for n in list(range(30, 100)) + [500, 1000, 5000, 20000, 65535]})
    return {
        **sized,
        'plain': dict(), 'version 0': dict(info=A.ACInformation(0, 1, ac.NOW)), 'version 255': dict(info=A.ACInformation(255, 2 ** 160 - 1, ac.NOW)),
        'empty': dict(att_set=[], extensions=None, issuer=A.ACIssuer(ac.PUB[0], 'RSA', 'i')),
        'unicode': dict(holder=A.ACHolder(b'\x00\xff', 'é', '日本', 'ü')), 'delegation': dict(del_rules=A.ACDelegationRules(b'\x00\x01')),
        'big': dict(att_set=big), 'newlines': dict(holder=A.ACHolder(b'\n\n', 'a\nb', '---- END', '\r\n')),
        'pad1': dict(rev_rules=A.ACRevocationRules(1, 2, 'a')), 'pad2': dict(rev_rules=A.ACRevocationRules(1, 2, 'ab')), 'pad3': dict(rev_rules=A.ACRevocationRules(1, 2, 'abc')),
    }


def gen():
    for v in variants():
        for signed in ('no', 'before', 'at export'):
            yield (v, signed)


def forms(fmt, out):
    """the accepted representations of an exported certificate"""
    if fmt is EF.BYTES:
        return [bytearray(out), bytes(out)]
    if fmt is EF.BASE64:
        b = bytes(out) if isinstance(out, (bytes, bytearray)) else out.encode()
        return [b, bytearray(b), b.decode()]
    return [out, out.encode(), bytearray(out.encode())]


def one(ctx, case):
    name, signed = case
    kw = variants()[name]
    exports = {}
    for fmt in EF:
        cert = ac.base(**kw)
        if signed == 'before':
            cert.sign(ac.KEYS[0])
        args = (fmt, True, ac.KEYS[0]) if signed == 'at export' else (fmt,)
        try:
            out = cert.export_ac(*args)
        except Exception as e:
            if fmt is EF.XML:
                continue
            raise Violation('export raised %s: %s' % (type(e).__name__, e), format=fmt, certificate=name)
        ctx.step()
        if fmt is EF.XML:
            raise Violation('an unsupported format was exported', format=fmt)
        exports[fmt] = out
        if (cert.signature is not None) != (signed != 'no'):
            raise Violation('signature present or absent against the request', format=fmt, signed=signed)
        if signed != 'no' and cert.verify_signature() is not True:
            raise Violation('exported certificate does not verify', format=fmt, certificate=name, signed=signed)
    want = ac.base(**kw)
    if signed != 'no':
        want.sign(ac.KEYS[0])
    full = ac.content(want)
    body = bytes(exports[EF.BYTES])
    if base64.b64decode(exports[EF.BASE64]) != body:
        raise Violation('base64 export holds other bytes than the byte export', certificate=name)
    lines = exports[EF.BASE64FULL].split('\n')
    if lines[0] != '---- BEGIN ATTRIBUTE CERTIFICATE ----' or lines[-1] != '---- END ATTRIBUTE CERTIFICATE ----' or \
       lines[2] != 'VERSION: %d' % want.info.version or base64.b64decode(lines[3]) != body:
        raise Violation('framed export is malformed', certificate=name, got=lines[:3])
    text = exports[EF.TEXT]
    for needle in ['%d' % want.info.serial, want.holder.uid, want.issuer.uid, '%d' % want.rev_rules.valid_before] + [a.att_id for a in want.att_set or []]:
        if needle not in text:
            raise Violation('text export lacks a field', certificate=name, field=needle)
    ctx.state(case)
    for fmt in IMPORTABLE:
        for src in forms(fmt, exports[fmt]):
            keep = bytes(src) if isinstance(src, bytearray) else src
            for verify in (False, True):
                ctx.step()
                try:
                    got = A.AttributeCertificate.import_ac(src, fmt, verify)
                except Exception as e:
                    if verify and signed == 'no':
                        continue
                    raise Violation('import raised %s: %s' % (type(e).__name__, e), format=fmt, input=type(src).__name__, certificate=name, verify=verify)
                if verify and signed == 'no':
                    raise Violation('an unsigned certificate passed verification', format=fmt, certificate=name)
                if (bytes(src) if isinstance(src, bytearray) else src) != keep:
                    raise Violation('import changed its input', format=fmt, input=type(src).__name__)
                if ac.content(got) != full:
                    raise Violation('imported certificate differs', format=fmt, certificate=name, got=ac.content(got), expected=full)
                for fmt2 in IMPORTABLE:
                    again = got.export_ac(fmt2)
                    if forms(fmt2, again)[0] != forms(fmt2, exports[fmt2])[0]:
                        raise Violation('exporting the imported certificate gives something else', first=fmt, then=fmt2, certificate=name)


def algo_gen():
    for fmt in (EF.BYTES, EF.BASE64, EF.BASE64FULL, EF.TEXT):
        for algo in ('RSASSA-PKCS1-v1_5:SHA256', 'other', 'x' * 200, '\u00e9'):
            for signed in (None, 'older', algo):
                for version in (1, 0, 255):
                    yield (fmt, algo, signed, version)


def algo_one(ctx, case):
    """the signature names the algorithm that was asked for, and replaces an older one"""
    fmt, algo, signed, version = case
    cert = ac.base(info=A.ACInformation(version, 5, ac.NOW))
    if signed:
        cert.sign(ac.KEYS[0], signed)
        cert.att_set[0].att_value = 'changed'
    ctx.step()
    ctx.state(case)
    out = cert.export_ac(fmt, True, ac.KEYS[0], algo)
    if cert.signature.sig_algo != algo or cert.verify_signature() is not True:
        raise Violation('export with a signature does not sign as asked for', case=case, got=cert.signature.sig_algo)
    if fmt is EF.TEXT:
        if algo not in out:
            raise Violation('the text lacks the algorithm', case=case)
    elif ac.content(A.AttributeCertificate.import_ac(out, fmt, True)) != ac.content(cert):
        raise Violation('imported certificate differs', case=case)


def bad_gen():
    for fmt in EF:
        yield ('nokey', fmt)
    for fmt in (EF.XML, EF.TEXT, None, 'BYTES', 99):
        yield ('import', fmt)
    for fmt in (EF.XML, None, 'BYTES', 99):
        yield ('export', fmt)


def bad_one(ctx, case):
    what, fmt = case
    ctx.step()
    ctx.state(repr(case))
    cert = ac.base()
    cert.sign(ac.KEYS[0])
    try:
        if what == 'nokey':
            cert.export_ac(fmt, True, None)
        elif what == 'export':
            cert.export_ac(fmt)
        else:
            A.AttributeCertificate.import_ac(cert.export_ac(EF.TEXT), fmt)
    except Exception:
        return
    raise Violation('%s with %r succeeded' % (what, fmt))


ACTS = ['bytes', 'base64', 'full', 'sign', 'edit', 'unedit', 'text']


def hist_gen():
    for n in range(1, 6 if THOROUGH else 5):
        yield from product(range(len(ACTS)), repeat=n)


def hist_one(ctx, h):
    """chains of export and import in any format between changes and signatures"""
    cert = ac.base()
    signed = None
    for a in h:
        act = ACTS[a]
        before = ac.content(cert)
        ctx.step()
        if act in ('bytes', 'base64', 'full'):
            fmt = {'bytes': EF.BYTES, 'base64': EF.BASE64, 'full': EF.BASE64FULL}[act]
            cert = A.AttributeCertificate.import_ac(cert.export_ac(fmt), fmt)
            if ac.content(cert) != before:
                raise Violation('certificate changed by export and import', history=[ACTS[x] for x in h])
        elif act == 'text':
            cert.export_ac(EF.TEXT)
            if ac.content(cert) != before:
                raise Violation('text export changed the certificate', history=[ACTS[x] for x in h])
        elif act == 'sign':
            out = cert.export_ac(EF.BYTES, True, ac.KEYS[0])
            signed = ac.content(cert, False)
            if ac.content(A.AttributeCertificate.import_ac(out, EF.BYTES, True)) != ac.content(cert):
                raise Violation('signed export differs from the certificate', history=[ACTS[x] for x in h])
        else:
            cert.att_set[1].att_value = '8' if act == 'edit' else '7'
        ctx.state((ac.content(cert, False), signed))
        if cert.verify_signature() != (signed is not None and signed == ac.content(cert, False)):
            raise Violation('verification after a chain of exports', history=[ACTS[x] for x in h])


def run(chk):
    chk.bounds = {'certificates': len(variants()), 'formats': 5, 'history_length': 5 if THOROUGH else 4}
    chk.explore('all formats, inputs and signing modes', gen, one)
    chk.explore('signature algorithms', algo_gen, algo_one)
    chk.explore('requests that cannot be met', bad_gen, bad_one)
    chk.explore('all export and import chains', hist_gen, hist_one)
