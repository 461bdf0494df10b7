"""C17 different content never has the same encoding, and no encoding is the beginning of another: all small contents are compared."""
from itertools import product

from mc import ac
from mc.core import Violation, THOROUGH

A = ac.A
S = ['', 'a', 'ab', 'b', 'ba', 'abb'] if THOROUGH else ['', 'a', 'ab', 'b', 'ba']
OS = [None] + S[1:]
B = [b'', b'a', b'ab', b'b', b'\x00']
OB = [None, b'a', b'ab', b'\x00', b'\x00\x00']
T = [0, 1, 256, 65536]
DOMAIN = {
    'info': [[0, 1, 20, 255], [0, 1, 256, 2 ** 152, 2 ** 159], T + [2 ** 24]],
    'issuer': [B, S, S, OS, OS],
    'holder': [B, S, S, OS],
    'att': [S, list(ac.AT), OS, OS, OB],
    'rev': [T, T, OS, OB],
    'del': [[None] + [bytes([x]) * n for x in (0, 1, 97) for n in range(1, 20)]],
    'ext': [S, OB],
    'sig': [S[1:] + ['\x00'], [b'a', b'ab', b'b', b'\x00', b'ba']],
}


def part_gen():
    for k in DOMAIN:
        yield k


def compare(ctx, items, what):
    """items: (content, encoding). No two contents share an encoding and no encoding is a proper prefix of another."""
    seen = {}
    for c, e in items:
        ctx.step()
        old = seen.setdefault(e, c)
        if old != c:
            raise Violation('two different contents have the same encoding', kind=what, first=old, second=c)
    ctx.state((what, len(seen)))
    prev = None
    for e in sorted(seen):
        if prev is not None and e.startswith(prev):
            raise Violation('an encoding is the beginning of another', kind=what, first=seen[prev], second=seen[e])
        prev = e
    for c in set(seen.values()):
        ctx.state((what, c))
    return len(seen)


def part_one(ctx, kind):
    items = []
    for v in product(*DOMAIN[kind]):
        p = ac.make(kind, v)
        items.append((ac.part(kind, p), bytes(p.encode())))
    compare(ctx, items, kind)


def field_one(ctx, case):
    kind, f, what = case
    for rest in (False, True):
        items = []
        for v in ac.field_values(what, 4 if THOROUGH else 3) + (ac.ladder(what) if what in 'sb' else []):
            p = ac.field_part(kind, f, v, rest)
            items.append((ac.part(kind, p), bytes(p.encode())))
        if rest and ac.FIELDS[kind][1][f][0] in ac.OPTIONAL:
            p = ac.field_part(kind, f, None, rest)
            items.append((ac.part(kind, p), bytes(p.encode())))
        compare(ctx, items, '%s field %d' % (kind, f))


def certs(which):
    """whole certificates over small domains for two neighbouring parts, all parts tiny"""
    iss = A.ACIssuer(b'k', 'R', 'i', None, None)
    kw = dict(issuer=iss, holder=A.ACHolder(b'h', 'R', 'u'), info=A.ACInformation(1, 5, 9), att_set=[], rev_rules=A.ACRevocationRules(1, 2))

    def parts(kind, dom):
        return [ac.make(kind, v) for v in product(*dom)]

    small_iss = parts('issuer', [[b'', b'a', b'ab'], ['', 'a', 'ab'], ['', 'a', 'b'], [None, 'a', 'b'], [None, 'a']])
    small_hol = parts('holder', [[b'', b'a', b'ba'], ['', 'a'], ['', 'a', 'b'], [None, 'a']])
    atts = parts('att', [['', 'a', 'ab'], [ac.AT.NULL, ac.AT.INT], [None, 'a', 'b'], [None, 'a'], [None, b'\x00', b'a']])
    exts = parts('ext', [['', 'a', 'ab'], [None, b'\x00', b'a', b'ab']])
    dels = parts('del', [[None, b'\x00', b'a', b'ab', b'\x00\x00', b'\x01\x00', b'\x00\x01']])
    revs = parts('rev', [[0, 1], [0, 256], [None, 'a'], [None, b'\x00', b'a', b'\x01\x00']])
    infos = parts('info', [[0, 1], [0, 1, 256], [0, 1, 65536]])
    if which == 'issuer+holder':
        for a, b in product(small_iss, small_hol):
            yield dict(kw, issuer=a, holder=b)
    elif which == 'holder+info+atts':
        for a, b, c in product(small_hol, infos, [[]] + [[x] for x in atts[:6]]):
            yield dict(kw, holder=a, info=b, att_set=c)
    elif which == 'atts':
        for n in range(0, 3):
            for p in product(atts[::1 if THOROUGH or n < 2 else 3], repeat=n):
                yield dict(kw, att_set=list(p))
    elif which == 'atts+rev':
        for p, r in product([[]] + [[x] for x in atts] + [[x, y] for x in atts[::9] for y in atts[::7]], revs):
            yield dict(kw, att_set=p, rev_rules=r)
    elif which == 'rev+del+ext':
        for r, d, e in product(revs, dels + [None], [None] + [[x] for x in exts] + [[x, y] for x in exts for y in exts]):
            yield dict(kw, rev_rules=r, del_rules=d, extensions=e)
    elif which == 'exts':
        for n in range(0, 4):
            for p in product(exts, repeat=n):
                for d in dels[:4]:
                    yield dict(kw, extensions=list(p), del_rules=d)
    elif which == 'ext+signature':
        sigs = [None] + parts('sig', [['a', 'ab', '\x00'], [b'a', b'ba', b'\x00', b'\x00\x00\x00\x00']])
        for e, s, d in product([None] + [[x] for x in exts], sigs, dels):
            yield dict(kw, extensions=e, signature=s, del_rules=d)


WHICH = ['issuer+holder', 'holder+info+atts', 'atts', 'atts+rev', 'rev+del+ext', 'exts', 'ext+signature']


def cert_gen():
    yield from WHICH


def cert_one(ctx, which):
    items = []
    for kw in certs(which):
        c = A.AttributeCertificate(**kw)
        items.append((ac.content(c), bytes(c.encode())))
    compare(ctx, items, which)


def run(chk):
    chk.bounds = {'strings': S, 'bytes': [repr(b) for b in B], 'families': WHICH, 'unusual_characters': ac.STRANGE, 'unusual_length': 4 if THOROUGH else 3}
    chk.assumptions = ['absent and empty optional fields are the same content']
    chk.explore('one field, unusual values', ac.field_gen, field_one)
    chk.explore('parts', part_gen, part_one)
    chk.explore('certificates', cert_gen, cert_one)
