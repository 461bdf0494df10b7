"""C09 encoding a policy tree and decoding it gives the same policy: structure, values, positions and decisions."""
import base64
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH
from mc.checks._grammar import Grammar
from mc.checks.c03 import concrete
from mc.checks import c07

ENC = None
ENVS = c07.ENVS + [{'user.a': ('BOOL', True), 'env.c': ('BOOL', False), 'object.b': ('SET', [1, 'a']), 'admin.d1': ('STRING', 's'),
                    'connect.e_': ('FLOAT', -2.5)}]


def roundtrip(ctx, text, node=None, decisions=True):
    want = ref.parse_text(text) if node is None else None
    if node is None:
        node = hg.must_parse(text)
    before = hg.typed(hg.to_tree(node))
    if want is not None and before != hg.typed(want):
        raise Violation('wrong tree before encoding', policy=text[:300])
    enc = bytes(hg.ast.ASTEncoder.encode(node))
    b64 = hg.ast.ASTEncoder.encode(node, True)
    ctx.step(2)
    if base64.b64decode(b64) != enc:
        raise Violation('base64 form is not the base64 of the byte form', policy=text[:300])
    for src, flag in ((enc, False), (bytearray(enc), False), (b64, True), (b64.decode() if isinstance(b64, bytes) else b64, True)):
        dec = hg.ast.ASTEncoder.decode(src, flag)
        ctx.step()
        got = hg.typed(hg.to_tree(dec))
        if got != before:
            raise Violation('decoded policy differs', policy=text[:300], got=str(got)[:800], expected=str(before)[:800], base64=flag)
        if bytes(hg.ast.ASTEncoder.encode(dec)) != enc:
            raise Violation('encoding the decoded policy gives other bytes', policy=text[:300])
        if dec.calc_num_nodes() != node.calc_num_nodes():
            raise Violation('number of nodes differs', policy=text[:300])
        if not (dec == node) or (dec != node):
            raise Violation('decoded policy does not compare equal', policy=text[:300])
    if hg.typed(hg.to_tree(node)) != before:
        raise Violation('encoding changed the tree', policy=text[:300])
    if decisions:
        for env in ENVS:
            a, b = hg.decide(node, env), hg.decide(dec, env)
            ctx.step()
            if a != b:
                raise Violation('decoded policy decides differently', policy=text[:300], attributes=env, got=b, expected=a)
    ctx.state(ref.strip_pos(want) if want else text[:50])
    return enc


def sentence_gen():
    for s in sorted(Grammar(8 if THOROUGH else 7).sentences()):
        yield ' '.join(concrete(s))


INTS = sorted({s * (2 ** k + d) for k in list(range(0, 70)) + [79, 80, 127, 128, 255, 256, 511, 512, 1023, 1024, 2039, 2040, 2047, 2048, 4096]
               for d in (-1, 0, 1) for s in (1, -1)})
FLOATS = ['0.0', '-0.0', '1.0', '0.1', '-0.1', '0.30000000000000004', '3.141592653589793', '1.5', '16777217.0', '9007199254740993.0',
          '123456789.123456789', '0.000000000000000000000000001', '1' + '0' * 40 + '.0', '1' + '0' * 308 + '.0', '1' + '0' * 309 + '.0', '-2.5',
          '0.' + '0' * 320 + '1', '2147483648.5', '33554433.25', '65504.1', '100000.001']


def values_gen():
    for v in INTS:
        yield 'user.a = %d' % v
    for v in FLOATS:
        yield 'user.a > %s' % v
        yield 'user.a IN {%s, 1}' % v
    for i in range(200 if not THOROUGH else 5000):
        yield '%d.%d < user.a' % (i * 7919 % 1000, i * 104729 % 99991)
    for c in range(32, 127):
        if c != 34:
            yield 'user.a = "%s"' % chr(c)
            yield 'user.a = "x%sy"' % chr(c)
    for w in ('NULL', 'TRUE', 'UNDEF', 'user.a', 'AND', ' ', '  a ', "'", '\\', '{1}', '0', '1.5'):
        yield 'user.a = "%s"' % w
    for a, b in product(['0', '""', 'NULL', '{}', '{0}', '{""}', '{NULL}', '1', '"NULL"', '{"", 0, NULL}', '1.0', '"1"'], repeat=2):
        for op in ('=', '!=', 'IN', 'SUBSET', '<'):
            yield a + ' ' + op + ' ' + b


def strings_gen():
    for c in ('\0', '\t', '\n', '\r', ' ', '\x01', '\x7f', '\x85', '\xa0', '\u2028', '\ufeff', 'é', '日', '\U0001f600', 'e\u0301', '"'):
        for t in ('%s', '%s%s', 'x%s', '%sx', 'x%sy', 'x%s%s', '%s%s%s%s'):
            yield t.replace('%s', c)


def strings_one(ctx, s):
    """strings that a policy built by a program can hold, whatever their characters"""
    T, A = hg.lexing.Token, hg.ast
    for op in ('=', 'IN'):
        att = A.UsrAttNode(T(hg.TT.USR_ATT, 0, 'a'))
        val = A.StringValNode(T(hg.TT.STRING, 9, s))
        roundtrip(ctx, repr(s), A.OpNode(T(hg.TT.OP, 7, op), att, val if op == '=' else A.SetNode(T(hg.TT.LSET, 8, '{'), T(hg.TT.RSET, 30, '}'), [val, A.StringValNode(T(hg.TT.STRING, 20, 'x'))])))


LEN = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4095, 4096, 4097, 32767,
                            32768, 40000, 65000]


def sizes_gen():
    for n in LEN:
        yield 'user.a = "%s"' % ('x' * n)
        yield 'user.%s = 1' % ('n' * (n + 1))
        yield ' ' * n + 'user.a' + ' ' * min(n, 300) + '=' + '1'
        if n <= 4097:
            yield 'user.a IN {' + ','.join(str(i % 300) for i in range(n)) + '}'
        if 1 <= n <= 129:
            yield ' AND '.join('user.a%d' % i for i in range(n))
            yield ' OR '.join('user.a%d = %d' % (i, i) for i in range(n))
        if 1 <= n <= 65:
            yield '(' * n + 'TRUE' + ' AND user.b)' * n
            yield 'NOT (' * n + 'user.b' + ')' * n
            yield '(user.b AND ' * n + 'TRUE' + ')' * n


def sizes_one(ctx, text):
    roundtrip(ctx, text, decisions=text.count(' ') < 200)


def cut_gen():
    for t in ('user.a', 'TRUE', 'user.a = 1', '{} = {1, "x", NULL}', 'user.a > 1.5 OR NOT (env.b IN {"aa"})', 'NULL = NULL', '"" = ""'):
        n = len(hg.ast.ASTEncoder.encode(hg.must_parse(t)))
        for i in range(n):
            yield (t, i)


def cut_one(ctx, case):
    """a truncated encoding is refused, never taken for another policy"""
    text, i = case
    enc = bytes(hg.ast.ASTEncoder.encode(hg.must_parse(text)))[:i]
    ctx.step()
    ctx.state(case)
    try:
        dec = hg.ast.ASTEncoder.decode(enc)
    except Exception:
        return
    raise Violation('truncated encoding was decoded', policy=text, length=i, got=dec)


def shapes_gen():
    """trees with equal tokens in different arrangement must not be confused: all pairs have different encodings"""
    ss = [' '.join(concrete(s)) for s in sorted(Grammar(6).sentences())]
    yield ss


def shapes_one(ctx, texts):
    seen = {}
    for t in texts:
        enc = bytes(hg.ast.ASTEncoder.encode(hg.must_parse(t)))
        tree = hg.typed(hg.to_tree(hg.must_parse(t)))
        ctx.step()
        if seen.setdefault(enc, tree) != tree:
            raise Violation('two policies with the same encoding', policy=t)


def run(chk):
    chk.bounds = {'sentence_length': 8 if THOROUGH else 7, 'int_bits': 4096, 'string_length': 65000, 'nodes': 4098}
    chk.assumptions = ['values up to 65535 bytes, positions up to 65535 (the format has 16 bit fields)']
    chk.explore('values', values_gen, roundtrip)
    chk.explore('strings', strings_gen, strings_one)
    chk.explore('sizes', sizes_gen, sizes_one)
    chk.explore('truncations', cut_gen, cut_one)
    chk.explore('distinct', shapes_gen, shapes_one, workers=1)
    chk.explore('all sentences', sentence_gen, roundtrip)
