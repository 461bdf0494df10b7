"""C03 the tree of an accepted policy has the grammar's structure (precedence, associativity, operands, positions)."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH
from mc.checks._grammar import Grammar
from mc.checks.c02 import TOKENS, FRAMES

ATT = ['user.a', 'object.b', 'env.C', 'admin.d1', 'connect.e_']
BOOLS = ['TRUE', 'false', 'UNDEF']
ATOMS = ['1', '"s"', 'NULL', '-2.5', '0', '""', '-0', '-0.0']
OPS = ['=', '!=', '<', '>=', 'IN', 'subset', '>', '<=']


def concrete(s):
    """Give every symbol of a sentence a concrete token that depends on its place, so operands cannot be mixed up."""
    out = []
    for k, c in enumerate(s):
        out.append({'a': ATT[k % 5], 'b': BOOLS[k % 3], 'i': ATOMS[k % 8], 'o': OPS[k % 8], '&': ('AND', 'and')[k % 2],
                    '|': ('OR', 'or')[k % 2], '!': ('NOT', 'not')[k % 2]}.get(c, c))
    return out


def braces(node, text):
    """a set knows where it starts and ends"""
    if isinstance(node, hg.ast.SetNode):
        s, e = node.start_token, node.end_token
        if s is None or e is None or (s.type.name, e.type.name) != ('LSET', 'RSET') or text[s.pos] != '{' or text[e.pos] != '}' or s.pos > e.pos or \
                any(not s.pos < n.tpos() < e.pos for n in node.children()):
            raise Violation('a set does not start and end at its braces', policy=text, got=(s, e))
        if text[s.pos + 1:e.pos].count(',') != max(0, node.num_nodes() - 1) and '"' not in text:
            raise Violation('a set does not hold what is between its braces', policy=text, got=(s, e))
    for n in node.children():
        braces(n, text)


def check_tree(ctx, text):
    want = ref.parse_text(text)
    for src in (0, 1):
        if src == 0:
            node = hg.must_parse(text)
        else:
            lx = hg.lexing.Lexer(text)
            lx.tokenize()
            try:
                node = hg.parsing.Parser(lx.toke_list(), text).parse()
            except hg.errors.HGPLError as e:
                raise Violation('valid policy rejected', policy=text, error=e)
        got = hg.to_tree(node)
        ctx.step(node.calc_num_nodes())
        braces(node, text)
        if hg.typed(got) != hg.typed(want):
            raise Violation('wrong tree', policy=text, got=got, expected=want)
    ctx.state(ref.strip_pos(want))


def sentence_gen():
    for s in sorted(Grammar(9 if THOROUGH else 8).sentences()):
        yield s


def sentence_one(ctx, s):
    toks = concrete(s)
    check_tree(ctx, ' '.join(toks))
    check_tree(ctx, '  ' + '   '.join(toks) + '\n')


def chains_gen():
    """every sequence of n binary connectives, optional NOT on any leaf, and every single parenthesised sub range"""
    n = 8 if THOROUGH else 6
    for k in range(1, n + 1):
        for conn in product(('AND', 'OR'), repeat=k):
            for neg in ([0] * (k + 1), [1] * (k + 1), [i % 2 for i in range(k + 1)]):
                leaves = [('NOT ' if neg[i] else '') + ATT[i % 5] for i in range(k + 1)]
                for i in range(0, k + 1):
                    for j in range(i, k + 1):
                        out = []
                        for m in range(k + 1):
                            out.append(('(' if m == i else '') + leaves[m] + (')' if m == j else ''))
                            if m < k:
                                out.append(conn[m])
                        yield ' '.join(out)


def two_parens_gen():
    """all pairs of parenthesised ranges (nested or disjoint) over chains of 5 leaves"""
    k = 4
    rng = [(i, j) for i in range(k + 1) for j in range(i, k + 1)]
    for conn in product(('AND', 'OR'), repeat=k):
        for (a, b), (c, d) in product(rng, rng):
            if not (a <= c and d <= b or b < c):
                continue
            for n1, n2 in product(('', 'NOT '), repeat=2):
                pre = [''] * (k + 1)
                post = [''] * (k + 1)
                pre[a] += n1 + '('
                post[b] = ')' + post[b]
                pre[c] += n2 + '('
                post[d] = ')' + post[d]
                out = []
                for m in range(k + 1):
                    out.append(pre[m] + ATT[m] + post[m])
                    if m < k:
                        out.append(conn[m])
                yield ' '.join(out)


def frames_gen():
    for f in FRAMES:
        for p in product(TOKENS, repeat=f.count('%s')):
            text = f % p
            try:
                ref.parse_text(text)
            except (ref.ParseErr, ref.LexErr):
                continue
            yield text


ELEMS = ['1', '1.0', '"1"', 'NULL', '"a"', '"A"', '2', '-1', '""']


def sets_gen():
    """every set constant over a small universe of elements, repeated elements included"""
    n = 6 if THOROUGH else 5
    for k in range(0, n + 1):
        for p in product(ELEMS[:9 if k < 5 else 6], repeat=k):
            yield 'user.a IN {' + ', '.join(p) + '}'
    for k in range(0, 13):
        for p in product(ELEMS[:2], repeat=k):
            yield '{' + ','.join(p) + '} SUBSET {' + ','.join(reversed(p)) + '}'
    for k in (20, 40, 64, 100, 255, 256, 257):
        for e in ELEMS:
            yield '{' + ','.join([e] * k) + '} = user.a'
            yield '{' + ','.join([e, '"z"'] * k) + '} = user.a'


def constants_gen():
    """constants and names of every length keep their text"""
    for n in list(range(0, 70)) + [100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000, 4000]:
        for s in ('x' * n, ' ' * n, 'x' * n + ' ', ' ' + 'x' * n, 'xY' * n, 'x' * n + '!', "'" + 'y' * n + "'"):
            yield 'user.a = "%s"' % s
            yield '{1, "%s", "%s"} SUBSET user.a' % (s, s)
        m = max(n, 1)
        yield 'user.%s = env.%s' % ('a' * m, 'bC' * m)
        yield 'admin.%s' % ('_' * m)
        yield 'connect.%s' % ('9' * m)
        yield 'user.a = %s' % ('1' * m)
        yield 'user.a = -%s.%s' % ('1' * min(m, 300), '5' * m)


def big_gen():
    for n in list(range(1, 41)) + [50, 60]:
        yield '(' * n + 'user.a' + ')' * n
        yield 'NOT (' * n + 'user.a = 1' + ')' * n
        yield '(user.a AND ' * n + 'TRUE' + ')' * n
        yield '(' * n + 'user.a' + ' OR TRUE)' * n
    for n in list(range(1, 41)) + [64, 65, 100, 127, 128, 129]:
        yield ' AND '.join('user.a%d' % i for i in range(n))
        yield ' OR '.join('user.a%d' % i for i in range(n))
        yield ' OR '.join('user.a%d AND env.b%d' % (i, i) for i in range(n))
    for n in list(range(1, 41)) + [100, 127, 128, 200, 255, 256, 257, 300, 1000]:
        yield 'user.a IN {' + ','.join(str(i) for i in range(n)) + '}'
        yield '{' + ','.join('"%d"' % i for i in range(n)) + '} SUBSET user.a AND TRUE'


def run(chk):
    chk.bounds = {'sentence_length': 9 if THOROUGH else 8, 'chain_connectives': 8 if THOROUGH else 6}
    chk.assumptions = ['mc/ref.py parse() (splitting at the last lowest-precedence operator) defines the structure']
    chk.explore('sizes', big_gen, check_tree)
    chk.explore('constants', constants_gen, check_tree)
    chk.explore('set constants', sets_gen, check_tree)
    chk.explore('chains with one group', chains_gen, check_tree)
    chk.explore('chains with two groups', two_parens_gen, check_tree)
    chk.explore('concrete tokens in frames', frames_gen, check_tree)
    chk.explore('all sentences', sentence_gen, sentence_one)
