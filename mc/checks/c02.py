"""C02 the parser accepts exactly the sentences of the policy grammar."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH
from mc.checks._grammar import Grammar

TEXT = {'a': 'user.x', 'b': 'TRUE', 'i': '1', '{': '{', '}': '}', ',': ',', '(': '(', ')': ')', 'o': '=', '&': 'AND',
        '|': 'OR', '!': 'NOT'}
FULL = 'abi{},()o&|!'
G = None


def sym_gen(alphabet, lo, hi):
    def gen():
        for n in range(lo, hi + 1):
            for p in product(alphabet, repeat=n):
                yield ''.join(p)
    return gen


def verdict(ctx, text, want, via_list=False):
    ctx.step(len(text))
    try:
        if via_list:
            lx = hg.lexing.Lexer(text)
            lx.tokenize()
            p = hg.parsing.Parser(lx.toke_list(), text)
        else:
            p = hg.parsing.Parser(hg.lexing.Lexer(text))
        n = p.parse()
        ok = True
    except hg.errors.ParserError:
        ok = False
    except Exception as e:
        raise Violation('parser raised %s instead of a parser error: %s' % (type(e).__name__, e), policy=text)
    if ok != want:
        raise Violation('valid policy rejected' if want else 'text outside the grammar accepted', policy=text)
    if ok and not isinstance(n, hg.ast.ASTNode):
        raise Violation('parse() did not return a tree', policy=text, got=n)


def begun_gen():
    for t in ('TRUE', 'user.a = 1', 'NOT (user.a IN {1, "b"} OR env.c)', 'user.a =', 'TRUE TRUE', '{1} = {}', '(TRUE', ''):
        for k in range(0, 18):
            yield (t, k)


def begun_one(ctx, case):
    """a lexer that has already handed out tokens, a list of tokens that its owner changes, parsing again"""
    text, k = case
    try:
        ref.parse_text(text)
        want = True
    except ref.ParseErr:
        want = False
    for kind in ('lexer', 'list', 'again'):
        lx = hg.lexing.Lexer(text)
        for _ in range(k):
            lx.next()
        got = []
        try:
            if kind == 'list':
                lx.tokenize()
                toks = lx.toke_list()
                p = hg.parsing.Parser(toks, text)
                del toks[-1 - k % len(toks):]
            else:
                p = hg.parsing.Parser(lx)
            for _ in range(2 if kind == 'again' else 1):
                ctx.step()
                try:
                    p.parse()
                    got.append(True)
                except hg.errors.ParserError:
                    got.append(False)
        except Exception as e:
            raise Violation('parser raised %s instead of a parser error: %s' % (type(e).__name__, e), policy=text, tokens_read_before=k, source=kind)
        if set(got) != {want}:
            raise Violation('valid policy rejected' if want else 'text outside the grammar accepted', policy=text, tokens_read_before=k, source=kind)
        if p.policy() != text:
            raise Violation('the parser names another policy', policy=text, got=p.policy())
    ctx.state(case)


def sym_one(ctx, s):
    want = s in G
    ctx.state(s if want else ('rejected', s[:4]))
    verdict(ctx, ' '.join(TEXT[c] for c in s), want)


# every concrete token in every role: all tokens x all sentence frames
TOKENS = ['user.x', 'object.x', 'env.x', 'admin.x', 'connect.x', 'TRUE', 'FALSE', 'UNDEF', '0', '1', '-1', '-0', '1.5', 'user.null', 'env.not', '""', '"s"', 'NULL',
          '{}', '{1}', '{', '}', ',', '(', ')', '=', '!=', '<', '<=', '>', '>=', 'IN', 'SUBSET', 'AND', 'OR', 'NOT', '']
FRAMES = ['%s', '%s %s', '%s %s %s', '%s = %s', '( %s )', 'NOT %s', 'NOT ( %s )', '{ %s } = 1', '1 IN { %s , %s }', '{ 1 %s 2 } = %s',
          'TRUE %s TRUE', 'user.a %s user.b', 'TRUE AND %s', 'TRUE OR %s', '%s AND TRUE', '%s OR TRUE', 'user.a = %s AND %s', 'NOT %s = %s',
          'NOT NOT %s', '( %s ) = %s', '%s IN %s', '%s SUBSET %s', '(TRUE) %s (FALSE)', '%s = %s = 1', '( %s AND %s )', '%s AND NOT %s',
          '{ { %s } } = 1', 'TRUE %s', '( ( %s ) )', 'NOT ( %s OR %s )']


def frames_gen():
    for f in FRAMES:
        n = f.count('%s')
        for p in product(TOKENS, repeat=n):
            yield (f, p)


def frames_one(ctx, case):
    f, p = case
    text = f % p
    try:
        ref.parse_text(text)
        want = True
    except (ref.ParseErr, ref.LexErr):
        want = False
    ctx.state((f, want))
    verdict(ctx, text, want, via_list=len(p) == 1)


def long_gen():
    sizes = list(range(1, 41)) + [60, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025]
    for n in sizes:
        yield ' AND '.join(['user.a'] * n)
        yield ' OR '.join(['NOT user.a'] * n)
        yield ' AND '.join(['user.a'] * n) + ' AND'
        yield ' OR '.join(['(user.a)'] * n)
        yield ' AND '.join(['NOT (user.a = "s")'] * n)
        yield ' OR '.join(['user.a IN {1, 2}'] * n)
        yield ' OR '.join(['user.a'] * n) + ' AND OR TRUE'
        yield 'user.a IN {' + ','.join(['1'] * n) + '}'
        yield 'user.a IN {' + ','.join(['"x"'] * n) + ',}'
        yield 'user.a IN {' + ','.join(['1'] * n)
        yield '{' + ' '.join(['1'] * n) + '} = user.a'
        if n <= 65:
            yield '(' * n + 'TRUE' + ')' * n
            yield '(' * n + 'TRUE' + ')' * (n - 1)
            yield '(' * (n - 1) + 'TRUE' + ')' * n
            yield 'NOT (' * n + 'user.a = 1' + ')' * n
            yield 'NOT ' * n + 'TRUE'
            yield '(TRUE AND ' * n + 'FALSE' + ')' * n
            yield '(TRUE OR ' * n + 'FALSE' + ')' * n + ')'


def behind_gen():
    """all short token strings behind long beginnings of a policy"""
    for s in sym_gen(FULL, 1, 4)():
        for n in (0, 1, 2):
            yield (s, n)


BEFORE = ['user.some_long_name = "some long value" AND ' * 9, ' ' * 5000, '(' * 20 + 'env.time > 1' + ')' * 20 + ' OR ']


def behind_one(ctx, case):
    s, n = case
    want = s in G
    ctx.state((s, n) if want else ('rejected', s[:3], n))
    verdict(ctx, BEFORE[n] + ' '.join(TEXT[c] for c in s), want)


def long_one(ctx, text):
    try:
        ref.parse_text(text)
        want = True
    except (ref.ParseErr, ref.LexErr):
        want = False
    ctx.state((text[:20], want))
    verdict(ctx, text, want)
    verdict(ctx, text, want, via_list=True)


def run(chk):
    global G
    n = 6 if THOROUGH else 5
    G = Grammar(9 if THOROUGH else 8).sentences()
    # the two reference definitions of the language agree (generation from productions, splitting parser)
    for s in G:
        if len(s) <= 7:
            ref.parse_text(' '.join(TEXT[c] for c in s))
    chk.bounds = {'token classes': len(FULL), 'max_tokens_full': n, 'max_tokens_reduced': 9 if THOROUGH else 8,
                  'sentences_of_the_grammar': len(G)}
    chk.assumptions = ['concrete tokens of one class are interchangeable for acceptance beyond the frames family']
    chk.explore('lengths', long_gen, long_one)
    chk.explore('lexers that were used before', begun_gen, begun_one)
    chk.explore('behind long beginnings', behind_gen, behind_one)
    chk.explore('concrete tokens in frames', frames_gen, frames_one)
    chk.explore('all token strings', sym_gen(FULL, 0, n), sym_one)
    hi = 9 if THOROUGH else 7
    chk.explore('all conditions', sym_gen('a!()&|', n + 1, hi), sym_one)
    chk.explore('all comparisons', sym_gen('ai{},o', n + 1, hi), sym_one)
    chk.explore('all sentences', lambda: iter(sorted(G)), sym_one)
