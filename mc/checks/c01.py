"""C01 tokens are exactly those of the lexical grammar, for every text."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH, call

CHARS = ['a', 'i', 'n', 'N', 'o', 'r', '1', '0', '.', '-', '"', '_', '!', '=', '<', '>', '{', '}', '(', ')', ',', ' ',
         '\t', '#']
PIECES = ['user', 'USER', 'object', 'env', 'admin', 'connect', 'usr', 'user.', 'user.a', 'User.A_1', 'object.b',
          'env.C', 'admin._d', 'connect.9', 'group.x', 'and', 'AND', 'Or', 'not', 'NOT', 'in', 'IN', 'subset',
          'SubSet', 'true', 'FALSE', 'undef', 'Null', 'xor', '0', '1', '-1', '12', '1.5', '-0.25', '007', '1.', '.5',
          '"', '"a"', '""', '"x y!#~"', '"a', '=', '!=', '!', '<', '<=', '>', '>=', '{', '}', ',', '(', ')', '-', '_',
          '.', ' ', '\n']


def compare(ctx, text, exact=True):
    kind, a, b = hg.lex(text)
    ctx.step(len(text) + 1)
    if kind == 'crash':
        raise Violation('lexer raised %s instead of a lexer error: %s' % (type(a).__name__, a), text=text)
    if not exact:
        if kind == 'ok':
            last = -1
            for t in a[1:]:
                if not (last < t[1] <= len(text)):
                    raise Violation('token positions are not increasing', text=text, tokens=a)
                last = t[1]
            if a[0] != ('START', 0, None) or a[-1] != ('END', len(text), None):
                raise Violation('missing START or END', text=text, tokens=a)
        ctx.state((kind,))
        return kind
    try:
        want = ref.lex(text)
    except ref.LexErr:
        want = None
    ctx.state(tuple(t[0] for t in want) if want else ('error', text[:2]))
    if want is None:
        if kind == 'ok':
            raise Violation('text that is not in the lexical grammar was tokenised', text=text, got=a)
        return
    if kind != 'ok':
        raise Violation('valid text rejected by the lexer', text=text, error=a)
    if hg.typed(tuple(a)) != hg.typed(tuple(want)):
        raise Violation('wrong tokens', text=text, got=a, expected=want)
    atts = [t for t in want if t[0] in ref.ATTS]
    if b != atts:
        raise Violation('wrong attribute list', text=text, got=b, expected=atts)


def chars_gen(n):
    def gen():
        for k in range(0, n + 1):
            for p in product(CHARS, repeat=k):
                yield ''.join(p)
    return gen


def pieces_gen(n):
    def gen():
        for k in range(1, n + 1):
            for p in product(PIECES, repeat=k):
                yield ''.join(p)
                if k > 1:
                    yield ' '.join(p)
    return gen


CONTEXTS = ['%s', 'user.%s', 'user.a%s', '1%s', '"%s"', '"a%s', '%s.a', 'tr%sue', '%s%s', '1.%s', '-%s', 'user%s.a']


def unicode_gen():
    limit = 0x30000 if THOROUGH else 0x10000
    for cp in list(range(0, limit)) + [0x1F600, 0x1D7CE, 0xE0001, 0x10FFFF]:
        for c in CONTEXTS:
            yield (cp, c)


def unicode_one(ctx, case):
    cp, c = case
    ch = chr(cp)
    text = c.replace('%s', ch)
    kind = compare(ctx, text, exact=cp < 128)
    if cp >= 128 and c.startswith('"') and kind == 'ok':
        raise Violation('string constants hold printable ASCII only', text=text)


def cases(word):
    letters = [(c.lower(), c.upper()) if c.isalpha() else (c,) for c in word]
    return (''.join(p) for p in product(*letters))


def keywords_gen():
    for w in ref.KEYWORD:
        for v in cases(w):
            for ctx in ('%s', ' %s ', '%s1', '%s_', '(%s)', '%s"a"', '%s.a', 'user.%s', 'user.a %s user.b', '1%s 2', '%s%s'):
                yield ctx.replace('%s', v)
    for w in ref.ATT_PREFIX:
        for v in cases(w):
            for ctx in ('%s', '%s.a', '%s.A b', '%s.1', '%s._', '%s .a', '%s. a', '%s.a.b', 'x%s.a', '%sx.a', '%s.user', '%s.AND', '%s.a=1'):
                yield ctx.replace('%s', v)


SYNONYMS = """undefined undef unknown none nil null nulls empty void nan inf infinity yes no on off t f y n true1 truth falsehood
eq ne neq lt gt le ge lte gte equals is isnt like contains has includes member memberof elementof inside within subsetof subseteq
superset supset psubset sub set union intersect all any exists xor nand nor andor andnot notin not_in implies iff if then else
eval all one zero user users usr usrs subject subjects sub object objects obj objs resource resources res env environment envs
environ context ctx admin adm admins administrator administrative connect con conn connection connections session sess action
policy permit deny hello self this""".split()
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def edits(w):
    """every text one edit away from the word"""
    out = set()
    for i in range(len(w) + 1):
        for c in LETTERS + '_0-.':
            out.add(w[:i] + c + w[i:])
            if i < len(w):
                out.add(w[:i] + c + w[i + 1:])
        if i < len(w):
            out.add(w[:i] + w[i + 1:])
        if i + 1 < len(w):
            out.add(w[:i] + w[i + 1] + w[i] + w[i + 2:])
    return sorted(out)


def words_gen():
    """words that are not keywords, though they look like it; alone and where an operator, a constant or a prefix is expected"""
    seen = set(edits_all()) | set(SYNONYMS)
    for n in (1, 2, 3):
        seen |= set(''.join(p) for p in product(LETTERS, repeat=n))
    for w in sorted(seen):
        for f in ('%s', '%s.a', 'user.a %s user.b', '{%s}', '%s.%s'):
            yield f.replace('%s', w)
        yield w.upper()
        yield w.capitalize() + '.A'


def edits_all():
    for w in list(ref.KEYWORD) + list(ref.ATT_PREFIX):
        for e in edits(w.lower()):
            yield e


SPECIAL = [' ', '  ', '\t', '!', '#', '~', '\\', "'", '%', '&', '.', ',', '-', '0', 'Z', '_', '{', ')', '=', 'NOT', ' AND ', '//', '--', '/*', '\\"', '\n',
           '\x7f', '\x00', '\xe9']


def string_gen():
    """string constants of every length with a special piece at the start, in the middle, at the end, at both ends, everywhere"""
    for n in LENGTHS[:-3]:
        for s in SPECIAL:
            h = n // 2
            for body in (s + 'x' * n, 'x' * n + s, 'x' * h + s + 'x' * (n - h), s + 'x' * n + s, s * n):
                yield '"' + body + '"'
            if n < 40:
                yield 'user.a="' + 'x' * n + s + '"AND TRUE'
        yield '"' + ('aB' * n)[:n] + '"'
        yield '"' + ('0123456789' * n)[:n] + '"'
        yield '"' + '0' * n + '1"'
        yield 'user.' + ('aB_1' * n)[:n]
        yield 'ENV.' + ('1_Zz' * n)[:n] + ' != OBJECT.' + ('z9' * n)[:n]


def numbers_gen():
    ints = ['0', '1', '9', '10', '007', '2147483647', '2147483648', '4294967296', '9007199254740993',
            '9223372036854775807', '9223372036854775808', '1' + '0' * 30, '9' * 100, '1' * 4300, '1' * 4301, '0' * 4301]
    ints += ['1234567890123456789012345'[:k] for k in range(1, 26)]
    fracs = ['', '.', '.0', '.5', '.25', '.1', '.333333333333333333333', '.0000000001', '.00', '..1', '.1.', '.1.2',
             '.' + '0' * 400 + '1', '.a', '. 5', '.-1']
    for i, f in product(ints, fracs):
        for s in ('', '-', '--', '- '):
            for suffix in ('', ' ', 'a', '-1', '=1', '.', '"'):
                yield s + i + f + suffix


LENGTHS = list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096,
                                65535, 65536, 70000]


def long_gen():
    for n in LENGTHS:
        yield '"' + 'x' * n + '"'
        yield 'user.' + 'a' * n
        yield 'user.' + '_' * n + '=1'
        yield ' ' * n + '1' + ' ' * n
        yield 'user.a' + '\n' * n + 'IN' + '\t' * n + '{1}'
        yield '{' + ','.join(['1'] * n) + '}'
        yield '(' * n + 'TRUE' + ')' * n
        yield 'z' * n
        yield ' AND '.join(['user.a'] * n)
        yield '"' + 'x' * n


def step_gen():
    texts = ['', ' ', 'user.a', ' user.a = 1 ', 'user.a IN {1, "b", NULL} AND NOT (TRUE OR env.x >= -1.5)', '1 ! 2', 'user.a user.b foo',
             '"abc', '( ) , } {']
    for t in texts:
        for k in range(0, 24):
            for extra in range(0, 3):
                yield (t, k, extra)


def step_one(ctx, case):
    """next() called k times, then tokenize(), then next() again: the same tokens as in one go."""
    text, k, extra = case
    try:
        want = ref.lex(text)
    except ref.LexErr:
        want = None
    lx = hg.lexing.Lexer(text)
    got = [hg.tok(lx.current())]
    err = None
    try:
        for _ in range(k):
            t = lx.next()
            ctx.step()
            if t is not None:
                got.append(hg.tok(t))
                if hg.tok(lx.current()) != hg.tok(t):
                    raise Violation('current() is not the last token', case=case)
        handed = lx.toke_list()
        del handed[:]
        handed = lx.att_list()
        del handed[:]
        lx.tokenize()
        handed = lx.att_list()
        del handed[:]
        for _ in range(extra):
            ctx.step()
            if lx.next() is not None:
                raise Violation('a token after END', case=case)
    except hg.errors.LexerError as e:
        err = e
    if (err is None) != (want is not None):
        raise Violation('stepwise and whole tokenisation disagree', case=case, error=err, expected=want)
    if err is None:
        full = [hg.tok(t) for t in lx.toke_list()]
        if full != want or got != want[:len(got)]:
            raise Violation('stepwise tokens differ', case=case, got=full, expected=want)
        if lx.token_string() != ' '.join(t[0] for t in want):
            raise Violation('token_string differs', case=case, got=lx.token_string())
        if [hg.tok(t) for t in lx.att_list()] != [t for t in want if t[0].endswith('_ATT')]:
            raise Violation('the list of attributes differs', case=case, got=lx.att_list())
        if lx.policy() != text:
            raise Violation('policy() is not the text', case=case)
    ctx.state(('step', text, k, extra))


TWO = ['user.a = 1', 'env.b IN {2, "x"}', 'TRUE', '', 'object.c !', 'user.a user.a admin.z']


def two_gen():
    for a, b in product(TWO, repeat=2):
        for n in range(0, 7):
            for m in range(0, 7):
                yield (a, b, n, m)


def two_one(ctx, case):
    """two lexers by turns: n tokens of one, m of the other, then the rest of the first, then of the second"""
    texts, steps = case[:2], case[2:]
    lxs = [hg.lexing.Lexer(t) for t in texts]

    def go(i, k):
        for _ in range(k):
            ctx.step()
            try:
                if lxs[i].next() is None:
                    return
            except hg.errors.LexerError:
                return
    go(0, steps[0])
    go(1, steps[1])
    go(0, 30)
    go(1, 30)
    seen = [([hg.tok(x) for x in lx.toke_list()], [hg.tok(x) for x in lx.att_list()], lx.policy()) for lx in lxs]
    for t, got in zip(texts, seen):
        alone = hg.lexing.Lexer(t)
        try:
            alone.tokenize()
            want = ref.lex(t)
        except hg.errors.LexerError:
            want = [hg.tok(x) for x in alone.toke_list()]
        if got != (want, [x for x in want if x[0].endswith('_ATT')], t):
            raise Violation('two lexers disturb each other', texts=texts, steps=steps, got=got, expected=want)
    ctx.state(case)


def run(chk):
    n = 5 if THOROUGH else 4
    m = 4 if THOROUGH else 3
    chk.bounds = {'characters': len(CHARS), 'max_chars': n, 'pieces': len(PIECES), 'max_pieces': m}
    chk.assumptions = ['reference lexer mc/ref.py is the specification for ASCII texts; other texts: totality only']
    chk.explore('numbers', numbers_gen, compare)
    chk.explore('keyword cases', keywords_gen, compare)
    chk.explore('words near the keywords', words_gen, compare)
    chk.explore('string contents', string_gen, compare)
    chk.explore('lengths', long_gen, compare)
    chk.explore('stepwise', step_gen, step_one)
    chk.explore('two lexers', two_gen, two_one)
    chk.explore('unicode', unicode_gen, unicode_one)
    chk.explore('all piece sequences', pieces_gen(m), compare)
    chk.explore('all character strings', chars_gen(n), compare)
