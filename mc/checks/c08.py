"""C08 from text to decision: every text is either refused with a policy error or decided as specified."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH

PIECES = ['user.a', 'User.B', 'env.s', 'object.t', 'TRUE', 'false', 'UNDEF', '0', '1', '-1.5', '"x"', '""', 'NULL', '{}', '{0}', '{1,"x"}',
          '{NULL}', '=', '!=', '<', '>=', 'IN', 'SUBSET', 'AND', 'OR', 'NOT', '(', ')', '{', '}', ',', 'foo', '!', '"', 'user.', '1.', '²', '\n']
CORE = ['user.a', 'User.B', 'TRUE', 'UNDEF', '1', '"x"', '{0}', '{1,"x"}', 'NULL', '=', '!=', 'IN', '<', 'AND', 'OR', 'NOT', '(', ')']
ENVS = [
    {},
    {'user.a': ('INT', 1), 'user.b': ('BOOL', True), 'env.s': ('STRING', 'x'), 'object.t': ('SET', [0, 'x'])},
    {'user.a': ('SET', {1, 'x'}), 'user.b': ('BOOL', False), 'env.s': ('SET', []), 'object.t': ('STRING', '')},
    {'user.a': ('BOOL', True), 'user.b': ('INT', 0), 'env.s': ('INT', '1'), 'object.t': ('FLOAT', -1.5)},
]
TABLES = None


def gen(pieces, lo, hi):
    def g():
        for k in range(lo, hi + 1):
            for p in product(pieces, repeat=k):
                yield ' '.join(p)
    return g


def one(ctx, text):
    try:
        tree = ref.parse_text(text)
    except (ref.LexErr, ref.ParseErr):
        tree = None
    ctx.state(ref.strip_pos(tree) if tree else text.split(' ')[0])
    try:
        lx = hg.lexing.Lexer(text)
        p = hg.parsing.Parser(lx)
        node = p.parse()
    except (hg.errors.LexerError, hg.errors.ParserError):
        ctx.step()
        if tree is not None:
            raise Violation('valid policy refused', policy=text)
        return
    except Exception as e:
        raise Violation('%s instead of a policy error: %s' % (type(e).__name__, e), policy=text)
    if tree is None:
        raise Violation('text outside the grammar accepted', policy=text)
    try:
        tc = hg.semantics.TypeChecker(node, text)
        tc.check()
        str(hg.semantics.TypeCheckerResult(tc.get_result()))
    except Exception as e:
        raise Violation('type checking a valid policy raised %s: %s' % (type(e).__name__, e), policy=text)
    it = hg.interpreting.Interpreter(node, text)
    for i, env in enumerate(ENVS):
        ctx.step()
        want = hg.ref_eval(tree, env)
        got = hg.run(it, TABLES[i])
        if got != want:
            raise Violation('wrong decision', policy=text, attributes=env, got=got, expected=want)


def ascii_gen():
    for a in range(0, 256):
        for c in ('%s', 'user.a = %s', 'user.a = 1 %s', '"%s" = "x"', 'user.%s', 'NOT %s', '{%s} = {}', '(%s)', '%sTRUE'):
            yield c.replace('%s', chr(a))
    for a, b in product(map(chr, range(32, 127)), repeat=2):
        yield a + b


def ascii_one(ctx, text):
    if all(ord(c) < 128 for c in text):
        return one(ctx, text)
    ctx.step()
    try:
        node = hg.parsing.Parser(hg.lexing.Lexer(text)).parse()
        hg.run(hg.interpreting.Interpreter(node), TABLES[1])
    except hg.errors.HGPLError:
        pass
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s instead of a policy error: %s' % (type(e).__name__, e), policy=text)


def prefix_gen():
    """every prefix, every suffix and every single deletion of realistic policies"""
    pols = ['user.age >= 18 AND object.rating != "R" OR NOT (env.hour < 8.5 OR connect.ip_v4)',
            '{"nurse", "doctor"} SUBSET user.roles AND (admin.level > -1 OR user.id IN {1, 2, NULL})',
            'user.id = object.owner OR "read" IN object.perms AND UNDEF', 'NOT user.b AND (TRUE OR (FALSE AND user.a = NULL))']
    for p in pols:
        for i in range(len(p) + 1):
            yield p[:i]
            yield p[i:]
            for j in range(i + 1, min(len(p), i + (12 if THOROUGH else 5)) + 1):
                yield p[:i] + p[j:]
        words = p.split(' ')
        for i, j in product(range(len(words)), repeat=2):
            w = list(words)
            w[i], w[j] = w[j], w[i]
            yield ' '.join(w)


def layout_gen():
    """valid policies in every way to write them: no, some or much space of every kind, keywords in any letter case"""
    pols = [('user.a', 'IN', '{', '1', ',', '"x"', '}', 'AND', 'NOT', '(', 'user.b', 'OR', 'FALSE', ')'), ('{', '0', '}', 'SUBSET', 'object.t', 'OR', '"x"', 'IN', 'env.s'),
            ('1', 'IN', '{', '}', 'OR', 'user.a', '=', '1'), ('NOT', '(', 'TRUE', 'AND', 'UNDEF', ')'), ('user.a', '!=', 'NULL', 'OR', '{', 'NULL', '}', '=', '{', '}'),
            ('(', 'user.a', '>=', '-1.5', ')', 'AND', '"x"', '=', 'env.s'), ('NOT', 'user.b', 'OR', '(', 'object.t', 'SUBSET', '{', '"x"', ',', '0', '}', ')')]
    spell = [str.upper, str.lower, str.title, str.swapcase, lambda w: w[:1].lower() + w[1:].upper(), lambda w: ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(w))]
    for p in pols:
        for sp in spell:
            q = [sp(w) if w.isalpha() or '.' in w and w[0].isalpha() else w for w in p]
            for gap in (' ', '\t', '\n', '\r\n', ' ' * 63, ' ' * 64, ' ' * 65, ' ' * 300, '\n' * 70, '\x0b\x0c', ' \t '):
                yield gap.join(q)
                yield gap + ' '.join(q) + gap
            tight = q[0]
            for a, b in zip(q, q[1:]):
                tight += (' ' if (a[-1].isalnum() and b[0].isalnum()) else '') + b
            yield tight
            for i in range(1, len(q)):
                if not (q[i - 1][-1].isalnum() and q[i][0].isalnum()):
                    yield ' '.join(q[:i]) + ' '.join(q[i:])
    for n in (17, 39, 40, 41, 100, 309, 1000):
        yield 'user.a < ' + '9' * n
        yield 'user.a > -' + '1' * n + '.5'
        yield 'user.a = 1' + '.' + '0' * n
        yield 'user.%s OR user.b' % ('n' * n)
        yield 'env.s = "%s" OR user.b' % ('x ' * n)


def deep_gen():
    """deep and long policies"""
    for n in list(range(1, 20)) + [31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100]:
        for x in ('user.b', 'user.a = 1', '{1} SUBSET object.t'):
            yield '(' * n + x + ')' * n
            yield 'NOT (' * n + x + ')' * n
            yield '(TRUE AND ' * n + x + ')' * n
            yield '(' * n + x + ' OR FALSE)' * n
            yield '(NOT (' * (n // 2) + x + ') AND user.b)' * (n // 2)
            yield ' AND '.join([x] * n)
            yield ' OR '.join(['FALSE'] * n + [x])
            yield 'user.a IN {%s}' % ', '.join(map(str, range(2, n + 2)))
            yield '(' * n + x + ')' * (n - 1)
            yield '(' * n + x + ')' * (n + 1)
            yield 'NOT ' * n + x
    for n in (300, 5000, 66000, 140000, 300000):
        for x in ('user.b', 'NOT user.b', 'user.a = 1 AND user.b', '(user.b', 'user.b)', 'user.b AND', '"x', '!'):
            yield ' ' * n + x
            yield x + ' ' * n
            yield 'user.b OR' + '\n' * n + x
            yield 'env.s = "%s" OR %s' % ('x' * n, x)


def run(chk):
    global TABLES
    TABLES = [hg.table(e) for e in ENVS]
    chk.bounds = {'pieces': len(PIECES), 'core_pieces': len(CORE), 'max_pieces': '4 of all pieces' if THOROUGH else '3 of all, 4 of the core pieces'}
    chk.explore('prefixes, suffixes, deletions and swaps', prefix_gen, one)
    chk.explore('deep and long policies', deep_gen, one)
    chk.explore('ways to write a policy', layout_gen, one)
    chk.explore('characters', ascii_gen, ascii_one)
    if THOROUGH:
        chk.explore('all piece sequences', gen(PIECES, 0, 4), one)
        chk.explore('all core sequences', gen(CORE, 5, 5), one)
    else:
        chk.explore('all piece sequences', gen(PIECES, 0, 3), one)
        chk.explore('all core sequences', gen(CORE, 4, 4), one)
