"""C11 the type checker reports exactly the comparisons of constants that can never hold a value, wherever they stand."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH
from mc.checks._grammar import Grammar

OPERANDS = {'att': ['user.a', 'env.B2'], 'int': ['1', '0'], 'float': ['1.5', '-0.0'], 'str': ['"s"', '""', '"NULL"'], 'null': ['NULL'],
            'set': ['{}', '{1}', '{"x", NULL}']}
OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET', 'in', 'Subset']
FRAMES = ['%s', 'NOT (%s)', '(%s)', '%s AND TRUE', 'FALSE OR %s', 'user.z AND %s', 'TRUE OR (FALSE AND NOT (%s))', '((%s)) OR user.z',
          'NOT (user.z OR %s) AND UNDEF', '  %s  ', 'NOT (NOT (%s))']


def check_issues(ctx, text, node=None, tc=None):
    """run the type checker on a text and compare with the reference; returns the reference result"""
    tree = ref.parse_text(text)
    want, types = ref.typecheck(tree)
    if node is None:
        node = hg.must_parse(text)
    tc = tc or hg.semantics.TypeChecker(node, text)
    TR = hg.semantics.TypeCheckerResult
    if tc.get_result() is not TR.NONE:
        raise Violation('a result before the check has run', policy=text, got=tc.get_result())
    for again in (0, 1):
        try:
            ret = tc.check()
        except Exception as e:
            raise Violation('type checking raised %s: %s' % (type(e).__name__, e), policy=text)
        ctx.step()
        issues = tc.get_issues()
        got = sorted((i.type.name, i.pos) for i in issues)
        if got != sorted(want):
            raise Violation('wrong issues', policy=text, got=got, expected=want, second_check=bool(again))
        if list(ret) != issues:
            raise Violation('check() returned other issues than get_issues()', policy=text)
        errs, warns = tc.get_errors(), tc.get_warnings()
        for mine in (tc.get_issues(), tc.get_errors(), tc.get_warnings()):
            mine.reverse()
            mine.append(None)
        if tc.get_issues() != issues or tc.get_errors() != errs or tc.get_warnings() != warns:
            raise Violation('changing a list of issues changed what the type checker says', policy=text)
        if [i for i in issues if i.type.name == 'ERROR'] != errs or [i for i in issues if i.type.name == 'WARN'] != warns:
            raise Violation('errors and warnings do not partition the issues', policy=text)
        kinds = {k for k, _ in want}
        exp = TR.ERROR if 'ERROR' in kinds else TR.WARN if kinds else TR.PASS
        if tc.get_result() is not exp:
            raise Violation('wrong overall result', policy=text, got=tc.get_result(), expected=exp)
        ops = {t[1]: t for t in ref.lex(text)}
        for i in issues:
            if not isinstance(i, hg.errors.TypeCheckerError) or (i.type.name == 'WARN') != isinstance(i, hg.errors.TypeCheckerWarning):
                raise Violation('issue of the wrong class', policy=text, got=repr(i))
            if hg.tok(i.token) != ops.get(i.pos) or i.policy_text != text:
                raise Violation('issue does not point at its operator', policy=text, got=(i.pos, i.token, i.policy_text))
            l, r = operands(tree, i.pos)
            if (i.left.pos, i.right.pos) != (l[1], r[1]):
                raise Violation('issue names the wrong operands', policy=text, got=(i.left, i.right), expected=(l, r))
    st = tc.get_symbol_table()
    got = {n: st.lookup_type(n).name for n in st.names()}
    if got != types:
        raise Violation('wrong attributes or attribute types', policy=text, got=got, expected=types)
    ctx.state((ref.strip_pos(tree)))
    return want, types


def operands(t, pos):
    if t[0] == 'op':
        return (t[3], t[4]) if t[1] == pos else None
    for c in t[2:]:
        if isinstance(c, tuple):
            r = operands(c, pos)
            if r:
                return r
    return None


def single_gen():
    vals = [v for vs in OPERANDS.values() for v in vs]
    for l, op, r in product(vals, OPS, vals):
        for f in FRAMES:
            yield f % (l + ' ' + op + ' ' + r)


def pairs_gen():
    """two comparisons: no comparison hides or duplicates the issues of another"""
    vals = [vs[0] for vs in OPERANDS.values()]
    ops = ['=', '<', 'IN', 'SUBSET'] if not THOROUGH else OPS[:8]
    comps = [l + ' ' + op + ' ' + r for l, op, r in product(vals, ops, vals)]
    for a, b in product(comps, repeat=2):
        yield a + ' AND ' + b
        yield 'NOT (' + a + ') OR (' + b + ')'


TRIPLE = ['1 = "s"', '1 = 1', '"a" < 2', '{1} IN {1}', 'NULL SUBSET {}', 'user.a IN 1', 'user.a = 1', '{1} = {1}', 'user.a > NULL', 'TRUE', 'user.b']


def triple_gen():
    for a, b, c in product(TRIPLE, repeat=3):
        for f in ('%s AND %s AND %s', '%s OR %s AND %s', 'NOT (%s OR %s) AND (%s)', '(%s) AND NOT (%s OR NOT (%s))'):
            yield f % (a, b, c)
    if THOROUGH:
        for p in product(TRIPLE, repeat=4):
            yield '%s OR (%s AND NOT (%s)) OR %s' % p


MIXED = ['user.a = 1', 'user.a = "s"', '1 = "s"', 'TRUE', 'user.a = {1}', '{1} < {1}']


def mixed_gen():
    """issues of both severities in every order; long policies with one issue in any place"""
    for n in (4, 5) + ((6,) if THOROUGH else ()):
        for p in product(MIXED, repeat=n):
            yield (' AND ', ' OR ')[n % 2].join(p)
    for n in (1, 2, 3, 5, 8, 12, 16, 17, 24, 32, 33, 48, 64):
        for i in range(n):
            for bad in ('1 = "s"', 'user.a = "s"', '{} < {}', 'NULL IN 1'):
                parts = ['user.a = %d' % k for k in range(n)]
                parts[i] = bad
                yield ' AND '.join(parts)
        for bad in ('1 = "s"', 'user.a IN 1'):
            yield ' OR '.join([bad] * n)
            yield 'NOT (' * min(n, 30) + bad + ')' * min(n, 30)
        yield ' AND '.join('user.n%d = %d' % (k, k) for k in range(n)) + ' AND ' + ' AND '.join('user.n%d = "x"' % k for k in range(n))
        yield ' AND '.join('user.%s = 1' % ('n' * (k + 1)) for k in range(n)) + ' AND USER.%s = 1.5' % ('N' * n)
    for n in (101, 150, 260):
        for bad in ('1 = "s"', 'user.a IN 1', 'user.a = 1 AND user.a = "s"'):
            yield ' OR '.join([bad] * n)


def sentences_gen():
    from mc.checks.c03 import concrete
    for s in sorted(Grammar(8 if THOROUGH else 7).sentences()):
        yield ' '.join(concrete(s))


def parser_gen():
    for a in TRIPLE:
        for b in TRIPLE:
            yield a + ' OR ' + b


def parser_one(ctx, text):
    """given a parser instead of a tree"""
    check_issues(ctx, text, tc=hg.semantics.TypeChecker(hg.parsing.Parser(hg.lexing.Lexer(text))))


def run(chk):
    chk.bounds = {'operand_kinds': 6, 'operators': 8, 'comparisons_per_policy': 3, 'sentence_length': 8 if THOROUGH else 7}
    chk.explore('every comparison in every frame', single_gen, check_issues)
    chk.explore('pairs of comparisons', pairs_gen, check_issues)
    chk.explore('triples of comparisons', triple_gen, check_issues)
    chk.explore('both severities', mixed_gen, check_issues)
    chk.explore('from a parser', parser_gen, parser_one)
    chk.explore('all sentences', sentences_gen, check_issues)
