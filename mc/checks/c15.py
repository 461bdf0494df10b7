"""C15 policy errors point at the place of the mistake: checked on every text of bounded size."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH

# viable prefixes of the grammar as an automaton (plus the nesting depth)
MOVE = {'E': {'a': 'V', 'b': 'V', 'i': 'C', '{': 'S0', '(': 'E', '!': 'N'}, 'N': {'a': 'V', 'b': 'V', '(': 'E'},
        'C': {'o': 'R'}, 'V': {'&': 'E', ')': 'V', '$': 'X'}, 'S0': {'i': 'S1', '}': 'C'}, 'S1': {',': 'S2', '}': 'C'}, 'S2': {'i': 'S1'},
        'R': {'a': 'V', 'i': 'V', '{': 'T0'}, 'T0': {'i': 'T1', '}': 'V'}, 'T1': {',': 'T2', '}': 'V'}, 'T2': {'i': 'T1'}}
CLASS = {'BOOL': 'b', 'INT': 'i', 'FLOAT': 'i', 'STRING': 'i', 'NULL': 'i', 'LSET': '{', 'RSET': '}', 'COMMA': ',', 'LPARN': '(', 'RPARN': ')',
         'OP': 'o', 'BOOL_OP': '&', 'NOT_OP': '!', 'END': '$', 'USR_ATT': 'a', 'OBJ_ATT': 'a', 'ENV_ATT': 'a', 'ADM_ATT': 'a', 'CON_ATT': 'a'}


def first_bad(tokens):
    """index of the first token after which no policy can follow, or None; tokens without START"""
    state, depth, start = 'E', 0, False
    for i, t in enumerate(tokens):
        c = CLASS[t[0]]
        if state == 'V' and start and c == 'o':
            state, start = 'R', False
            continue
        nxt = MOVE[state].get(c)
        if nxt is None or (state == 'V' and c == ')' and depth == 0) or (c == '$' and depth):
            return i
        start = state == 'E' and c == 'a'
        depth += (c == '(') - (c == ')')
        state = nxt
    return None


def near(text, pos, n):
    return text[max(0, pos - n):pos + n + 1]


def one(ctx, text):
    try:
        toks = ref.lex(text)
        bad = first_bad(toks[1:])
    except ref.LexErr as e:
        toks, bad, at = None, e.start, e.at
    if toks is not None:
        try:
            ref.parse(toks[1:-1])
            if bad is not None:
                raise AssertionError(text)
        except ref.ParseErr:
            if bad is None:
                raise AssertionError(text)
    ctx.state((bad, len(text), None if toks is None else tuple(t[0] for t in toks)))
    ctx.step()
    k, e = hg.parse(text)
    if toks is not None and bad is None:
        if k != 'ok':
            raise Violation('valid policy refused', policy=text, error=e)
        return
    if k == 'ok':
        raise Violation('invalid policy accepted', policy=text)
    if k == 'crash':
        raise Violation('%s instead of a policy error' % type(e).__name__, policy=text)
    if e.policy_text != text or not isinstance(e.message, str) or not e.message:
        raise Violation('error without its policy text or message', policy=text, got=(e.policy_text, e.message))
    if e.type is not hg.errors.ErrorType.ERROR:
        raise Violation('syntax error of the wrong severity', policy=text, got=e.type)
    if toks is None:
        if not isinstance(e, hg.errors.LexerError):
            raise Violation('a lexical mistake was reported as %s' % type(e).__name__, policy=text, error=e)
        if e.pos != at:
            raise Violation('position is not where the text goes wrong', policy=text, got=e.pos, expected=at)
        if e.token is not None and e.token.pos != bad:
            raise Violation('error token does not start where the wrong lexeme starts', policy=text, got=e.token, expected=bad)
    else:
        if not isinstance(e, hg.errors.ParserError):
            raise Violation('a syntactic mistake was reported as %s' % type(e).__name__, policy=text, error=e)
        body = toks[1:]
        ok = {body[bad][1]}
        if bad and CLASS[body[bad - 1][0]] == 'i':
            ok.add(body[bad - 1][1])
        if e.pos not in ok:
            raise Violation('error position is not where the policy goes wrong', policy=text, got=e.pos, expected=sorted(ok))
        if e.rule and e.rule.upper() not in str(e):
            raise Violation('message does not name the rule', policy=text, got=str(e), expected=e.rule)
        if e.token is None or hg.tok(e.token) not in toks or e.token.pos != e.pos:
            raise Violation('error token is not the token at the error position', policy=text, got=e.token, pos=e.pos)
    for n in (0, 1, 5, 10, 100):
        if e.near(n) != (near(text, e.pos, n) if text else None):
            raise Violation('wrong context of an error', policy=text, pos=e.pos, length=n, got=e.near(n), expected=near(text, e.pos, n))
    s = str(e)
    if 'char %d' % e.pos not in s or e.message not in s:
        raise Violation('message does not name the position', policy=text, got=s)


TOKS = ['user.a', 'TRUE', '1', '"s"', '{', '}', ',', '(', ')', '=', 'IN', 'AND', 'OR', 'NOT']


def tok_gen():
    for k in range(0, 6 if THOROUGH else 5):
        for p in product(TOKS, repeat=k):
            yield ' '.join(p)


def pad_gen():
    for k in range(1, 4):
        for p in product(TOKS[:1] + TOKS[2:3] + TOKS[4:], repeat=k):
            yield '  ' + '   '.join(p) + ' \n'


def char_gen():
    al = 'u.r1"- !=<{(a_\n'
    for k in range(0, 6 if THOROUGH else 5):
        for p in product(al, repeat=k):
            yield ''.join(p)
            if k <= 3:
                yield 'user.a = ' + ''.join(p)
                yield 'user.a = 1 AND ' + ''.join(p) + ' OR TRUE'


ODD = ['%', '%s', '%d %d', '{', '{0}', '{x}', '}', '%(a)s', '\\', "'", '&', '<b>', '\t', '$x']


def format_gen():
    """characters that mean something to formatting, around and in the place of the mistake"""
    for o in ODD:
        for t in ('user.a = "%s" AND', '"%s" = ', '%s', 'user.a %s 1', 'user.a = 1 OR "%s" (', '("%s"', '{"%s",} = {}', 'NOT "%s"', '"%s" 1 "%s"', '%s%s%s'):
            yield t.replace('%s', o)


def far_gen():
    """mistakes far into the text"""
    for n in (10, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 9999, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 131072):
        for tail in (')', '= =', '!', 'user.', '"x', 'user.a = ', 'AND TRUE', '1 1', '#'):
            yield ' ' * n + tail
            yield ' ' * (n // 2) + 'user.a' + '\n' * (n - n // 2 - 6) + tail if n > 20 else tail
            yield 'user.a = "%s" %s' % ('x' * n, tail)


BASE = ['user.age >= 18 AND object.rating != "R" OR NOT (env.hour < 8.5)', '{"nurse", 2} SUBSET user.roles AND (admin.level > -1)',
        'NOT user.b AND (TRUE OR (FALSE AND user.a = NULL))']


def edit_gen():
    """every single edit of real policies: deletion, duplication, replacement and insertion at every position"""
    ins = ['"', '(', ')', '{', '}', ',', '.', '!', '=', '#', ' AND ', ' 1 ', 'x', '-', ' ', 'é', '²']
    for b in BASE:
        for i in range(len(b) + 1):
            for s in ins:
                yield b[:i] + s + b[i:]
                if i < len(b):
                    yield b[:i] + s + b[i + 1:]
            for j in range(i + 1, min(len(b), i + 6) + 1):
                yield b[:i] + b[j:]
                yield b[:j] + b[i:]


def edit_one(ctx, text):
    if text.isascii():
        one(ctx, text)


def run(chk):
    chk.bounds = {'tokens': 5 if THOROUGH else 4, 'characters': 5 if THOROUGH else 4}
    chk.explore('token sequences', tok_gen, one)
    chk.explore('token sequences with space', pad_gen, one)
    chk.explore('character sequences', char_gen, one)
    chk.explore('formatting characters', format_gen, edit_one)
    chk.explore('far mistakes', far_gen, one)
    chk.explore('edits of policies', edit_gen, edit_one)
