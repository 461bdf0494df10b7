"""Independent executable model of HGPL (documents: hgpl/docs/HGPL_ABNF_V2.txt, the papers, the test suite).

Nothing here imports the code under test. Values: numbers, strings, NULL (singleton), frozenset for sets,
'T'/'F'/'U' for three valued results."""
import string

# ------------------------------------------------------------------------------------------------------------- lexer

ATT_PREFIX = {'user': 'USR_ATT', 'object': 'OBJ_ATT', 'env': 'ENV_ATT', 'admin': 'ADM_ATT', 'connect': 'CON_ATT'}
PREFIX_OF = {v: k for k, v in ATT_PREFIX.items()}
KEYWORD = {'in': ('OP', 'IN'), 'subset': ('OP', 'SUBSET'), 'and': ('BOOL_OP', 'AND'), 'or': ('BOOL_OP', 'OR'),
           'true': ('BOOL', 'TRUE'), 'false': ('BOOL', 'FALSE'), 'undef': ('BOOL', 'UNDEF'),
           'not': ('NOT_OP', 'NOT'), 'null': ('NULL', 'NULL')}
PUNCT = {'{': 'LSET', '}': 'RSET', ',': 'COMMA', '(': 'LPARN', ')': 'RPARN'}
LETTERS = set(string.ascii_letters)
DIGITS = set(string.digits)
WORD = LETTERS | DIGITS | {'_'}
SPACE = set(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f')
STRCH = {chr(c) for c in range(32, 127)} - {'"'}


class LexErr(Exception):
    def __init__(self, start, at=None):
        self.start = start                          # where the lexeme that is wrong starts
        self.at = start if at is None else at       # where it goes wrong


def lex(text):
    """[(type, pos, value)] with START and END, or LexErr(start of the lexeme that is not one). ASCII texts."""
    out = [('START', 0, None)]
    n = len(text)
    i = 0

    def run(k, cls):
        while k < n and text[k] in cls:
            k += 1
        return k

    while True:
        i = run(i, SPACE)
        if i >= n:
            out.append(('END', n, None))
            return out
        c = text[i]
        if c in PUNCT:
            out.append((PUNCT[c], i, None))
            i += 1
        elif text[i:i + 2] in ('<=', '>=', '!='):
            out.append(('OP', i, text[i:i + 2]))
            i += 2
        elif c in '=<>':
            out.append(('OP', i, c))
            i += 1
        elif c == '"':
            j = run(i + 1, STRCH)
            if j >= n or text[j] != '"':
                raise LexErr(i, j if j < n else i)
            out.append(('STRING', i, text[i + 1:j]))
            i = j + 1
        elif c in DIGITS or (c == '-' and i + 1 < n and text[i + 1] in DIGITS):
            j = run(i + 1, DIGITS)
            if j < n and text[j] == '.':
                k = run(j + 1, DIGITS)
                if k == j + 1 or (k < n and text[k] == '.'):
                    raise LexErr(i, k)
                out.append(('FLOAT', i, float(text[i:k])))
                i = k
            else:
                try:
                    out.append(('INT', i, int(text[i:j])))
                except ValueError:
                    raise LexErr(i)
                i = j
        elif c in LETTERS:
            j = run(i + 1, WORD)
            word = text[i:j].lower()
            if j < n and text[j] == '.':
                k = run(j + 1, WORD)
                if k == j + 1 or word not in ATT_PREFIX:
                    raise LexErr(i, k if k == j + 1 else i)
                out.append((ATT_PREFIX[word], i, text[j + 1:k]))
                i = k
            elif word in KEYWORD:
                t, v = KEYWORD[word]
                out.append((t, i, v))
                i = j
            else:
                raise LexErr(i)
        else:
            raise LexErr(i, i + (c == '!'))


# ------------------------------------------------------------------------------------------------------------ parser
# trees: ('or'|'and', pos, l, r) ('not', pos, c) ('op', pos, name, l, r) ('att', pos, prefix, name)
#        ('bool', pos, v) ('int'|'float'|'str', pos, v) ('null', pos) ('set', pos, (elements...))

class ParseErr(Exception):
    pass


ATTS = set(PREFIX_OF)
ATOM = {'INT': 'int', 'FLOAT': 'float', 'STRING': 'str'}


def leaf(t):
    ty, pos, v = t
    if ty in ATTS:
        return ('att', pos, PREFIX_OF[ty], v)
    if ty == 'BOOL':
        return ('bool', pos, v)
    if ty == 'NULL':
        return ('null', pos)
    if ty in ATOM:
        return (ATOM[ty], pos, v)
    return None


def parse(tokens):
    """Parse by splitting at the last lowest-precedence operator (tokens without START/END)."""
    depth = []
    d = 0
    for t in tokens:
        if t[0] == 'LPARN':
            depth.append(d)
            d += 1
        elif t[0] == 'RPARN':
            d -= 1
            depth.append(d)
        else:
            depth.append(d)
        if d < 0:
            raise ParseErr()
    if d:
        raise ParseErr()

    def last(i, j, word):
        base = depth[i] if i < j else 0
        for k in range(j - 1, i - 1, -1):
            if depth[k] == base and tokens[k][0] == 'BOOL_OP' and tokens[k][2] == word:
                return k
        return -1

    def policy(i, j):
        # iterative over the left spine to keep recursion shallow
        rights = []
        while True:
            k = last(i, j, 'OR')
            if k < 0:
                break
            rights.append((tokens[k][1], term(k + 1, j)))
            j = k
        node = term(i, j)
        for pos, r in reversed(rights):
            node = ('or', pos, node, r)
        return node

    def term(i, j):
        rights = []
        while True:
            k = last(i, j, 'AND')
            if k < 0:
                break
            rights.append((tokens[k][1], exp(k + 1, j)))
            j = k
        node = exp(i, j)
        for pos, r in reversed(rights):
            node = ('and', pos, node, r)
        return node

    def group(i, j):
        """[i, j) is one parenthesised group"""
        return j - i >= 3 and tokens[i][0] == 'LPARN' and tokens[j - 1][0] == 'RPARN' and \
            all(depth[k] > depth[i] for k in range(i + 1, j - 1))

    def exp(i, j):
        if j <= i:
            raise ParseErr()
        if j == i + 1:
            if tokens[i][0] in ATTS or tokens[i][0] == 'BOOL':
                return leaf(tokens[i])
            raise ParseErr()
        if tokens[i][0] == 'NOT_OP':
            if j == i + 2:
                return ('not', tokens[i][1], exp(i + 1, j))
            if group(i + 1, j):
                return ('not', tokens[i][1], policy(i + 2, j - 1))
            raise ParseErr()
        if group(i, j):
            return policy(i + 1, j - 1)
        ops = [k for k in range(i, j) if tokens[k][0] == 'OP']
        if len(ops) != 1:
            raise ParseErr()
        k = ops[0]
        return ('op', tokens[k][1], tokens[k][2], var(i, k), var(k + 1, j))

    def var(i, j):
        if j == i + 1 and tokens[i][0] != 'BOOL':
            n = leaf(tokens[i])
            if n is not None:
                return n
        if j >= i + 2 and tokens[i][0] == 'LSET' and tokens[j - 1][0] == 'RSET':
            inner = tokens[i + 1:j - 1]
            elems = []
            if inner:
                if len(inner) % 2 == 0:
                    raise ParseErr()
                for k, t in enumerate(inner):
                    if k % 2:
                        if t[0] != 'COMMA':
                            raise ParseErr()
                    else:
                        if t[0] not in ATOM and t[0] != 'NULL':
                            raise ParseErr()
                        elems.append(leaf(t))
            return ('set', tokens[i][1], tuple(elems))
        raise ParseErr()

    return policy(0, len(tokens))


def parse_text(text):
    toks = lex(text)
    return parse(toks[1:-1])


# --------------------------------------------------------------------------------------------------------- evaluation

class _Null:
    def __repr__(self):
        return 'NULL'

    def __reduce__(self):
        return _null, ()


def _null():
    return NULL


NULL = _Null()


class NotBoolean(Exception):
    """A condition that is not boolean: the policy cannot be decided."""


def k_not(a):
    return {'T': 'F', 'F': 'T', 'U': 'U'}[a]


def k_and(a, b):
    if a == 'F' or b == 'F':
        return 'F'
    return 'T' if a == b == 'T' else 'U'


def k_or(a, b):
    if a == 'T' or b == 'T':
        return 'T'
    return 'F' if a == b == 'F' else 'U'


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def available(entry):
    """entry = (declared type, value) or None. The attribute's usable value, or None when it has none."""
    if entry is None:
        return None
    ty, v = entry
    if v is None:
        return None
    if isinstance(v, bool):
        return ('bool', 'T' if v else 'F') if ty == 'BOOL' else None
    if isinstance(v, (set, frozenset, list)):
        return ('val', frozenset(v)) if ty == 'SET' else None
    if isinstance(v, str):
        return ('val', v) if ty == 'STRING' else None
    if is_num(v):
        return ('val', v) if ty in ('INT', 'FLOAT') else None
    return None


def kind(v):
    if isinstance(v, frozenset):
        return 'set'
    if isinstance(v, str):
        return 'str'
    if v is NULL:
        return 'null'
    if is_num(v):
        return 'num'
    raise AssertionError(v)


def compare(op, lk, l, rk, r):
    """lk/rk: 'lit' or 'att'. -> 'T','F','U'"""
    ls, rs = kind(l) == 'set', kind(r) == 'set'
    if op in ('<', '>', '<=', '>='):
        if kind(l) == kind(r) == 'num':
            return 'T' if {'<': l < r, '>': l > r, '<=': l <= r, '>=': l >= r}[op] else 'F'
        return 'U'
    # an atomic attribute counts as a singleton set where a set is expected (from the other side, or by the operator)
    if op in ('=', '!='):
        if lk == 'att' and not ls and rs:
            l = frozenset([l])
        elif rk == 'att' and not rs and ls:
            r = frozenset([r])
        if kind(l) != kind(r):
            return 'U'
        res = 'T' if l == r else 'F'
        return res if op == '=' else k_not(res)
    if op == 'IN':
        if rk == 'att' and not rs and (ls or lk == 'att'):
            r = frozenset([r])
            rs = True
        if not rs:
            return 'U'
        if ls:
            return 'T' if l & r else 'F'
        return 'T' if l in r else 'F'
    if op == 'SUBSET':
        if lk == 'att' and not ls and (rs or rk == 'att'):
            l = frozenset([l])
            ls = True
        if rk == 'att' and not rs and (kind(l) == 'set' or lk == 'att'):
            r = frozenset([r])
            rs = True
        if not (ls and rs):
            return 'U'
        return 'T' if l <= r else 'F'
    raise AssertionError(op)


def lit_value(t):
    if t[0] == 'set':
        return frozenset(lit_value(e) for e in t[2])
    if t[0] == 'null':
        return NULL
    return t[2]


def evaluate(tree, env, warns=None):
    """env: {'user.name' (lower case): (type, value)}. warns: list collecting one entry per warning cause."""
    if warns is None:
        warns = []

    def ev(t):
        k = t[0]
        if k == 'bool':
            return {'TRUE': 'T', 'FALSE': 'F', 'UNDEF': 'U'}[t[2]]
        if k == 'att':
            name = t[2] + '.' + t[3].lower()
            a = available(env.get(name))
            if a is None:
                warns.append(('att', name, t[1]))
                return 'U'
            if a[0] == 'bool':
                return a[1]
            return a          # not boolean
        if k == 'not':
            c = cond(ev(t[2]))
            return k_not(c)
        if k in ('and', 'or'):
            l, r = ev(t[2]), ev(t[3])
            l, r = cond(l), cond(r)
            return k_and(l, r) if k == 'and' else k_or(l, r)
        if k == 'op':
            l, r = operand(t[3]), operand(t[4])
            if l is None or r is None:
                return 'U'
            if l[0] == 'bool' or r[0] == 'bool':
                warns.append(('op', t[2], t[1]))
                return 'U'
            res = compare(t[2], l[0], l[1], r[0], r[1])
            if res == 'U':
                warns.append(('op', t[2], t[1]))
            return res
        raise NotBoolean()

    def operand(t):
        if t[0] == 'att':
            v = ev(t)
            if v == 'U':
                return None
            if v in ('T', 'F'):
                return ('bool', v)
            return ('att', v[1])
        return ('lit', lit_value(t))

    def cond(v):
        if v not in ('T', 'F', 'U'):
            raise NotBoolean()
        return v

    return cond(ev(tree))


# ------------------------------------------------------------------------------------------------------- type checking

def static_error(op, l, r):
    """Constant operand kinds that can never be compared; kinds: att, int, float, str, null, set."""
    ks = (l, r)
    if op in ('<', '>', '<=', '>='):
        if 'str' in ks or 'null' in ks:
            return True
        if 'att' in ks:
            return False
        return 'set' in ks
    if op in ('=', '!='):
        if 'att' in ks:
            return False
        for k in ('null', 'str', 'set'):
            if (l == k) != (r == k):
                return True
        return False
    if op == 'IN':
        return l == 'set' or r in ('null', 'str', 'int', 'float')
    if op == 'SUBSET':
        return not (l in ('set', 'att') and r in ('set', 'att'))
    raise AssertionError(op)


CONST_TYPE = {'int': 'INT', 'float': 'FLOAT', 'str': 'STRING', 'null': 'UNKNOWN', 'set': 'SET'}


def typecheck(tree):
    """(issues [(level, operator position)], {attribute: inferred type}) with attributes in order of appearance."""
    issues = []
    types = {}
    num = ('INT', 'FLOAT')

    def name(t):
        return t[2] + '.' + t[3].lower()

    def visit(t):
        k = t[0]
        if k == 'att':
            types.setdefault(name(t), 'UNKNOWN')
        elif k == 'not':
            visit(t[2])
        elif k in ('and', 'or'):
            visit(t[2])
            visit(t[3])
        elif k == 'op':
            for c in (t[3], t[4]):
                if c[0] == 'att':
                    visit(c)
            op, l, r = t[2], t[3], t[4]
            if static_error(op, l[0], r[0]):
                issues.append(('ERROR', t[1]))
            elif op not in ('IN', 'SUBSET') and 'att' in (l[0], r[0]):
                if l[0] == r[0]:
                    ln, rn = name(l), name(r)
                    lt, rt = types[ln], types[rn]
                    if lt == 'UNKNOWN' and rt != 'UNKNOWN':
                        types[ln] = rt
                    elif rt == 'UNKNOWN' and lt != 'UNKNOWN':
                        types[rn] = lt
                    elif lt != rt and not (lt in num and rt in num):
                        issues.append(('WARN', t[1]))
                else:
                    a, c = (l, r) if l[0] == 'att' else (r, l)
                    n, ct = name(a), CONST_TYPE[c[0]]
                    if types[n] == 'UNKNOWN':
                        types[n] = ct
                    elif types[n] != ct and not (types[n] in num and ct in num):
                        issues.append(('WARN', t[1]))

    visit(tree)
    return issues, types


# ---------------------------------------------------------------------------------------------------------- rendering

def strip_pos(t):
    if t[0] in ('or', 'and'):
        return (t[0], strip_pos(t[2]), strip_pos(t[3]))
    if t[0] == 'not':
        return ('not', strip_pos(t[2]))
    if t[0] == 'op':
        return ('op', t[2], strip_pos(t[3]), strip_pos(t[4]))
    if t[0] == 'set':
        return ('set', tuple(strip_pos(e) for e in t[2]))
    return (t[0],) + tuple(t[2:])


def render(t):
    """Policy text of a position-less tree (fully parenthesised where needed)."""
    k = t[0]
    if k == 'or':
        r = render(t[2])
        return render(t[1]) + ' OR ' + ('(' + r + ')' if t[2][0] == 'or' else r)
    if k == 'and':
        l, r = render(t[1]), render(t[2])
        return ('(' + l + ')' if t[1][0] == 'or' else l) + ' AND ' + ('(' + r + ')' if t[2][0] in ('or', 'and') else r)
    if k == 'not':
        c = render(t[1])
        return 'NOT ' + (c if t[1][0] in ('att', 'bool') else '(' + c + ')')
    if k == 'op':
        return render(t[2]) + ' ' + t[1] + ' ' + render(t[3])
    if k == 'att':
        return t[1] + '.' + t[2]
    if k == 'null':
        return 'NULL'
    if k == 'str':
        return '"' + t[1] + '"'
    if k == 'set':
        return '{' + ', '.join(render(e) for e in t[1]) + '}'
    if k == 'float':
        s = format(t[1], 'f') if 'e' in repr(t[1]) else repr(t[1])
        return s
    return str(t[1])


def shift(t, pos=0):
    """Parsed tree of render(t) (positions filled by the reference parser)."""
    return parse_text(render(t))
