"""C04 AND/OR/NOT decide as strong Kleene three valued logic for every policy shape and valuation."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH

ENV_STATE = {'T': ('BOOL', True), 'F': ('BOOL', False), 'U': None}
LEAF_TEXT = {'T': ['TRUE', 'true', '1 = 1', '"a" IN {"a"}'], 'F': ['FALSE', 'False', '1 > 2', '{1} SUBSET {2}'],
             'U': ['UNDEF', '1 = "a"', 'user.nope', 'user.nope = 1']}


def shapes(n):
    """binary trees with n leaves as nested pairs of leaf indexes"""
    def build(lo, hi):
        if hi - lo == 1:
            yield lo
            return
        for m in range(lo + 1, hi):
            for l in build(lo, m):
                for r in build(m, hi):
                    yield (l, r)
    return list(build(0, n))


def formulas(n, nots):
    for sh in shapes(n):
        for ops in product(('and', 'or'), repeat=n - 1):
            for ng in (product((0, 1), repeat=2 * n - 1) if nots else [(0,) * (2 * n - 1)]):
                io, ig = iter(ops), iter(ng)

                def mk(s):
                    if isinstance(s, int):
                        t = ('leaf', s)
                    else:
                        l = mk(s[0])
                        r = mk(s[1])
                        t = (next(io), l, r)
                    return ('not', t) if next(ig) else t
                yield mk(sh)


def text_of(f, leaf):
    if f[0] == 'leaf':
        return leaf[f[1]]
    if f[0] == 'not':
        c = text_of(f[1], leaf)
        if f[1][0] == 'leaf' and ' ' not in c:
            return 'NOT ' + c
        return 'NOT (' + c + ')'
    def wrap(x):
        t = text_of(x, leaf)
        return '(' + t + ')' if x[0] in ('and', 'or') else t
    return wrap(f[1]) + (' AND ' if f[0] == 'and' else ' OR ') + wrap(f[2])


def value(f, v):
    if f[0] == 'leaf':
        return v[f[1]]
    if f[0] == 'not':
        return ref.k_not(value(f[1], v))
    a, b = value(f[1], v), value(f[2], v)
    return ref.k_and(a, b) if f[0] == 'and' else ref.k_or(a, b)


ATT = ['user.p', 'object.q', 'env.r', 'connect.s', 'admin.t']


def attr_gen():
    for n in range(1, 5):
        for f in formulas(n, n < 4 or THOROUGH):
            yield (n, f)
    if not THOROUGH:
        return
    for f in formulas(5, False):
        yield (5, f)


def attr_one(ctx, case):
    n, f = case
    text = text_of(f, ATT)
    node = hg.must_parse(text)
    for v in product('TFU', repeat=n):
        env = {ATT[i]: ENV_STATE[v[i]] for i in range(n) if ENV_STATE[v[i]]}
        got = hg.decide(hg.must_parse(text) if n < 3 else node, env)
        want = value(f, v)
        ctx.step()
        ctx.state((f, v, want))
        if got != want:
            raise Violation('wrong decision', policy=text, attributes=env, got=got, expected=want)


def lit_gen():
    n = 3
    for k in range(1, n + 1):
        fs = list(formulas(k, True))
        for v in product('TFU', repeat=k):
            for f in fs:
                yield (f, v)


def lit_one(ctx, case):
    f, v = case
    want = value(f, v)
    for alt in range(4):
        text = text_of(f, [LEAF_TEXT[x][(alt + i) % 4] for i, x in enumerate(v)])
        got = hg.decide(text, {})
        ctx.step()
        if got != want:
            raise Violation('wrong decision', policy=text, got=got, expected=want)
    ctx.state((f, v))


def flat_gen():
    """unparenthesised chains: precedence and associativity decide"""
    m = 6 if THOROUGH else 4
    for k in range(1, m + 1):
        for conn in product(('AND', 'OR'), repeat=k):
            for v in product('TFU', repeat=k + 1):
                yield (conn, v)


def flat_one(ctx, case):
    conn, v = case
    words = {'T': 'TRUE', 'F': 'FALSE', 'U': 'UNDEF'}
    text = words[v[0]] + ''.join(' %s %s' % (c, words[x]) for c, x in zip(conn, v[1:]))
    groups = [[v[0]]]
    for c, x in zip(conn, v[1:]):
        if c == 'AND':
            groups[-1].append(x)
        else:
            groups.append([x])
    want = 'F'
    for g in groups:
        a = 'T'
        for x in g:
            a = ref.k_and(a, x)
        want = ref.k_or(want, a)
    got = hg.decide(text, {})
    ctx.step()
    ctx.state(case)
    if got != want:
        raise Violation('wrong decision', policy=text, got=got, expected=want)


def long_gen():
    for pad in (60, 300, 1100, 5000, 70000):
        for op in ('AND', 'OR'):
            for base, odd in product('TFU', repeat=2):
                for at in (0, 1, 2):
                    for nest in (0, 1, 2):
                        yield (3, op, base, odd, at, nest, pad)
    for n in list(range(2, 30)) + [31, 32, 33, 63, 64, 65, 100, 150]:
        for op in ('AND', 'OR'):
            for base in 'TFU':
                for odd in 'TFU':
                    for at in sorted({0, 1, n // 2, n - 2, n - 1}):
                        yield (n, op, base, odd, at, 0)
                        if n <= 100:
                            yield (n, op, base, odd, at, 1)
                            yield (n, op, base, odd, at, 2)


def long_one(ctx, case):
    n, op, base, odd, at, nest = case[:6]
    words = {'T': 'TRUE', 'F': 'FALSE', 'U': 'UNDEF'}
    v = [odd if i == at else base for i in range(n)]
    k = ref.k_and if op == 'AND' else ref.k_or
    if nest == 0:
        text = (' %s ' % op).join(words[x] for x in v)
        want = v[0]
        for x in v[1:]:
            want = k(want, x)
    elif nest == 1:
        text = ''.join('(%s %s ' % (words[x], op) for x in v[:-1]) + words[v[-1]] + ')' * (n - 1)
        want = v[0]
        for x in v[1:]:
            want = k(want, x)
    else:
        text = words[v[-1]]
        want = v[-1]
        for x in reversed(v[:-1]):
            text = 'NOT (%s %s %s)' % (words[x], op, text if text.startswith('NOT') or ' ' not in text else '(' + text + ')')
            want = ref.k_not(k(x, want))
    if len(case) > 6:
        text = ' ' * case[6] + text      # far into its text
    got = hg.decide(text, {})
    ctx.step(n)
    ctx.state(case)
    if got != want:
        raise Violation('wrong decision', policy=text.strip()[:300], padding=len(text) - len(text.strip()), got=got, expected=want)


def nots_gen():
    inner = ['TRUE', 'FALSE', 'UNDEF', 'user.p', 'user.q = 1', '{1} SUBSET {1, 2}', 'user.p AND user.n', '(user.p OR FALSE)', 'NOT user.p']
    for x in inner:
        for n in list(range(0, 34)) + [63, 64, 65, 99, 100]:
            yield (x, n)


def nots_one(ctx, case):
    """towers of NOT"""
    x, n = case
    text = 'NOT (' * n + x + ')' * n
    for p, q in product('TFU', repeat=2):
        env = {k: ENV_STATE[v] for k, v in (('user.p', p), ('user.n', q)) if ENV_STATE[v]}
        if q != 'U':
            env['user.q'] = ('INT', 1 if q == 'T' else 2)
        want = hg.ref_eval(ref.parse_text(x), env)
        for _ in range(n % 2):
            want = ref.k_not(want)
        got = hg.decide(text, env)
        ctx.step(n + 1)
        if got != want:
            raise Violation('wrong decision', policy=text, attributes=env, got=got, expected=want)
    ctx.state(case)


def undef_gen():
    """boolean attributes whose value is a decision of another policy: TRUE, FALSE or UNDEF"""
    for n in range(1, 4):
        for f in formulas(n, n < 3):
            yield (n, f)


def undef_one(ctx, case):
    n, f = case
    text = text_of(f, ATT)
    for v in product('TFU', repeat=n):
        want = value(f, v)
        st = hg.table({ATT[i]: ('BOOL', True) for i in range(n)})
        for i in range(n):
            st.set_value(ATT[i], hg.LETTER[v[i]])
        got = hg.decide(text, {}, st)
        ctx.step()
        if got != want:
            raise Violation('wrong decision over boolean attributes that hold decisions', policy=text, values=v, got=got, expected=want)
    ctx.state(case)


def tables(ctx):
    R = hg.R
    for a, b in product('TFU', repeat=2):
        A, B = hg.LETTER[a], hg.LETTER[b]
        for name, got, want in (('&', A & B, ref.k_and(a, b)), ('|', A | B, ref.k_or(a, b)),
                                ('tri_and', R.tri_and(A, B), ref.k_and(a, b)), ('tri_or', R.tri_or(A, B), ref.k_or(a, b)),
                                ('tri_not', R.tri_not(A), ref.k_not(a))):
            ctx.step()
            ctx.traces += 1
            ctx.state((name, a, b))
            if hg.result_letter(got) != want:
                raise Violation('wrong truth table', operator=name, left=a, right=b, got=got, expected=want)
        if (A == B) != (a == b) or (A != B) != (a != b):
            raise Violation('equality of decisions is wrong', left=a, right=b)
        if bool(A) != (a == 'T') or A.truth() != (a == 'T'):
            raise Violation('only TRUE may be truthy', value=a)
    for x in (True, False):
        if R.from_bool(x) is not (R.TRUE if x else R.FALSE):
            raise Violation('from_bool', value=x)


def run(chk):
    chk.bounds = {'attribute_leaves': 5 if THOROUGH else 4, 'flat_chain': 7 if THOROUGH else 5, 'long_chain': 150}
    chk.one('truth tables', tables)
    chk.explore('long chains and nesting', long_gen, long_one)
    chk.explore('towers of NOT', nots_gen, nots_one)
    chk.explore('decisions as attribute values', undef_gen, undef_one)
    chk.explore('flat chains', flat_gen, flat_one)
    chk.explore('all formulas over attributes x valuations', attr_gen, attr_one)
    chk.explore('all formulas over constants and comparisons', lit_gen, lit_one)
