"""C05 comparison operators: exact semantics for every pair of operand kinds and values."""
from itertools import product, combinations

from mc import ref, hg
from mc.core import Violation, THOROUGH

OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET']

NUMS = [0, 1, -1, 2, 10, 2147483648, -2147483649, 9007199254740993, 0.0, 1.0, 1.5, -1.5, 0.1, 9007199254740992.0]
STRS = ['', 'a', 'A', 'ab', '1', '0', 'b']
SETS = [(), (1,), (0,), (1, 2), (2, 1), (1.0,), ('a',), ('',), ('a', 'b'), (1, 'a'), (ref.NULL,), (ref.NULL, 1), ('1',), (1, 2, 3),
        (1.5,), (1, 1)]


def lit(v):
    if v is ref.NULL:
        return ('null',)
    if isinstance(v, tuple):
        return ('set', tuple(lit(x) for x in v))
    if isinstance(v, str):
        return ('str', v)
    if isinstance(v, float):
        return ('float', v)
    return ('int', v)


TYPE = {int: 'INT', float: 'FLOAT', str: 'STRING', list: 'SET', set: 'SET', bool: 'BOOL', type(None): 'INT'}


def operands(side):
    """(tree, environment entry or None)"""
    out = []
    for v in NUMS + STRS + [ref.NULL] + SETS:
        out.append((lit(v), None))
    att = ('att', 'user', 'x') if side == 0 else ('att', 'object', 'y')
    vals = list(NUMS) + list(STRS) + [True, False]
    for s in SETS:
        vals.append(list(s))
        vals.append(set(s))
    for v in vals:
        out.append((att, (TYPE[type(v)], v)))
    # numeric attributes declared with the other numeric type; unavailable attributes
    for e in (('FLOAT', 1), ('INT', 1.5), ('INT', None), ('SET', None), ('UNKNOWN', 1), ('STRING', 1), ('INT', '1'), ('SET', 'a'),
              ('STRING', ['a']), ('BOOL', 1), ('INT', True), ('CUSTOM', 'a')):
        out.append((att, e))
    out.append((att, 'missing'))
    return out


LEFT, RIGHT = operands(0), operands(1)


def env_of(l, r):
    env = {}
    if l[0][0] == 'att' and l[1] != 'missing':
        env['user.x'] = l[1]
    if r[0][0] == 'att' and r[1] != 'missing':
        env['object.y'] = r[1]
    return env


def pairs_gen():
    for i in range(len(LEFT)):
        for op in OPS:
            yield (i, op)


def check(ctx, text, env):
    tree = ref.parse_text(text)
    want = hg.ref_eval(tree, env)
    got = hg.decide(text, env)
    ctx.step()
    ctx.state((text, repr(env)))
    if got != want:
        raise Violation('wrong comparison result', policy=text, attributes=env, got=got, expected=want)


def pairs_one(ctx, case):
    i, op = case
    l = LEFT[i]
    for r in RIGHT:
        text = ref.render(l[0]) + ' ' + op + ' ' + ref.render(r[0])
        env = env_of(l, r)
        check(ctx, text, env)


UNIVERSE = [1, 2, 'a', '1', ref.NULL]


def subsets():
    for k in range(len(UNIVERSE) + 1):
        for c in combinations(UNIVERSE, k):
            yield c


def sets_gen():
    subs = list(subsets())
    for a, b in product(subs, subs):
        for form in product(('lit', 'list', 'set'), repeat=2):
            yield (a, b, form)


def sets_one(ctx, case):
    a, b, form = case
    env = {}
    txt = []
    for v, f, n in ((a, form[0], 'user.s'), (b, form[1], 'env.t')):
        if f == 'lit':
            txt.append(ref.render(lit(v)))
        else:
            txt.append(n)
            env[n] = ('SET', list(v) if f == 'list' else set(v))
    for op in ('=', '!=', 'IN', 'SUBSET', '<'):
        check(ctx, txt[0] + ' ' + op + ' ' + txt[1], env)
    for e in (0, 1, 2, 1.0, 'a', '1', 'z', ref.NULL):
        check(ctx, ref.render(lit(e)) + ' IN ' + txt[1], env)
        if e is not ref.NULL:
            env2 = dict(env)
            env2['connect.v'] = (TYPE[type(e)], e)
            for op in ('IN', 'SUBSET', '=', '!='):
                check(ctx, 'connect.v ' + op + ' ' + txt[1], env2)
                check(ctx, txt[1] + ' ' + op + ' connect.v', env2)


def same_gen():
    """an attribute compared with itself / two attributes of one kind; big sets; operators written in lower case"""
    vals = NUMS + STRS + [list(s) for s in SETS] + [True, False]
    for v in vals:
        for op in OPS:
            yield ('self', v, op)
    for n in (1, 2, 3, 10, 50, 255, 256, 300):
        for op in OPS:
            yield ('big', n, op)


def same_one(ctx, case):
    k, v, op = case
    if k == 'self':
        env = {'user.x': (TYPE[type(v)], v)}
        check(ctx, 'user.x %s user.x' % op, env)
        check(ctx, 'user.X %s USER.x' % op.lower(), env)
    else:
        elems = list(range(v))
        for form in ('lit', 'att'):
            env = {} if form == 'lit' else {'user.s': ('SET', list(elems))}
            s = 'user.s' if form == 'att' else '{' + ','.join(map(str, elems)) + '}'
            for e in (0, v - 1, v, v // 2):
                check(ctx, '%d %s %s' % (e, op, s), env)
            t = '{' + ','.join(map(str, reversed(elems))) + '}'
            u = '{' + ','.join(map(str, elems[:-1])) + '}'
            for other in (t, u):
                check(ctx, s + ' ' + op + ' ' + other, env)
                check(ctx, other + ' ' + op + ' ' + s, env)


def order_gen():
    nums = [-3, -2.5, -1, 0, 0.5, 1, 1.0, 2, 2.5, 3, 1000000, 2 ** 31, 2 ** 53 + 1, 0.1, 0.3, 0.30000000000000004]
    for a, b in product(nums, nums):
        for form in product((0, 1), repeat=2):
            yield (a, b, form)


def order_one(ctx, case):
    a, b, form = case
    env = {}
    txt = []
    for v, f, n in ((a, form[0], 'admin.a'), (b, form[1], 'env.b')):
        if f:
            env[n] = (TYPE[type(v)], v)
            txt.append(n)
        else:
            txt.append(ref.render(lit(v)))
    for op in OPS:
        check(ctx, txt[0] + op + txt[1] if not op.isalpha() else txt[0] + ' ' + op + ' ' + txt[1], env)


def ladder_gen():
    for n in list(range(0, 36)) + [40, 48, 63, 64, 65, 80, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]:
        for alpha in ('a', 'aB', '0', ' ', '1.5', 'user.x'):
            yield (n, alpha)


def ladder_one(ctx, case):
    """strings of every length against strings that differ in one place only"""
    n, alpha = case
    s = (alpha * (n + 1))[:n]
    others = {s, s + ' ', ' ' + s, s + s, s[:-1], s[1:], s.upper(), s.lower(), s + '0', '0' + s, s.strip(), s.swapcase(), s[::-1]}
    for i in {0, 1, n // 2, n - 2, n - 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255}:
        if 0 <= i < n:
            for c in ('Z', s[i].swapcase(), ' ', '_'):
                others.add(s[:i] + c + s[i + 1:])
    ops = ('=', '!=', 'IN', 'SUBSET', '<', '>=')
    for t in sorted(others):
        env = {'user.x': ('STRING', s), 'object.y': ('STRING', t), 'env.s': ('SET', [s, 'q']), 'env.t': ('SET', [t, 1])}
        for op in ('=', '!='):
            check(ctx, '"%s" %s "%s"' % (s, op, t), {})
            check(ctx, 'user.x %s "%s"' % (op, t), env)
            check(ctx, '"%s" %s object.y' % (s, op), env)
            check(ctx, 'user.x %s object.y' % op, env)
        check(ctx, 'user.x IN {"%s", "zz"}' % t, env)
        check(ctx, '"%s" IN {"%s"}' % (s, t), env)
        check(ctx, 'user.x IN env.t', env)
        check(ctx, '{"%s"} SUBSET env.t' % s, env)
        check(ctx, 'env.s SUBSET {"%s", "q"}' % t, env)
        check(ctx, '{"%s"} = {"%s"}' % (s, t), env)
        check(ctx, '{"%s", "%s"} = {"%s"}' % (s, t, t), env)
        check(ctx, 'user.x < object.y', env)
        check(ctx, 'user.x >= object.y', env)


UNI = ['\xe9', 'e\u0301', '\xdf', 'ss', 'SS', '\u1e9e', '\u0130', 'i', 'I', '\u0131', 'i\u0307', '\u017f', 's', 'S', '\u212a', 'k', 'K', '\u00e5', '\u212b', '\u00c5',
       '\uff11', '1', '\u0661', '\u00b5', '\u03bc', '\ufb01', 'fi', '\u00a0', ' ', '', '\u200b', '\ufeff', '\U0001f600', '\0', 'a\0b', 'a', '\n', '\r\n', 'a\n']


def unicode_gen():
    for i in range(len(UNI)):
        yield i


def unicode_one(ctx, i):
    """attribute values are compared as they are, with no normalisation"""
    s = UNI[i]
    for t in UNI:
        env = {'user.x': ('STRING', s), 'object.y': ('STRING', t), 'env.s': ('SET', [s, 'q']), 'env.t': ('SET', {t, 1})}
        for text in ('user.x = object.y', 'user.x != object.y', 'user.x IN env.t', 'env.s SUBSET env.t', 'env.s = env.t', 'object.y IN env.s', 'user.x IN object.y'):
            check(ctx, text, env)


def bigsets_gen():
    for n in list(range(0, 34)) + [40, 63, 64, 65, 100, 128, 256, 257]:
        for kind in ('int', 'float', 'str', 'mixed'):
            yield (n, kind)


def bigsets_one(ctx, case):
    """sets of every size against sets that differ in one element, with and without repeated elements"""
    n, kind = case
    el = {'int': lambda i: i, 'float': lambda i: i + 0.5, 'str': lambda i: 'k%d' % i, 'mixed': lambda i: (i, 'k%d' % i, i + 0.25)[i % 3]}[kind]
    base = [el(i) for i in range(n)]
    others = [base, base[::-1], base + base, base + [el(n)], base[:-1], base[1:]]
    for i in {0, 1, n // 2, n - 1, 9, 10, 15, 16, 31, 32}:
        if 0 <= i < n:
            others.append(base[:i] + [el(n + 1)] + base[i + 1:])
            others.append(base[:i] + base[i + 1:] + [base[0]])
    for i in range(n) if n <= 34 else (0, 1, n // 2, 31, 32, 63, n - 1):
        if 0 <= i < n:
            others.append([el(i)] + [el(n + 2 + j) for j in range(3)])          # one element in common, at every place
    for o in others:
        env = {'user.s': ('SET', base), 'env.t': ('SET', o)}
        r1, r2 = ref.render(lit(tuple(base))), ref.render(lit(tuple(o)))
        for op in ('=', '!=', 'IN', 'SUBSET'):
            for l, r in (('user.s', 'env.t'), (r1, 'env.t'), ('user.s', r2), (r1, r2), ('env.t', 'user.s')):
                check(ctx, l + ' ' + op + ' ' + r, env)
    for e in (el(0), el(n - 1), el(n), el(n // 2), str(el(0)), 'K0', 0.0, 1.0):
        env = {'user.s': ('SET', base), 'env.e': (TYPE[type(e)], e)}
        check(ctx, 'env.e IN user.s', env)
        check(ctx, ref.render(lit(e)) + ' IN ' + ref.render(lit(tuple(base))), env)


def extreme_gen():
    vals = [float('inf'), float('-inf'), float('nan'), 0, -1, 10 ** 400, 1.5, 1e308, -1e308, 5e-324, -0.0, 2 ** 1024, 'a']
    for i in range(len(vals)):
        yield (i, vals)


def extreme_one(ctx, case):
    """attributes with the largest, smallest and undefined floating point values"""
    i, vals = case
    for v in vals:
        env = {'user.x': (TYPE[type(vals[i])], vals[i]), 'object.y': (TYPE[type(v)], v)}
        for op in ('=', '!=', '<', '>', '<=', '>='):
            check(ctx, 'user.x %s object.y' % op, env)
            check(ctx, 'user.x %s 1' % op, env)
            check(ctx, '0.5 %s user.x' % op, env)


def run(chk):
    chk.bounds = {'operands_per_side': len(LEFT), 'operators': 8, 'set_universe': 5}
    chk.assumptions = ['a scalar attribute counts as a singleton set where the other operand is a set, or (IN, SUBSET) an attribute']
    chk.explore('all operand pairs', pairs_gen, pairs_one)
    chk.explore('all pairs of subsets', sets_gen, sets_one)
    chk.explore('same attribute, big sets', same_gen, same_one)
    chk.explore('numeric order', order_gen, order_one)
    chk.explore('strings of every length', ladder_gen, ladder_one)
    chk.explore('extreme values', extreme_gen, extreme_one)
    chk.explore('unicode values', unicode_gen, unicode_one)
    chk.explore('sets of every size', bigsets_gen, bigsets_one)
