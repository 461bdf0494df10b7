"""C43 what is shown is what is there: text of certificates, syntax trees and symbol tables, and equality of syntax trees, against independent printers."""
import base64
from itertools import product

from mc import ac, hg, ref
from mc.core import Violation, THOROUGH
from mc.checks import c22

A = ac.A


# -- the text of certificates -----------------------------------------------------------------------------------------------------
def b64(b):
    return base64.b64encode(bytes(b)).decode('ascii')


LAYOUT = {  # frame, [(label, field, how)]; a field that is None has no line
    'info': ('= INFORMATION', [('VERSION', 'version', str), ('SERIAL', 'serial', str), ('ISSUED', 'issued', str)]),
    'issuer': ('= ISSUER', [('PUBLIC KEY', 'pub_key', b64), ('KEY ALGORITHM', 'key_algo', str), ('UID', 'uid', str), ('NAME', 'name', str), ('URL', 'url', str)]),
    'holder': ('= HOLDER', [('PUBLIC KEY', 'pub_key', b64), ('KEY ALGORITHM', 'key_algo', str), ('UID', 'uid', str), ('NAME', 'name', str)]),
    'att': ('# ATTRIBUTE: %s', [('ATTRIBUTE ID', 'att_id', str), ('ATTRIBUTE TYPE', 'att_type', lambda t: 'AttributeType.' + t.name), ('ATTRIBUTE VALUE', 'att_value', str),
                                ('ATTRIBUTE NAME', 'att_name', str), ('EXTENSION BYTES', 'extra_bytes', b64)]),
    'rev': ('= REVOCATION RULES', [('VALID AFTER', 'valid_after', str), ('VALID BEFORE', 'valid_before', str), ('URL', 'url', str), ('EXTENSION BYTES', 'extra_bytes', b64)]),
    'del': ('= DELEGATION RULES', [('EXTENSION BYTES', 'extra_bytes', b64)]),
    'ext': ('# EXTENSION: %s', [('EXTENSION ID', 'eid', str), ('EXTENSION BYTES', 'extra_bytes', b64)]),
    'sig': ('= SIGNATURE', [('SIGNATURE ALGORITHM', 'sig_algo', str), ('SIGNATURE VALUE', 'sig_value', b64)]),
}


def shown(kind, p):
    frame, fields = LAYOUT[kind]
    if kind == 'del' and p.extra_bytes is None:
        return ''
    mark, title = frame.split(' ', 1)
    if '%' in title:
        title = title % getattr(p, fields[0][1])
    mark *= 4
    body = ''.join('%s: %s\n' % (label, how(getattr(p, f))) for label, f, how in fields if getattr(p, f) is not None)
    return '%s BEGIN %s %s\n%s%s END %s %s\n' % (mark, title, mark, body, mark, title, mark)


def shown_cert(c):
    out = '---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: TEXT\nVERSION: %d\n' % c.info.version
    out += shown('info', c.info) + shown('issuer', c.issuer) + shown('holder', c.holder)
    if c.att_set:
        out += '==== BEGIN ATTRIBUTE SET ====\n' + ''.join(shown('att', a) for a in c.att_set) + '==== END ATTRIBUTE SET ====\n'
    out += shown('rev', c.rev_rules)
    if c.del_rules is not None:
        out += shown('del', c.del_rules)
    if c.extensions:
        out += '==== BEGIN EXTENSIONS ====\n' + ''.join(shown('ext', e) for e in c.extensions) + '==== END EXTENSIONS ====\n'
    if c.signature is not None:
        out += shown('sig', c.signature)
    return out + '---- END ATTRIBUTE CERTIFICATE ----'


def same(got, want, **detail):
    if got != want:
        g, w = got.split('\n'), want.split('\n')
        k = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
        raise Violation('the text shows something else', line=k, got=g[k:k + 2], expected=w[k:k + 2], **detail)


def field_one(ctx, case):
    kind, f, what = case
    vals = ac.field_values(what, 3 if THOROUGH else 2)
    if what in 'sb':
        vals = vals + ac.ladder(what)
    if what in 'nt' and not THOROUGH:
        vals = vals[::7] + vals[-3:]
    for v in vals:
        for rest in (False, True):
            p = ac.field_part(kind, f, v, rest)
            before = bytes(p.encode())
            ctx.step()
            same(str(p), shown(kind, p), part=kind, field=f, value=v)
            if bytes(p.encode()) != before:
                raise Violation('showing a part changed it', part=kind)
    ctx.state(case)


def cert_gen():
    for k, spec in enumerate(c22.pool()):
        yield ('pool', k)
    for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 99, 100, 101, 255, 256, 257, 1000]:
        yield ('atts', n)
        yield ('exts', n)
    for c in product(range(2), range(2), range(2), range(4), range(2)):
        yield ('parts', c)


def cert_one(ctx, case):
    what, k = case
    if what == 'pool':
        make = lambda: c22.build(c22.pool()[k])  # noqa: E731
    elif what == 'atts':
        make = lambda: ac.base(att_set=[A.ACAttribute('a%d' % (i % 7), list(ac.AT)[i % 6], str(i), None if i % 3 else 'n', None if i % 5 else b'x') for i in range(k)])  # noqa: E731
    elif what == 'exts':
        make = lambda: ac.base(extensions=[A.ACExtensions('e%d' % (i % 7), b'%d' % i if i % 4 else None) for i in range(k)])  # noqa: E731
    else:
        make = lambda: ac.base(att_set=None if k[0] else [A.ACAttribute('a', ac.AT.NULL, None)], extensions=None if k[1] else [A.ACExtensions('e', None)],  # noqa: E731
                               del_rules=A.ACDelegationRules(b'd') if k[2] else None, signature=[None, A.ACSignature('x', b'v'), A.ACSignature('', b''), A.ACSignature('x', b'')][k[3]],
                               rev_rules=A.ACRevocationRules(1, 2, None, None) if k[4] else A.ACRevocationRules(1, 2, 'u', b'e'))
    c = make()
    want = shown_cert(make())
    ctx.step()
    same(str(c), want, certificate=case)
    same(c.export_ac(ac.EF.TEXT), want, certificate=case)
    if ac.content(c) != ac.content(make()):
        raise Violation('showing a certificate changed it', certificate=case)
    if what == 'atts' and k > 100:
        ctx.state(case)
        return
    text = c.export_ac(ac.EF.TEXT, True, ac.KEYS[0])
    if c.signature is None or what != 'pool' and c.verify_signature() is not True:
        raise Violation('a signed text of an unsigned certificate', certificate=case)
    same(text, shown_cert(c), certificate=case, signed=True)
    if not ac.has_empty(c):
        same(str(A.AttributeCertificate.import_ac(c.export_ac())), text, certificate=case, imported=True)
    ctx.state(case)


# -- syntax trees -----------------------------------------------------------------------------------------------------------------
ATOMS = ['user.a', 'TRUE', 'undef', '1 = 1', 'user.a < 2.5', '"x" IN {"x", NULL, 1}', '{} SUBSET env.g', 'object.b != NULL', 'connect.c >= -3', 'admin.d = ""', '0 = 0.0', '{0} = {0.0}']
ENV = {'user.a': ('INT', 1), 'env.g': ('SET', [1]), 'object.b': ('STRING', 's'), 'connect.c': ('FLOAT', 0.5)}


def texts():
    for a in ATOMS:
        yield a
        yield 'NOT (%s)' % a
    atoms = ATOMS if THOROUGH else ATOMS[:8]
    for a, b in product(atoms, repeat=2):
        for f in ('%s AND %s', '%s OR %s', 'NOT (%s OR %s)', '(%s) AND NOT (%s)'):
            yield f % (a, b)
    for a, b, c in product(ATOMS[:5], repeat=3):
        for f in ('%s AND %s OR %s', '%s OR %s AND %s', '%s OR (%s OR %s)', '%s OR %s OR %s'):
            yield f % (a, b, c)
    for n in (5, 9, 10, 16, 17, 33, 64, 65, 100, 120):
        yield ' AND '.join(['user.a = 1'] * n)
        yield '(' * n + 'user.a' + ')' * n
        yield 'NOT (' * n + 'user.a' + ')' * n
        yield '1 IN {%s}' % ', '.join(map(str, range(n)))


TOKEN = {'or': lambda t: ('BOOL_OP', 'OR'), 'and': lambda t: ('BOOL_OP', 'AND'), 'not': lambda t: ('NOT_OP', 'NOT'), 'op': lambda t: ('OP', t[2]), 'att': lambda t: (ref.ATT_PREFIX[t[2]], t[3]), 'bool': lambda t: ('BOOL', t[2]),
         'null': lambda t: ('NULL', 'NULL'), 'int': lambda t: ('INT', t[2]), 'float': lambda t: ('FLOAT', t[2]), 'str': lambda t: ('STRING', t[2]), 'set': lambda t: ('LSET', None)}


def lines(t, depth=0):
    """[(text before the result, tree)]"""
    k = t[0]
    name, v = TOKEN[k](t)
    out = [(' ' * (3 * depth) + '%s: %r -> ' % (name, v), t)]
    for c in (t[2:4] if k in ('or', 'and') else t[2:3] if k == 'not' else t[3:5] if k == 'op' else t[2] if k == 'set' else ()):
        out += lines(c, depth + 1)
    return out


def tree_one(ctx, text):
    tree = ref.parse_text(text)
    node = hg.must_parse(text)
    rows = lines(tree)
    for env in (None, {}, ENV):
        if env is not None:
            hg.run(hg.interpreting.Interpreter(node), hg.table(env))
            if hg.ref_eval(tree, env) == 'E':
                return
        got = str(node).split('\n')
        ctx.step()
        if len(got) != len(rows) + 1 or got[-1] != '':
            raise Violation('a tree is shown with another number of lines', policy=text, got=len(got), expected=len(rows) + 1)
        for g, (w, t) in zip(got, rows):
            if not g.startswith(w):
                raise Violation('a tree is shown with another node', policy=text, got=g, expected=w)
            res = g[len(w):]
            if t[0] == 'bool':
                want = t[2]
            elif t[0] in ('int', 'float', 'str'):
                want = str(t[2])
            elif t[0] in ('or', 'and', 'not', 'op'):
                want = 'None' if env is None else {'T': 'TRUE', 'F': 'FALSE', 'U': 'UNDEF'}[hg.ref_eval(t, env)]
            else:
                continue
            if res != want:
                raise Violation('a tree is shown with another result', policy=text, line=g, expected=want, attributes=env)
    if node.calc_num_nodes() != len(rows):
        raise Violation('wrong number of nodes', policy=text, got=node.calc_num_nodes(), expected=len(rows))
    ctx.state(text)


def eq_texts():
    base = ['user.a', 'user.A', 'user.b', ' user.a', 'object.a', 'TRUE', 'true', 'FALSE', 'UNDEF', 'NOT user.a', 'NOT(user.a)', 'not user.a', '1 = 1', '1 = 2', '1 = 1.0', '1.0 = 1', '1 != 1', '1 = "1"', '"1" = 1', '1 < 1', '1 = NULL', '"NULL" = 1',
            '1 = "NULL"', '1 = {}', '1 = {1}', '1 = {1, 1}', '1 = {1,1}', '1 = {1.0}', '1 = {"1"}', '1 = {NULL}', '1 = { }', '"" = ""', '"a" = "A"', '"a" = "a"', '0 = 0', '0 = 0.0', '0 = -0', '-0 = 0', '1 IN {1}', '1 in {1}', '1  IN {1}',
            '{1, 2} SUBSET {1}', '{2, 1} SUBSET {1}', '{1, 2} subset {1}', 'user.a = user.b', 'user.b = user.a', '"TRUE" = 1', '1 = "1.0"', '1.5 = 1', '1.50 = 1', '1 = user.a', '1 = connect.a', '1 = admin.a', '1 = env.a', '(user.a)', '((user.a))',
            '1 =  {}', '1 =   {}', '{} = 1', ' {} = 1', '{}  = 1', '1  = {}', '1 = {  }', '{} IN {}', '{}  IN {}', '{} IN  {}', '{ } IN {}', 'NULL = 1', ' NULL = 1', '1 =  NULL', '1 =  user.a', '1  = 1', '1 =  1', ' 1 = 1', 'TRUE AND {} = {}', 'TRUE AND {} =  {}']
    for a in base:
        yield a
    for n in (7, 8, 9, 10, 16, 17, 20):
        yield '1 IN {%s}' % ','.join('1' * n)
        for k in (0, 5, 7, 8, 9, n - 2, n - 1):
            if k < n:
                yield '1 IN {%s}' % ','.join('2' if i == k else '1' for i in range(n))
    small = ['user.a', 'user.b', 'TRUE', '1 = 1']
    for a, b in product(small, repeat=2):
        for f in ('%s AND %s', '%s OR %s', 'NOT (%s AND %s)', '%s AND NOT (%s)'):
            yield f % (a, b)
    for a in small:
        for f in ('%s AND user.b OR user.c', '%s OR user.b AND user.c', '(%s OR user.b) AND user.c', '%s AND (user.b OR user.c)', '%s OR (user.b OR user.c)', '%s OR user.b OR user.c', '%s OR user.b AND user.c AND user.d'):
            yield f % a


def eq_gen():
    n = len(list(eq_texts()))
    for i in range(n):
        yield i


def eq_one(ctx, i):
    ts = list(eq_texts())
    a, ta = hg.must_parse(ts[i]), hg.typed(ref.parse_text(ts[i]))
    for text in ts:
        b, tb = hg.must_parse(text), hg.typed(ref.parse_text(text))
        ctx.step()
        want = ta == tb
        if (a == b) is not want or (b == a) is not want or (a != b) is want:
            raise Violation('trees are equal exactly if they are the same policy at the same positions', first=ts[i], second=text, equal=a == b)
    hg.run(hg.interpreting.Interpreter(a), hg.table(ENV))
    if not (a == hg.must_parse(ts[i])):
        raise Violation('an evaluated tree is another policy', policy=ts[i])
    ctx.state(i)


# -- symbol tables ----------------------------------------------------------------------------------------------------------------
VALS = [('INT', 1), ('INT', 0), ('STRING', 'x'), ('STRING', ''), ('FLOAT', 0.5), ('SET', [1, 'a']), ('SET', []), ('BOOL', True), ('BOOL', False), ('INT', None), ('UNKNOWN', 3)]
NAMES = ['user.a', 'object.B', 'env.c', 'admin.D_1', 'connect.e']


def table_gen():
    for n in range(0, 3):
        for names in product(NAMES[:3] if n == 2 else NAMES, repeat=n):
            if len(set(names)) == n:
                for vals in product(range(len(VALS)), repeat=n):
                    yield (names, vals)
    for n in (3, 4, 5, 8, 16, 17, 50, 100, 257):
        yield (n,)


def table_one(ctx, case):
    if len(case) == 1:
        rows = [('user.a%d' % i, VALS[i % len(VALS)]) for i in range(case[0])]
    else:
        rows = [(n, VALS[v]) for n, v in zip(*case)]
    st = hg.table(dict(rows))
    want = 'Name\t\tSymbol Type\t\tValue\t\tAtt Type\n'
    for name, (ty, v) in rows:
        shown_v = {True: 'TRUE', False: 'FALSE'}[v] if isinstance(v, bool) else str(v)
        want += '%s\t\t%s\t\t%s\t\t%s\n' % (name.lower(), ty, shown_v, ref.ATT_PREFIX[name.split('.')[0]])
    ctx.step()
    same(str(st), want, table=case)
    if [s.name.lower() for s in st.symbols()] != [n.lower() for n, _ in rows]:
        raise Violation('a table lists other symbols', table=case)
    ctx.state(case)


def run(chk):
    chk.bounds = {'field_values': 'all short strings of unusual characters, all lengths of a ladder', 'certificates': len(c22.pool()), 'trees': len(list(texts())), 'pairs': len(list(eq_texts())) ** 2}
    chk.assumptions = ['attribute names, values and set results are shown by Python\'s own printing']
    chk.explore('fields of certificate parts', ac.field_gen, field_one)
    chk.explore('certificates', cert_gen, cert_one)
    chk.explore('syntax trees', texts, tree_one)
    chk.explore('equality of trees', eq_gen, eq_one)
    chk.explore('symbol tables', table_gen, table_one)
