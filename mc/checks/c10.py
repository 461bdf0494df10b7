"""C10 encodings do not depend on what the process did before, and decoded trees can be composed: explores histories."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH

POL = ['user.a = 1', 'TRUE', 'user.a IN {1, "x"} AND NOT (env.b OR user.c > 2.5)', '{} SUBSET {NULL}']
# an action either makes a tree ('parse', i) / ('decode', i) / ('compose', op, x, y) on the stack of trees, or disturbs the process
ACTS = [('parse', 0), ('parse', 2), ('decode', 0), ('decode', 2), ('and',), ('or',), ('not',), ('re',), ('eval',), ('filler', 300), ('gc',)]
ENC = {}


def tok(kind, v):
    return hg.lexing.Token(hg.TT[kind], 0, v)


def gen():
    n = 6 if THOROUGH else 5
    for k in range(1, n + 1):
        for h in product(range(len(ACTS)), repeat=k):
            depth = 0
            ok = True
            for a in h:
                name = ACTS[a][0]
                if name in ('parse', 'decode'):
                    depth += 1
                elif name in ('and', 'or'):
                    if depth < 2:
                        ok = False
                        break
                    depth -= 1
                elif name in ('not', 're', 'eval', 'gc') and depth < 1:
                    ok = False
                    break
            if ok and depth:
                yield h


def expected(op, l, r=None):
    return (op, 0, l, r) if r is not None else (op, 0, l)


def one(ctx, h):
    stack = []       # (node, expected tree)
    for a in h:
        act = ACTS[a]
        ctx.step()
        if act[0] == 'parse':
            stack.append((hg.must_parse(POL[act[1]]), ref.parse_text(POL[act[1]])))
        elif act[0] == 'decode':
            stack.append((hg.ast.ASTEncoder.decode(ENC[act[1]]), ref.parse_text(POL[act[1]])))
        elif act[0] in ('and', 'or'):
            (r, rt), (l, lt) = stack.pop(), stack.pop()
            stack.append((hg.ast.BoolOpNode(tok('BOOL_OP', act[0].upper()), l, r), (act[0], 0, lt, rt)))
        elif act[0] == 'not':
            n, t = stack.pop()
            stack.append((hg.ast.NotNode(tok('NOT_OP', 'NOT'), n), ('not', 0, t)))
        elif act[0] == 're':
            n, t = stack.pop()
            stack.append((hg.ast.ASTEncoder.decode(hg.ast.ASTEncoder.encode(n)), t))
        elif act[0] == 'eval':
            n, t = stack[-1]
            hg.decide(n, {'user.a': ('INT', 1), 'env.b': ('BOOL', True)})
        elif act[0] == 'filler':
            for _ in range(act[1]):
                hg.ast.IntValNode(tok('INT', 1))
        elif act[0] == 'gc':
            n, t = stack.pop()
            del n
            stack.append((hg.must_parse(POL[1]), ref.parse_text(POL[1])))
    for n, t in stack:
        got = hg.to_tree(n)
        if hg.typed(got) != hg.typed(t):
            raise Violation('composed tree is wrong', history=[ACTS[a] for a in h], got=got, expected=t)
        dec = hg.ast.ASTEncoder.decode(hg.ast.ASTEncoder.encode(n))
        if hg.typed(hg.to_tree(dec)) != hg.typed(t):
            raise Violation('composed tree does not survive encoding', history=[ACTS[a] for a in h], got=hg.to_tree(dec), expected=t)
        env = {'user.a': ('INT', 1), 'env.b': ('BOOL', False), 'user.c': ('INT', 3)}
        if hg.decide(dec, env) != hg.ref_eval(t, env):
            raise Violation('composed tree decides differently after encoding', history=[ACTS[a] for a in h])
    for i, p in enumerate(POL):
        if bytes(hg.ast.ASTEncoder.encode(hg.must_parse(p))) != ENC[i]:
            raise Violation('the encoding of a policy changed with the history of the process', history=[ACTS[a] for a in h], policy=p)
    ctx.state(h)


def many_gen():
    for n in (0, 1, 100, 253, 254, 255, 256, 257, 300, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131072, 200000):
        yield n


def many_one(ctx, n):
    """n nodes were created before (in this worker at least n)"""
    for _ in range(n):
        hg.ast.IntValNode(tok('INT', 1))
    ctx.step(n + 1)
    ctx.state(n)
    for i, p in enumerate(POL):
        got = bytes(hg.ast.ASTEncoder.encode(hg.must_parse(p)))
        if got != ENC[i]:
            raise Violation('the encoding of a policy changed after many nodes', created=n, policy=p)
        if hg.typed(hg.to_tree(hg.ast.ASTEncoder.decode(got))) != hg.typed(ref.parse_text(p)):
            raise Violation('decoding fails after many nodes', created=n, policy=p)


def shared_gen():
    for p in POL:
        for op in ('AND', 'OR'):
            for depth in range(1, 7):
                yield (p, op, depth)


def shared_one(ctx, case):
    """the same node object used as both operands"""
    p, op, depth = case
    n, t = hg.must_parse(p), ref.parse_text(p)
    for _ in range(depth):
        n, t = hg.ast.BoolOpNode(tok('BOOL_OP', op), n, n), (op.lower(), 0, t, t)
    enc = hg.ast.ASTEncoder.encode(n)

    def scratch(d):
        return hg.must_parse(p) if d == 0 else hg.ast.BoolOpNode(tok('BOOL_OP', op), scratch(d - 1), scratch(d - 1))
    if bytes(enc) != bytes(hg.ast.ASTEncoder.encode(scratch(depth))):
        raise Violation('tree with shared nodes encodes unlike the same tree built from scratch', case=case)
    dec = hg.ast.ASTEncoder.decode(enc)
    ctx.step()
    ctx.state(case)
    if hg.typed(hg.to_tree(dec)) != hg.typed(t):
        raise Violation('tree with shared nodes does not survive encoding', case=case)


ALIKE = ['user.a = %s' % v for v in ('0', '0.0', '-0', '-0.0', '1', '1.0', '-1', '-1.0', 'TRUE', 'FALSE', 'NULL', '"1"', '"1.0"', '"TRUE"', '"true"', '""', '"a"', '"A"', '10', '10.0', '1.00', '01', '{}', '{1}', '{1.0}',
         '{0.0}', '{-0.0}', '{TRUE}', '{"1"}', 'user.b', 'object.b', 'user.B', 'env.b', 'connect.b', 'admin.b', '1000000000000000000', '1000000000000000000.0', '9007199254740993', '9007199254740992.0')] \
    + ['object.a = 1', 'user.A = 1', 'user.a > 1', 'user.a <= 1', 'user.a IN {1}', 'user.a != 1']


def parses(p):
    try:
        return ref.parse_text(p) is not None
    except (ref.LexErr, ref.ParseErr):
        return False


def alike_gen():
    ok = [p for p in ALIKE if parses(p)]
    for p in ok:
        for q in ok:
            yield (p, q)


def alike_one(ctx, case):
    """a policy is encoded after another one that looks the same in places"""
    for k, p in enumerate(case + case[:1]):
        n = hg.must_parse(p)
        got = hg.typed(hg.to_tree(hg.ast.ASTEncoder.decode(hg.ast.ASTEncoder.encode(n))))
        ctx.step()
        if repr(got) != repr(hg.typed(ref.parse_text(p))):
            raise Violation('the encoding of a policy depends on the one before', policies=case, policy=p, got=got)
    ctx.state(case)


def order_gen():
    for n in range(0, 6):
        for pos in product((0, 5, 9) if n > 3 else (0, 1, 7, 300), repeat=n):
            yield pos


def order_one(ctx, pos):
    """sets built by a program: their elements keep their order whatever the positions of their tokens"""
    A, T = hg.ast, hg.lexing.Token
    for vals in ([3, 1, 2, 0, 5], ['b', 'a', '', 'a', 'c'], [1, 1, 1, 1, 1], [2.5, -1.0, 0.0, 7.0, 7.0]):
        cls, kind = {int: (A.IntValNode, 'INT'), str: (A.StringValNode, 'STRING'), float: (A.FloatValNode, 'FLOAT')}[type(vals[0])]
        kids = [cls(T(hg.TT[kind], p, v)) for p, v in zip(pos, vals)]
        tree = A.OpNode(T(hg.TT.OP, 2, 'IN'), A.UsrAttNode(T(hg.TT.USR_ATT, 40, 'a')), A.SetNode(T(hg.TT.LSET, 3, '{'), T(hg.TT.RSET, 4, '}'), kids))
        want = hg.typed(hg.to_tree(tree))
        got = hg.typed(hg.to_tree(A.ASTEncoder.decode(A.ASTEncoder.encode(tree))))
        ctx.step()
        if [x[2] for x in hg.to_tree(tree)[4][2]] != vals[:len(pos)]:
            raise Violation('a set is not composed of the elements it was given', positions=pos, values=vals, got=hg.to_tree(tree))
        if got != want:
            raise Violation('a composed set does not survive encoding', positions=pos, values=vals, got=got, expected=want)
    ctx.state(pos)


def run(chk):
    for i, p in enumerate(POL):
        ENC[i] = bytes(hg.ast.ASTEncoder.encode(hg.must_parse(p)))
    chk.bounds = {'actions': len(ACTS), 'history_length': 6 if THOROUGH else 5, 'nodes_created_before': 200000}
    chk.explore('node counts', many_gen, many_one, workers=1)
    chk.explore('positions of set elements', order_gen, order_one)
    chk.explore('policies that look alike', alike_gen, alike_one)
    chk.explore('shared nodes', shared_gen, shared_one)
    chk.explore('all histories', gen, one)
