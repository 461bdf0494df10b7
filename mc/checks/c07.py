"""C07 a decision depends on the policy and the attributes given to that evaluation only: explores all call histories."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH

POLICIES = ['user.a = 1', 'user.b', 'NOT user.b', 'user.a > 1 AND user.b', 'user.a = 1 OR user.s IN {"x", 0}', 'TRUE', 'FALSE', 'UNDEF',
            'NOT (user.a != 1 AND user.b) OR env.t SUBSET {1, 2}', 'user.s = user.a', '{0} = {0}', '0 = 0', 'user.a IN env.t AND 0 IN {0, ""}',
            'user.b AND user.b', '"" = ""', 'user.a', 'user.b OR user.a', 'user.s != "x"']
ENVS = [
    {'user.a': ('INT', 1), 'user.b': ('BOOL', True), 'user.s': ('STRING', 'x'), 'env.t': ('SET', [1])},
    {'user.a': ('INT', 2), 'user.b': ('BOOL', False), 'user.s': ('STRING', 'y'), 'env.t': ('SET', [3, 2])},
    {},
    {'user.a': ('STRING', 'x'), 'user.b': ('INT', 1), 'user.s': ('STRING', 'x'), 'env.t': ('SET', set())},
    {'user.a': ('INT', 0), 'user.b': ('BOOL', True)},
]
EXTRA = ['typecheck', 'encode', 'str', 'warn_raise']


def gen():
    n = 4 if THOROUGH else 3
    acts = list(range(len(ENVS))) + EXTRA
    for p in POLICIES:
        for k in range(1, n + 1):
            for h in product(acts, repeat=k):
                if isinstance(h[-1], int):
                    yield (p, h)


def snapshot(st):
    return sorted((s.name, s.type.name, repr(s.value)) for s in st.symbols())


def one(ctx, case):
    text, hist = case
    tree = ref.parse_text(text)
    node = hg.must_parse(text)
    interps = [hg.interpreting.Interpreter(node), hg.interpreting.Interpreter(hg.parsing.Parser(hg.lexing.Lexer(text)))]
    tables = [hg.table(e) for e in ENVS]
    for step, act in enumerate(hist):
        ctx.step()
        if act == 'typecheck':
            hg.semantics.TypeChecker(node, text).check()
        elif act == 'encode':
            hg.ast.ASTEncoder.encode(node)
        elif act == 'str':
            str(node), repr(node)
        elif act == 'warn_raise':
            try:
                interps[0].evaluate(tables[2], hg.errors.ErrorType.WARN)
            except hg.errors.HGPLError:
                pass
        else:
            want = hg.ref_eval(tree, ENVS[act])
            for it in interps + [hg.interpreting.Interpreter(node)]:
                before = snapshot(tables[act])
                got = hg.run(it, tables[act])
                if got != want:
                    raise Violation('decision depends on earlier evaluations', policy=text, history=hist, step=step, got=got, expected=want,
                                    fresh=hg.decide(text, ENVS[act]))
                if snapshot(tables[act]) != before:
                    raise Violation('evaluation changed the attribute values', policy=text, history=hist, step=step)
                if want != 'E':
                    fresh = hg.interpreting.Interpreter(hg.must_parse(text))
                    fresh.evaluate(hg.table(ENVS[act]))
                    a = sorted((w.message, w.rule) for w in it.get_warnings())
                    b = sorted((w.message, w.rule) for w in fresh.get_warnings())
                    if a != b:
                        raise Violation('warnings depend on earlier evaluations', policy=text, history=hist, step=step, got=a, expected=b)
    ctx.state((text, hist))
    if hg.typed(hg.to_tree(node)) != hg.typed(tree):
        raise Violation('evaluation changed the policy tree', policy=text, history=hist)


def mutate_gen():
    """one symbol table whose values are changed between evaluations of one interpreter"""
    vals = [('INT', 1), ('INT', 2), ('INT', None), ('STRING', '1'), ('SET', [1]), ('BOOL', True), ('BOOL', False)]
    pols = ['user.a = 1', 'user.a != 1', 'user.a IN {1}', 'NOT (user.a > 1)', 'user.a', 'NOT user.a', 'user.a OR user.a = "1"', '{1} = user.a']
    for p in pols:
        for h in product(range(len(vals)), repeat=4 if THOROUGH else 3):
            yield (p, [vals[i] for i in h])


def mutate_one(ctx, case):
    text, hist = case
    tree = ref.parse_text(text)
    it = hg.interpreting.Interpreter(hg.must_parse(text))
    st = hg.table({'user.a': ('INT', 0)})
    for ty, v in hist:
        st.set_value('user.A', hg.sym_value(v))
        st.switch_type('USER.a', hg.ST[ty])
        want = hg.ref_eval(tree, {'user.a': (ty, v)})
        got = hg.run(it, st)
        ctx.step()
        if got != want:
            raise Violation('decision does not follow the current attribute value', policy=text, history=hist, got=got, expected=want)
    ctx.state((text, repr(hist)))


STEPS = [('define', 'user.a', ('INT', 1)), ('define', 'user.a', ('INT', 2)), ('define', 'USER.b', ('BOOL', True)), ('define', 'env.a', ('INT', 1)), ('set', 'user.a', ('INT', 2)),
         ('set', 'user.b', ('BOOL', False)), ('none',), ('empty',), ('other', {'user.a': ('INT', 1)}), ('other', {'user.a': ('INT', 3), 'user.b': ('BOOL', True)}), ('new', {}), ('new', {'user.a': ('INT', 1)}),
         ('extend', 'user.s', 2)]
GROW = ['user.a = 1', 'NOT (user.a = 1)', 'user.b', 'user.a = 1 OR user.b', 'env.a = user.a', 'user.s IN {2}']


def grow_gen():
    """attributes appear, change and disappear between evaluations: tables grow, are replaced by new ones, or are left out"""
    for p in GROW:
        for h in product(range(len(STEPS)), repeat=4 if THOROUGH else 3):
            yield (p, h)


def grow_one(ctx, case):
    text, hist = case
    tree = ref.parse_text(text)
    it = hg.interpreting.Interpreter(hg.parsing.Parser(hg.lexing.Lexer(text)))
    env = {'user.s': ('SET', [1])}
    st = hg.table(env)
    for step, i in enumerate(hist):
        act = STEPS[i]
        use, now = st, env
        if act[0] == 'define':
            st.define(hg.symbol(act[1], act[2]))
            if act[1].lower() not in env:
                env[act[1].lower()] = act[2]
        elif act[0] == 'set' and act[1] in env:
            st.set_value(act[1], hg.sym_value(act[2][1]))
            env[act[1]] = act[2]
        elif act[0] == 'extend' and act[1] in env:
            env[act[1]] = ('SET', env[act[1]][1] + [act[2]])
            st.set_value(act[1], list(env[act[1]][1]))
        elif act[0] == 'none':
            use, now = None, {}
        elif act[0] == 'empty':
            use, now = hg.symbols.SymbolTable(), {}
        elif act[0] == 'other':
            use, now = hg.table(act[1]), act[1]
        elif act[0] == 'new':
            del st
            env = dict(act[1])
            use = st = hg.table(env)
            now = env
        want = hg.ref_eval(tree, now)
        got = hg.run(it, use)
        use = None
        ctx.step()
        if got != want:
            raise Violation('decision does not follow the attributes of this evaluation', policy=text, history=[STEPS[j] for j in hist], step=step, got=got, expected=want)
    ctx.state((text, hist))


def share_gen():
    """interpreters of different policies that share a subtree / a symbol table, evaluated in all orders"""
    subs = ['user.b', 'user.a = 1', 'NOT user.b', 'user.s IN {"x"}']
    for s, t in product(subs, subs):
        for order in product((0, 1, 2), repeat=3):
            for e in product(range(len(ENVS)), repeat=2):
                yield (s, t, order, e)


def share_one(ctx, case):
    s, t, order, es = case
    a, b = hg.must_parse(s), hg.must_parse(t)
    tok = hg.lexing.Token
    both = hg.ast.BoolOpNode(tok(hg.TT.BOOL_OP, 0, 'AND'), a, b)
    trees = [ref.parse_text(s), ref.parse_text(t), ref.parse_text('(%s) AND (%s)' % (s, t))]
    its = [hg.interpreting.Interpreter(x) for x in (a, b, both)]
    for k, o in enumerate(order):
        env = ENVS[es[k % 2]]
        want = hg.ref_eval(trees[o], env)
        got = hg.run(its[o], hg.table(env))
        ctx.step()
        if got != want:
            raise Violation('interpreters that share nodes influence each other', case=case, step=k, got=got, expected=want)
    ctx.state(case)


def long_gen():
    for p in ('user.a = 1', 'user.b', 'NOT (user.b AND user.a = 1) OR user.s IN {"x"}'):
        for period in (1, 2, 3, 5, 7):
            yield (p, period)


def long_one(ctx, case):
    """hundreds of evaluations by one interpreter"""
    text, period = case
    tree = ref.parse_text(text)
    it = hg.interpreting.Interpreter(hg.must_parse(text))
    for k in range(2500 if THOROUGH else 700):
        env = ENVS[(k // period + k // 97) % len(ENVS)]
        want = hg.ref_eval(tree, env)
        got = hg.run(it, hg.table(env))
        ctx.step()
        if got != want:
            raise Violation('decision depends on how many evaluations came before', policy=text, evaluation=k, got=got, expected=want)
    ctx.state(case)


def run(chk):
    chk.bounds = {'policies': len(POLICIES), 'actions': len(ENVS) + len(EXTRA), 'history_length': 4 if THOROUGH else 3}
    chk.explore('all histories', gen, one)
    chk.explore('changing one table', mutate_gen, mutate_one)
    chk.explore('growing and replaced tables', grow_gen, grow_one)
    chk.explore('long histories', long_gen, long_one)
    chk.explore('shared subtrees', share_gen, share_one)
