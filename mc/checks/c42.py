"""C42 an evaluation explains itself: its warnings are the unavailable attributes and the impossible comparisons of that evaluation, no more and no fewer."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH
from mc.checks import c06

OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET']
SHOWN = {'=': '=', '!=': '='}


def judge(text, it, want, **detail):
    """the warnings of interpreter it after an evaluation against the reference causes"""
    got = it.get_warnings()
    for w in got:
        if not isinstance(w, hg.errors.InterpreterWarning) or w.type != hg.errors.ErrorType.WARN:
            raise Violation('a warning of another kind', policy=text, got=repr(w), **detail)
        if w.policy_text != text:
            raise Violation('a warning of another policy', policy=text, got=w.policy_text, **detail)
    at = {p: n for k, n, p in want if k == 'att'}
    placed = [w for w in got if w.pos in at]
    if {w.pos for w in placed} != set(at):
        raise Violation('an unavailable attribute is not reported', policy=text, missing=sorted(set(at) - {w.pos for w in placed}), got=[str(w) for w in got], **detail)
    for w in placed:
        if at[w.pos].lower() not in w.message.lower():
            raise Violation('a warning does not name its attribute', policy=text, got=str(w), attribute=at[w.pos], **detail)
    ops = sorted(SHOWN.get(n, n) for k, n, p in want if k == 'op')
    rest = [w for w in got if w.pos not in at]
    names = sorted(o for w in rest for o in ('=', '<', '>', '<=', '>=', 'IN', 'SUBSET') if "'%s'" % o in w.message)
    if names != ops or len(rest) != len(ops):
        raise Violation('the warnings are not the comparisons that were impossible', policy=text, got=[str(w) for w in rest], expected=ops, **detail)
    return got


def evaluate(text, env, src=0):
    it = hg.interpreting.Interpreter(hg.parsing.Parser(hg.lexing.Lexer(text))) if src else hg.interpreting.Interpreter(hg.must_parse(text), text)
    return it, hg.run(it, hg.table(env))


def check(ctx, text, env, src=0):
    warns = []
    try:
        want = ref.evaluate(ref.parse_text(text), env, warns)
    except ref.NotBoolean:
        return
    it, got = evaluate(text, env, src)
    ctx.step()
    if got != want:
        raise Violation('wrong decision', policy=text, attributes=env, got=got, expected=want)
    judge(text, it, warns, attributes=env)
    hg.run(it, hg.table(env))
    judge(text, it, warns, attributes=env, evaluated_again=True)
    if got == 'U' and not warns and 'UNDEF' not in text:
        raise Violation('an undefined decision without a cause', policy=text, attributes=env)


def gen():
    for s in (1, 2, 3):
        for t in c06.formulas(s):
            if len(c06.attrs(t)) <= (4 if THOROUGH else 3):
                yield t


def one(ctx, text):
    names = c06.attrs(text)
    spaces = [list(range(len(c06.STATES[a]))) for a in names]
    if len(names) >= 2 and not THOROUGH:
        spaces = [s[:4] if len(names) == 3 else s[:5] for s in spaces]
    for combo in product(*spaces):
        env = {a: c06.STATES[a][i] for a, i in zip(names, combo) if c06.STATES[a][i] is not None}
        check(ctx, text, env, sum(combo) % 2)
        ctx.state((text, combo))


SIDES = ['1', '0', '1.5', '"a"', '""', 'NULL', '{}', '{1}', '{"a"}', '{NULL, 1.5}', 'user.i', 'object.f', 'env.s', 'admin.b', 'connect.g', 'user.n', 'object.z', 'env.bad']
ENV = {'user.i': ('INT', 0), 'object.f': ('FLOAT', 1.5), 'env.s': ('STRING', ''), 'admin.b': ('BOOL', False), 'connect.g': ('SET', [1, 'a']), 'user.n': ('INT', None), 'env.bad': ('INT', 'x')}


def pair_gen():
    for l, r in product(SIDES, repeat=2):
        yield (l, r)


def pair_one(ctx, case):
    l, r = case
    for op in OPS:
        c = '%s %s %s' % (l, op, r)
        for f in (c, 'NOT (%s)' % c, 'TRUE OR %s' % c, '%s AND FALSE' % c, '(%s) OR (%s)' % (c, c), 'FALSE AND (admin.b OR NOT (%s))' % c, '%s AND object.z' % c, 'UNDEF OR %s' % c):
            for src in (0, 1):
                check(ctx, f, ENV, src)
    ctx.state(case)


# -- strict evaluations: a warning at or above the level asked for is raised ---------------------------------------------------------
def strict_gen():
    for l, r in product(SIDES, repeat=2):
        yield (l, r)


def strict_one(ctx, case):
    l, r = case
    E = hg.errors.ErrorType
    for op, form in product(OPS, ('%s', 'NOT (%s) OR TRUE', 'object.z AND (%s)')):
        text = form % ('%s %s %s' % (l, op, r))
        warns = []
        want = ref.evaluate(ref.parse_text(text), ENV, warns)
        it = hg.interpreting.Interpreter(hg.must_parse(text), text)
        for level in (None, E.NONE, E.INFO, E.WARN, E.ERROR, E.CRIT, 0, 2, 3):
            ctx.step()
            due = bool(warns) and level is not None and level <= 2
            try:
                got = hg.result_letter(it.evaluate(hg.table(ENV), level))
            except hg.errors.InterpreterWarning as e:
                if not due:
                    raise Violation('a warning below the level asked for was raised', policy=text, level=str(level), got=str(e))
                if not any(e is w for w in it.get_warnings()):
                    raise Violation('what was raised is no warning of the evaluation', policy=text, level=str(level), got=str(e))
            else:
                if due:
                    raise Violation('a warning at the level asked for was not raised', policy=text, level=str(level), got=got)
                if got != want:
                    raise Violation('wrong decision', policy=text, level=str(level), got=got, expected=want)
            judge(text, it, warns, level=str(level))
    ctx.state(case)


# -- many causes ------------------------------------------------------------------------------------------------------------------
def many_gen():
    for n in list(range(1, 40)) + [50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 220]:
        for kind in range(6):
            yield (n, kind)


def many_one(ctx, case):
    n, kind = case
    atom = [lambda i: 'user.z', lambda i: 'user.z%d = 1' % i, lambda i: '1 = "a"', lambda i: 'user.i < "a"' if i % 2 else 'env.q', lambda i: ['TRUE', 'user.m', '1 IN 1', 'env.s SUBSET 1'][i % 4],
            lambda i: 'user.i = 0' if i != n // 2 else 'object.z = 0'][kind]
    for c in (' AND ', ' OR '):
        check(ctx, c.join(atom(i) for i in range(n)), ENV, n % 2)
        check(ctx, '  \t' + c.join('%s ' % atom(i) for i in range(n)), ENV, 0)
    ctx.state(case)


# -- histories --------------------------------------------------------------------------------------------------------------------
TEXTS = ['user.a = 1 OR env.b', 'user.a < "x" AND NOT env.b', 'user.c IN {1} OR user.a = user.c']
ENVS = [{}, {'user.a': ('INT', 1), 'env.b': ('BOOL', True), 'user.c': ('INT', 1)}, {'user.a': ('STRING', 'x'), 'env.b': ('BOOL', None)}, {'user.a': ('SET', [1]), 'user.c': ('UNKNOWN', 1), 'env.b': ('BOOL', False)}]
ACTS = [0, 1, 2, 3, 'raise', 'spoil', 'notable']


def hist_gen():
    for t in range(len(TEXTS)):
        for n in range(1, 5 if THOROUGH else 4):
            for h in product(ACTS, repeat=n):
                yield (t, h)


def hist_one(ctx, case):
    t, h = case
    text = TEXTS[t]
    tree = ref.parse_text(text)
    node = hg.must_parse(text)
    its = [hg.interpreting.Interpreter(node, text), hg.interpreting.Interpreter(hg.parsing.Parser(hg.lexing.Lexer(text)))]
    for it in its:
        if it.get_warnings() != []:
            raise Violation('warnings before any evaluation', policy=text)
    tables = [hg.table(e) for e in ENVS]
    warns = []
    for act in h:
        for it in its:
            ctx.step()
            if act == 'spoil':
                w = it.get_warnings()
                w.append('x')
                del w[:1]
            elif act == 'raise':
                try:
                    it.evaluate(tables[0], hg.errors.ErrorType.WARN)
                except hg.errors.InterpreterWarning:
                    pass
                else:
                    raise Violation('no warning was raised', policy=text)
                warns = []
                ref.evaluate(tree, {}, warns)
            elif act == 'notable':
                it.evaluate()
                warns = []
                ref.evaluate(tree, {}, warns)
            else:
                hg.run(it, tables[act])
                warns = []
                ref.evaluate(tree, ENVS[act], warns)
            judge(text, it, warns, history=h)
    ctx.state(case)


PAIR = [('user.a = 1 OR env.b', {}), ('user.a < "x" AND NOT env.b', {'user.a': ('INT', 1)}), ('TRUE', {}), ('user.c IN {1} OR user.a = user.c', {'user.c': ('INT', 1)}), ('1 = "s"', {}),
        ('user.a = 1 OR env.b', {'user.a': ('INT', 1), 'env.b': ('BOOL', True)})]


def apart_gen():
    for n in (2, 3, 4) if THOROUGH else (2, 3):
        yield from product(range(len(PAIR)), repeat=n)


def apart_one(ctx, case):
    """several interpreters: each keeps the warnings of its own last evaluation"""
    its = [hg.interpreting.Interpreter(hg.must_parse(PAIR[k][0]), PAIR[k][0]) for k in case]
    for rounds in (1, 2):
        done = []
        for it, k in (zip(its, case) if rounds == 1 else reversed(list(zip(its, case)))):
            hg.run(it, hg.table(PAIR[k][1]))
            done.append((it, k))
            for it2, k2 in done if rounds == 1 else list(zip(its, case)):
                ctx.step()
                warns = []
                ref.evaluate(ref.parse_text(PAIR[k2][0]), PAIR[k2][1], warns)
                judge(PAIR[k2][0], it2, warns, others=[PAIR[x][0] for x in case])
    ctx.state(case)


def run(chk):
    chk.bounds = {'atoms': len(c06.ATOMS), 'operands': len(SIDES), 'causes': 220, 'history_length': 4 if THOROUGH else 3}
    chk.assumptions = ['a comparison warning has no position (upstream) and is recognised by the operator it names']
    chk.explore('formulas x availability', gen, one)
    chk.explore('all comparisons', pair_gen, pair_one)
    chk.explore('strict evaluations', strict_gen, strict_one)
    chk.explore('many causes', many_gen, many_one)
    chk.explore('several interpreters', apart_gen, apart_one)
    chk.explore('all histories of evaluations', hist_gen, hist_one)
