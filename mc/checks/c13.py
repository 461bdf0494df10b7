"""C13 severity thresholds decide which issues and warnings are raised, for every policy and every level."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH
from mc.checks.c12 import comps

ET = hg.errors.ErrorType
LEVELS = [ET.NONE, ET.INFO, ET.WARN, ET.ERROR, ET.CRIT]
RANK = {'NONE': 0, 'INFO': 1, 'WARN': 2, 'ERROR': 3, 'CRIT': 4}


def check_gen():
    cs = ['1 = "s"', 'user.a = 1', 'user.a = "s"', 'user.a = NULL', 'user.b IN 1', 'user.b = user.a', 'TRUE', 'user.c', '{1} < {1}', 'user.b = {1}', '1 = 1']
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for p in product(cs, repeat=n):
            yield (' AND ', ' OR ')[n % 2].join(p)
    for p in product(['user.a = 1', 'user.a = "s"', '1 = "s"', 'TRUE', '{1} < {1}'], repeat=5 if THOROUGH else 4):
        yield 'user.a = 1 AND ' + ' AND '.join(p)


MANY = [5, 8, 9, 10, 11, 15, 16, 17, 20, 21, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101]


def many_gen():
    """one issue, or one of another kind, after many comparisons without one or with one each"""
    odd = ['1 = "s"', 'user.a = "s"', '1 = 1']
    for n in MANY:
        for first in odd + ['user.b = 1']:
            for last in odd:
                yield ' AND '.join(['user.a = 1'] + [first] * n + [last])
                yield ' OR '.join(['user.a = 1'] + [first] * (n // 2) + [last] + [first] * (n - n // 2))


def many_eval_gen():
    for n in MANY:
        for first, last in product(['1 = 1', 'user.a = 1', 'user.z = 1'], ['user.b', 'user.a < "x"', 'user.a = 1', 'user.q']):
            for c in (' AND ', ' OR '):
                for k in (1, 2):
                    yield (c.join([first] * n + [last]), k)
                    yield (c.join([last] + [first] * n), k)


def raised(fn, *args):
    try:
        return None, fn(*args)
    except hg.errors.HGPLError as e:
        return e, None
    except Exception as e:
        raise Violation('raised %s: %s' % (type(e).__name__, e))


def check_one(ctx, text):
    want, _ = ref.typecheck(ref.parse_text(text))
    node = hg.must_parse(text)
    for lv in [None] + LEVELS:
        tc = hg.semantics.TypeChecker(node, text)
        e, ret = raised(tc.check, *([] if lv is None else [lv]))
        ctx.step()
        level = RANK['CRIT'] if lv is None else RANK[lv.name]
        hit = [w for w in want if RANK[w[0]] >= level]
        if bool(hit) != (e is not None):
            raise Violation('check(level) raised wrongly' if e else 'check(level) did not raise', policy=text, level=lv, issues=want, raised=e)
        if e is not None:
            if (e.type.name, e.pos) != hit[0]:
                raise Violation('check(level) raised another issue than the first', policy=text, level=lv, got=(e.type.name, e.pos), expected=hit[0])
        if sorted((i.type.name, i.pos) for i in tc.get_issues()) != sorted(want):
            raise Violation('issues depend on the level', policy=text, level=lv, got=tc.get_issues(), expected=want)
        kinds = {k for k, _ in want}
        if tc.get_result().name != ('ERROR' if 'ERROR' in kinds else 'WARN' if kinds else 'PASS'):
            raise Violation('the result does not follow the issues', policy=text, level=lv, got=tc.get_result(), issues=want)
    ctx.state(text)


ENVS = [{}, {'user.a': ('INT', 1)}, {'user.a': ('STRING', '1'), 'user.b': ('BOOL', True)}, {'user.a': ('INT', 'x'), 'user.b': ('BOOL', None)},
        {'user.a': ('INT', 1), 'user.b': ('BOOL', False), 'object.s': ('SET', [1])}]


def eval_gen():
    cs = ['user.a = 1', 'user.b', 'object.s IN {1}', 'user.a < "x"', 'TRUE', '1 = 1', 'user.a SUBSET object.s', 'NOT (user.a != 1)', 'user.a']
    for n in (1, 2, 3) if THOROUGH else (1, 2):
        for p in product(cs, repeat=n):
            for c in (' AND ', ' OR '):
                for k in range(len(ENVS)):
                    yield (c.join(p), k)


def eval_one(ctx, case):
    text, k = case
    env = ENVS[k]
    causes = []
    tree = ref.parse_text(text)
    try:
        want = ref.evaluate(tree, env, causes)
    except ref.NotBoolean:
        want = 'E'
    for lv in ['default', None] + LEVELS:
        it = hg.interpreting.Interpreter(hg.must_parse(text), text)
        e, r = raised(it.evaluate, hg.table(env), *([] if lv == 'default' else [lv]))
        ctx.step()
        if want == 'E':
            if e is None or isinstance(e, hg.errors.InterpreterWarning) or not isinstance(e, hg.errors.InterpreterError):
                raise Violation('no error for an undecidable policy', policy=text, attributes=env, level=lv, got=e or r)
            continue
        must = bool(causes) and lv not in ('default', None) and RANK[lv.name] <= RANK['WARN']
        if must != (e is not None):
            raise Violation('evaluate(level) raised wrongly' if e else 'evaluate(level) did not raise', policy=text, attributes=env, level=lv, causes=causes,
                            raised=e)
        ws = it.get_warnings()
        if bool(ws) != bool(causes):
            raise Violation('warnings do not match their causes', policy=text, attributes=env, got=ws, expected=causes)
        if any(w.type is not ET.WARN or not isinstance(w, hg.errors.InterpreterWarning) for w in ws):
            raise Violation('warning of another severity', policy=text, attributes=env, got=ws)
        if e is not None and e is not ws[0]:
            raise Violation('another warning than the first was raised', policy=text, attributes=env, got=e, expected=ws)
        if e is None and hg.result_letter(r) != want:
            raise Violation('decision depends on the level', policy=text, attributes=env, level=lv, got=r, expected=want)
    ctx.state(case)


def order(ctx):
    """the severities are ordered"""
    for a, b in product(ET, repeat=2):
        ctx.step()
        ctx.state((a.name, b.name))
        if (a >= b) != (RANK[a.name] >= RANK[b.name]) or (a < b) != (RANK[a.name] < RANK[b.name]):
            raise Violation('severities are not ordered', a=a, b=b)


def run(chk):
    chk.bounds = {'comparisons_per_policy': 4 if THOROUGH else 3, 'levels': 6}
    chk.one('order of severities', order)
    chk.explore('type checker', check_gen, check_one)
    chk.explore('interpreter', eval_gen, eval_one)
    chk.explore('type checker: many issues', many_gen, check_one)
    chk.explore('interpreter: many comparisons', many_eval_gen, eval_one)
