"""C06 unavailable attributes (missing, no value, no type, value of another type) never decide and never grant."""
import datetime
import decimal
import fractions
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH

# attribute -> available states, then unavailable states
STATES = {
    'user.n': [('INT', 1), ('FLOAT', 2.5), None, ('INT', None), ('INT', '1'), ('UNKNOWN', 1)],
    'object.m': [('INT', 1), ('INT', 0), None, ('FLOAT', [1]), ('UNKNOWN', 0)],
    'env.b': [('BOOL', True), ('BOOL', False), None, ('BOOL', None), ('BOOL', 'TRUE'), ('BOOL', 1), ('UNKNOWN', True)],
    'user.s': [('STRING', 'a'), ('STRING', ''), None, ('STRING', 1), ('UNKNOWN', 'a'), ('STRING', ['a'])],
    'admin.g': [('SET', ['a', 1]), ('SET', set()), None, ('SET', None), ('SET', 'a'), ('UNKNOWN', ['a']), ('STRING', ['a'])],
    'connect.h': [('SET', {1}), ('SET', ['a', 1]), None, ('CUSTOM', {1})],
}
ATOMS = ['env.b', 'user.n = 1', 'user.n != 1', 'user.n > 1', 'user.n <= 1', 'user.n = object.m', 'user.n != object.m', 'object.m < user.n',
         'user.s = "a"', 'user.s != "a"', 'user.s IN {"a", "b"}', 'user.s IN admin.g', '1 IN admin.g', 'admin.g SUBSET connect.h',
         '{} SUBSET admin.g', 'admin.g = {}', 'admin.g != {1}', 'connect.h IN admin.g', 'user.n = NULL', 'user.n != NULL',
         'NULL IN admin.g', 'user.n IN connect.h', 'user.n >= object.m', 'user.s SUBSET admin.g', 'user.s != user.n', 'env.b = 1', 'env.b != 1']
SMALL = [0, 2, 5, 6, 11, 13, 16, 24]


def attrs(text):
    return [a for a in STATES if a in text]


def formulas(size):
    if size == 1:
        for a in ATOMS:
            yield a
            yield 'NOT (%s)' % a
    elif size == 2:
        atoms = ATOMS if THOROUGH else ATOMS[:18]
        for a, b in product(atoms, repeat=2):
            for op in ('AND', 'OR'):
                for f in ('%s %s %s', 'NOT (%s %s %s)', 'NOT (%s) %s %s'):
                    yield f % (a, op, b)
    else:
        atoms = [ATOMS[i] for i in SMALL]
        for a, b, c in product(atoms, repeat=3):
            for o1, o2 in product(('AND', 'OR'), repeat=2):
                yield '%s %s NOT (%s %s %s)' % (a, o1, b, o2, c)


def gen():
    for s in (1, 2, 3):
        for t in formulas(s):
            if len(attrs(t)) <= (4 if THOROUGH else 3):
                yield t


def one(ctx, text):
    names = attrs(text)
    tree = ref.parse_text(text)
    node = hg.must_parse(text)
    results = {}
    spaces = [list(range(len(STATES[a]))) for a in names]
    if len(names) == 3 and not THOROUGH:
        spaces = [s[:4] for s in spaces]
    for combo in product(*spaces):
        env = {a: STATES[a][i] for a, i in zip(names, combo) if STATES[a][i] is not None}
        got = hg.decide(node, env)
        want = hg.ref_eval(tree, env)
        ctx.step()
        if got != want:
            raise Violation('wrong decision with unavailable attributes', policy=text, attributes=env, got=got, expected=want)
        results[combo] = got
    # monotone: a decision taken without some attributes stands whatever their values turn out to be
    for combo, got in results.items():
        ctx.state((text, combo))
        if got in 'TF':
            un = [k for k, i in enumerate(combo) if ref.available(STATES[names[k]][i]) is None]
            for fill in product((0, 1), repeat=len(un)):
                c = list(combo)
                for k, i in zip(un, fill):
                    c[k] = i
                other = results.get(tuple(c))
                ctx.step()
                if other is not None and other != got:
                    raise Violation('a decision changed when an unavailable attribute became available', policy=text,
                                    attributes=[(n, STATES[n][i]) for n, i in zip(names, combo)], decision=got, with_value=other,
                                    completed=c)


UNAV = [None, ('INT', None), ('UNKNOWN', 1), ('STRING', 1), ('INT', 'a'), ('SET', 'a'), ('STRING', ['a']), ('CUSTOM', 1), ('BOOL', 1), ('INT', True)]
CONST = ['1', '0', '1.5', '"a"', '""', 'NULL', '{}', '{1}', '{NULL}', '{"a", 1}']


def comp_gen():
    for u in range(len(UNAV)):
        for op in ('=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET'):
            for pre in ('user', 'object', 'env', 'admin', 'connect'):
                yield (u, op, pre)


def comp_one(ctx, case):
    u, op, pre = case
    name = pre + '.z'
    env = {} if UNAV[u] is None else {name: UNAV[u]}
    others = [(c, None) for c in CONST] + [('user.o', ('INT', 1)), ('user.o', ('STRING', 'a')), ('user.o', ('SET', ['a', 1])), ('user.o', ('BOOL', True)),
                                           ('user.o', None), (name, None)]
    for o, e in others:
        env2 = dict(env)
        if e:
            env2['user.o'] = e
        for t in ('%s %s %s' % (name, op, o), '%s %s %s' % (o, op, name)):
            for form, want in ((t, 'U'), ('NOT (%s)' % t, 'U'), ('(%s) OR FALSE' % t, 'U'), ('TRUE AND (%s)' % t, 'U'), ('TRUE OR %s' % t, 'T'),
                               ('%s AND FALSE' % t, 'F')):
                got = hg.decide(form, env2)
                ctx.step()
                if got != want:
                    raise Violation('comparison with an unavailable attribute', policy=form, attributes=env2, got=got, expected=want)
    for form, want in ((name, 'U'), ('NOT ' + name, 'U'), (name + ' OR TRUE', 'T'), (name + ' AND TRUE', 'U')):
        got = hg.decide(form, env)
        if got != want:
            raise Violation('unavailable attribute as a condition', policy=form, attributes=env, got=got, expected=want)
    ctx.state(case)


ODD = [b'a', b'', b'1', (1,), (), ('a', 1), 1j, complex(1), decimal.Decimal(1), fractions.Fraction(1, 2), {1: 2}, {}, object(), int, NotImplemented, ..., bytearray(b'a'), range(2), iter([1]), datetime.date(2020, 1, 1)]
TYPES = ['INT', 'FLOAT', 'STRING', 'BOOL', 'SET', 'UNKNOWN', 'CUSTOM']
FORMS = [('user.a', 'U'), ('NOT user.a', 'U'), ('user.a = 1', 'U'), ('user.a != 1', 'U'), ('1 != user.a', 'U'), ('user.a = "a"', 'U'), ('user.a != "a"', 'U'), ('user.a > 0', 'U'), ('user.a >= "a"', 'U'), ('user.a IN {1, "a"}', 'U'),
         ('NOT (user.a IN {2})', 'U'), ('1 IN user.a', 'U'), ('NOT (2 IN user.a)', 'U'), ('{} SUBSET user.a', 'U'), ('user.a SUBSET {1}', 'U'), ('user.a = user.a', 'U'), ('user.a != user.a', 'U'), ('user.a = NULL', 'U'), ('user.a != NULL', 'U'),
         ('user.a = {}', 'U'), ('user.a != {1}', 'U'), ('user.a = 1 OR TRUE', 'T'), ('user.a AND FALSE', 'F')]


def odd_gen():
    for v in range(len(ODD)):
        for ty in TYPES:
            yield (v, ty)


def odd_one(ctx, case):
    """values that are not of any policy type, declared as every type"""
    v, ty = case
    for how in range(3):
        for form, want in FORMS:
            if how == 0:
                st = hg.symbols.SymbolTable()
                st.define(hg.symbols.Symbol('a', hg.TT.USR_ATT, hg.ST[ty], ODD[v]))
            elif how == 1:
                st = hg.symbols.SymbolTableBuilder(types={'user.a': hg.ST[ty]}, user_atts={'a': ODD[v]}).build()
            else:
                st = hg.table({'user.a': ('INT', 1)})
                hg.decide(form, {}, st)
                st.set_value('user.a', ODD[v])
                st.switch_type('user.a', hg.ST[ty])
            got = hg.decide(form, {}, st)
            ctx.step()
            if got != want:
                raise Violation('a value of another type than the declared one decides', policy=form, declared=ty, value=repr(ODD[v]), got=got, expected=want)
    ctx.state(case)


VALUES = [1, 0, 2.5, 'a', '', '1', True, False, {1}, ['a'], [], set()]
KEYS = [None, 'a', 'object.a', 'user.b', 'usera', 'user.a.', 'user', '.a', 'users.a', 'user.aa', ' user.a', 'unkown.a', 'env.a', 'admin.a', 'connect.a']


def untyped_gen():
    for v in range(len(VALUES)):
        for k in KEYS:
            for ty in TYPES[:5]:
                if k is not None or ty == 'INT':
                    yield (v, k, ty)


def untyped_one(ctx, case):
    """a type given under another name does not make the attribute available, and no type is guessed from a value"""
    v, k, ty = case
    types = None if k is None else {k: hg.ST[ty]}
    for how in (0, 1):
        if how == 0:
            b = hg.symbols.SymbolTableBuilder(types=types, user_atts={'a': VALUES[v]})
        else:
            b = hg.symbols.SymbolTableBuilder(types=types)
            b.load_mixed_att_val_dict({'User.a': VALUES[v]})
        st = b.build()
        for form, want in FORMS:
            got = hg.decide(form, {}, st)
            ctx.step()
            if got != want:
                raise Violation('an attribute without a type decides', policy=form, types=types, value=repr(VALUES[v]), got=got, expected=want)
    ctx.state(case)


def none_gen():
    for s in (1, 2):
        for t in formulas(s):
            yield t


def none_one(ctx, text):
    """no attributes at all: evaluate() and evaluate(None) as with an empty table"""
    want = hg.ref_eval(ref.parse_text(text), {})
    node = hg.must_parse(text)
    for args in ((), (None,), (hg.symbols.SymbolTable(),)):
        try:
            r = hg.interpreting.Interpreter(node).evaluate(*args)
        except Exception as e:
            raise Violation('evaluation without attributes raised %s: %s' % (type(e).__name__, e), policy=text)
        ctx.step()
        if hg.result_letter(r) != want:
            raise Violation('wrong decision without attributes', policy=text, got=r, expected=want)
    ctx.state(text)


def run(chk):
    chk.bounds = {'atoms': len(ATOMS), 'formula_atoms': 3, 'attribute_states': {k: len(v) for k, v in STATES.items()}}
    chk.explore('every comparison', comp_gen, comp_one)
    chk.explore('odd values', odd_gen, odd_one)
    chk.explore('attributes without a type', untyped_gen, untyped_one)
    chk.explore('no attributes', none_gen, none_one)
    chk.explore('all formulas x all availability states', gen, one)
