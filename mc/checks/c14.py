"""C14 symbol tables and their builder: every operation sequence behaves like a case-insensitive, first-definition-wins map."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH

ST, TT = hg.ST, hg.TT
NAMES = [('a', 'USR_ATT'), ('A', 'USR_ATT'), ('a', 'OBJ_ATT'), ('b', 'USR_ATT')]
PRE = {'USR_ATT': 'user.', 'OBJ_ATT': 'object.', 'ENV_ATT': 'env.', 'ADM_ATT': 'admin.', 'CON_ATT': 'connect.'}
R = hg.R


def norm(v):
    return R.TRUE if v is True else R.FALSE if v is False else v


def ops():
    out = []
    for n in range(4):
        for ty, v in (('INT', 1), ('BOOL', True), (None, None)):
            out.append(('define', n, ty, v))
    for key in ('user.a', 'USER.A', 'object.A', 'user.b'):
        for v in (2, False, 'x', None):
            out.append(('set', key, v))
        for ty in ('STRING', 'BOOL'):
            out.append(('switch', key, ty))
    return out


OPS = ops()


def observe(st, model):
    """every reading operation agrees with the model"""
    if set(st.names()) != set(model):
        raise Violation('wrong names', got=sorted(st.names()), expected=sorted(model))
    if sorted(s.name for s in st.symbols()) != sorted(model):
        raise Violation('wrong symbols', got=[s.name for s in st.symbols()])
    str(st), repr(st)
    for key in ('user.a', 'User.A', 'object.a', 'OBJECT.A', 'user.b', 'env.a', 'a', ''):
        m = model.get(key.lower())
        got = st.lookup(key)
        if st.exists(key) != (m is not None) or (got is None) != (m is None):
            raise Violation('existence of a name', key=key, got=got, expected=m)
        if m is None:
            if st.lookup_type(key) is not None or st.lookup_att_type(key) is not None or st.lookup_att_name(key) is not None:
                raise Violation('properties of an unknown name', key=key)
            try:
                st.lookup_value(key)
            except Exception:
                continue
            raise Violation('value of an unknown name', key=key)
        att, tt, ty, v = m
        have = (got.att_name, got.att_type.name, got.type.name, got.value)
        also = (st.lookup_att_name(key), st.lookup_att_type(key).name, st.lookup_type(key).name, st.lookup_value(key))
        for h in (have, also):
            if h[:3] != (att, tt, ty) or not (h[3] is v or (type(h[3]) is type(v) and h[3] == v)):
                raise Violation('wrong entry', key=key, got=h, expected=m)
        if st.lookup(got) is not got or not st.exists(got) or st.lookup_type(got) is not got.type:
            raise Violation('lookup by symbol differs from lookup by name', key=key)
        if got.name != key.lower():
            raise Violation('symbol under a wrong name', key=key, got=got.name)


def apply(st, model, op):
    if op[0] == 'define':
        name, tt = NAMES[op[1]]
        full = PRE[tt] + name.lower()
        ret = st.define(hg.symbols.Symbol(name, TT[tt], ST[op[2]] if op[2] else None, op[3]))
        if ret is not (full not in model):
            raise Violation('define returned %r' % ret, name=full, known=full in model)
        model.setdefault(full, (name.lower(), tt, op[2] or 'UNKNOWN', norm(op[3])))
        return
    key = op[1].lower()
    try:
        if op[0] == 'set':
            st.set_value(op[1], op[2])
        else:
            ret = st.switch_type(op[1], ST[op[2]])
        ok = True
    except Exception:
        ok = False
    if ok != (key in model):
        raise Violation('change of an unknown name succeeded' if ok else 'change of a known name failed', op=op)
    if not ok:
        return
    a, t, ty, v = model[key]
    if op[0] == 'set':
        model[key] = (a, t, ty, norm(op[2]))
    else:
        if ret.name != ty:
            raise Violation('switch_type returned another type than the old one', op=op, got=ret, expected=ty)
        model[key] = (a, t, op[2], v)


def bfs(ctx):
    """breadth first search over the states of the model; every transition is taken on a real table rebuilt by replaying a path"""
    depth = 5 if THOROUGH else 4
    start = ()
    seen = {start: []}
    frontier = [start]
    for _ in range(depth):
        nxt = []
        for state in frontier:
            path = seen[state]
            for op in OPS:
                st, model = hg.symbols.SymbolTable(), {}
                for p in path:
                    apply(st, model, p)
                try:
                    apply(st, model, op)
                    observe(st, model)
                except Violation as v:
                    v.detail['path'] = path + [op]
                    raise
                ctx.step()
                key = tuple(sorted((k, tuple(map(repr, m))) for k, m in model.items()))
                ctx.state(key)
                if key not in seen:
                    seen[key] = path + [op]
                    nxt.append(key)
        frontier = nxt
    ctx.traces += len(seen)


def seq_gen():
    """all operation sequences (not only one per state), to catch state the model does not see"""
    sub = [o for o in OPS if o[1] in (0, 1, 'user.a', 'USER.A')]
    for h in product(range(len(sub)), repeat=4 if THOROUGH else 3):
        yield [sub[i] for i in h]


def seq_one(ctx, h):
    st, model = hg.symbols.SymbolTable(), {}
    other = hg.symbols.SymbolTable()
    for op in h:
        apply(st, model, op)
        observe(st, model)
        ctx.step()
    if list(other.names()):
        raise Violation('a definition shows up in another table')
    ctx.state(repr(h))


# -- builder -----------------------------------------------------------------------------------------------------------
LOADS = [{'user.a': 1}, {'USER.A': 2, 'object.B': 'x'}, {'env.e': True, 'admin.d': [1], 'connect.c': None}, {'user.x.y': 1}, {'bad.a': 1}, {}]
TYPES = [None, {'user.a': 'INT', 'env.e': 'BOOL', 'object.q': 'INT', 'admin.w': 'CUSTOM', 'connect.c': 'UNKNOWN'}, {'User.A': 'STRING', 'OBJECT.b': 'STRING', 'connect.C': 'SET', 'ADMIN.w': 'FLOAT', 'env.E': 'CUSTOM'},
         {'a': 'INT', 'object.a': 'STRING', 'usera': 'BOOL', 'users.a': 'INT', '.a': 'INT', 'e': 'BOOL', 'q': 'STRING', 'admin.': 'INT', 'c': 'SET', 'b': 'INT', 'user': 'INT'}]


def builder_gen():
    acts = list(range(len(LOADS))) + ['reset', 'build', 'types1', 'types2']
    for t in range(len(TYPES)):
        for init in (0, 1, 2):
            for n in range(0, 5 if THOROUGH else 4):
                for h in product(acts, repeat=n):
                    yield (t, init, h)


def builder_one(ctx, case):
    t, init, hist = case
    types = None if TYPES[t] is None else {k: ST[v] for k, v in TYPES[t].items()}
    kw = {}
    model = []        # (full lower name, value) in order of insertion; the first spelling of a name keeps its place
    if init:
        kw = {'user_atts': {'a': 7}, 'env_atts': {'E': False}, 'object_atts': {'q': 'x'}, 'admin_atts': {'w': 1.5}, 'connect_atts': {'c': {1}}}
        model = [('user', 'a', 7), ('env', 'E', False), ('object', 'q', 'x'), ('admin', 'w', 1.5), ('connect', 'c', {1})]
    if init == 2:
        kw = {'user_atts': {'a': None, 'b': 0}, 'env_atts': {'E': None}, 'object_atts': {'q': None, 'r': ''}, 'admin_atts': {'w': None}, 'connect_atts': {'c': None, 'd': []}}
        model = [('user', 'a', None), ('user', 'b', 0), ('env', 'E', None), ('object', 'q', None), ('object', 'r', ''), ('admin', 'w', None), ('connect', 'c', None), ('connect', 'd', [])]
    b = hg.symbols.SymbolTableBuilder(types, **kw)
    given = {k: dict(v) for k, v in kw.items()}
    for act in hist + ('build',):
        ctx.step()
        if act == 'reset':
            b.reset_values()
            model = []
        elif act == 'build':
            expect(b.build(), model, TYPES[t], case)
        elif act in ('types1', 'types2'):
            t = int(act[-1])
            b.types = {k: ST[v] for k, v in TYPES[t].items()}
        else:
            try:
                b.load_mixed_att_val_dict(LOADS[act])
                ok = True
            except Exception:
                ok = False
            if ok == (act == 4):
                raise Violation('loading accepted an unknown attribute kind' if ok else 'loading failed', case=case)
            if ok:
                for k, v in LOADS[act].items():
                    p, n = k.split('.', 1)
                    p = p.lower()
                    for i, m in enumerate(model):
                        if m[:2] == (p, n):
                            model[i] = (p, n, v)
                            break
                    else:
                        model.append((p, n, v))
    if hist and hist[0] == 'reset' and {k: dict(v) for k, v in kw.items()} != given:
        raise Violation('resetting a builder changed what it was given', case=case, got=kw, expected=given)
    ctx.state(case)


def expect(st, model, types, case):
    ty = {k.lower(): v for k, v in (types or {}).items()}
    want = {}
    for p, n, v in model:
        full = p + '.' + n.lower()
        want.setdefault(full, set()).add(repr(norm(v)))
    got = {s.name: s for s in st.symbols()}
    if set(got) != set(want):
        raise Violation('built table has wrong names', case=case, got=sorted(got), expected=sorted(want))
    for full, s in got.items():
        if repr(s.value) not in want[full]:
            raise Violation('built table has a wrong value', case=case, name=full, got=s.value, expected=sorted(want[full]))
        if s.type.name != ty.get(full, 'UNKNOWN'):
            raise Violation('built table has a wrong type', case=case, name=full, got=s.type, expected=ty.get(full))
        if s.att_type.name != ref.ATT_PREFIX[full.split('.')[0]]:
            raise Violation('built table has a wrong attribute kind', case=case, name=full, got=s.att_type)


def decide_gen():
    """a policy sees exactly the attributes the builder was given"""
    for pre, spell in product(('user', 'object', 'env', 'admin', 'connect'), ('n', 'N', 'Nm_1')):
        for tspell in (0, 1, 2):
            for loader in ('dict', 'mixed'):
                yield (pre, spell, tspell, loader)


def decide_one(ctx, case):
    pre, n, ts, loader = case
    full = pre + '.' + n
    types = {(full, full.lower(), full.upper())[ts]: ST.INT}
    if loader == 'dict':
        b = hg.symbols.SymbolTableBuilder(types, **{pre + '_atts': {n: 3}})
    else:
        b = hg.symbols.SymbolTableBuilder(types)
        b.load_mixed_att_val_dict({full: 3})
    st = b.build()
    for p in ('user', 'object', 'env', 'admin', 'connect'):
        for sp in (n, n.lower(), n.upper()):
            got = hg.decide('%s.%s = 3' % (p, sp), None, st)
            ctx.step()
            if got != ('T' if p == pre else 'U'):
                raise Violation('a policy sees another attribute than was given', case=case, asked=p + '.' + sp, got=got)
    b.reset_values()
    if hg.decide('%s.%s = 3' % (pre, n), None, b.build()) != 'U':
        raise Violation('a reset builder still gives values', case=case)
    if hg.decide('%s.%s = 3' % (pre, n), None, st) != 'T':
        raise Violation('resetting a builder changed a table that was already built', case=case)
    ctx.state(case)


UNI = ['stra\xdfe', 'STRASSE', 'strasse', '\u0130d', 'id', 'ID', '\u0131d', '\u017fize', 'size', 'SIZE', '\u212aey', 'key', 'KEY', '\xe9', 'e\u0301', '\xc9', '\u03a3',
       '\u03c3', '\u03c2', '\ufb01t', 'fit', '\uff21', 'a', 'A', '\u01c5', '\u01c4', '\u01c6', 'a.b', 'a b', ' a', 'a ', '']


def unicode_gen():
    for i, j in product(range(len(UNI)), repeat=2):
        yield (i, j)


def unicode_one(ctx, case):
    """two names are one attribute exactly when they are equal in lower case"""
    a, b = UNI[case[0]], UNI[case[1]]
    same = ('user.' + a).lower() == ('user.' + b).lower()
    for tt in ('USR_ATT', 'CON_ATT'):
        st = hg.symbols.SymbolTable()
        full = (PRE[tt] + a, PRE[tt] + b)
        if not st.define(hg.symbols.Symbol(a, TT[tt], ST.INT, 1)):
            raise Violation('a first definition was refused', name=a)
        if st.exists(full[1]) is not same or (st.lookup(full[1]) is not None) is not same or (st.lookup_type(full[1]) is not None) is not same:
            raise Violation('names are told apart wrongly', first=a, asked=b, expected_same=same)
        if not st.exists(full[0]) or st.lookup(full[0]).value != 1:
            raise Violation('a defined name is not found', name=a)
        if st.define(hg.symbols.Symbol(b, TT[tt], ST.INT, 2)) is same:
            raise Violation('a second definition', first=a, second=b, expected_same=same)
        if len(list(st.names())) != (1 if same else 2) or st.lookup(full[0]).value != 1 or st.lookup_value(full[1]) != (1 if same else 2):
            raise Violation('definitions of two names are mixed up', first=a, second=b)
        st.set_value(full[1], 3)
        if st.lookup_value(full[0]) != (3 if same else 1) or st.lookup_value(full[1]) != 3:
            raise Violation('values of two names are mixed up', first=a, second=b)
        ctx.step(6)
    for types in ({'user.' + b: ST.STRING}, {'USER.' + b: ST.STRING}):
        for loader in (0, 1):
            bld = hg.symbols.SymbolTableBuilder(dict(types), **({} if loader else {'user_atts': {a: 'v'}}))
            if loader:
                bld.load_mixed_att_val_dict({'User.' + a: 'v'})
            st = bld.build()
            ctx.step()
            got = st.lookup('user.' + a)
            if got is None or got.value != 'v' or got.type is not (ST.STRING if same else ST.UNKNOWN):
                raise Violation('the builder mixes up names', given=a, typed=b, got=got, expected_same=same)
    ctx.state(case)


def equal_gen():
    syms = [(n, tt, ty) for n in ('a', 'A', 'b', 'user.a', '') for tt in list(PRE) + [None] for ty in ('INT', 'FLOAT', 'STRING', 'BOOL', 'SET', 'CUSTOM', 'UNKNOWN')]
    for x in syms:
        yield x


def equal_one(ctx, x):
    """symbols are equal exactly if they have the same kind of attribute, name and type"""
    mk = lambda s, v: hg.symbols.Symbol(s[0], None if s[1] is None else TT[s[1]], ST[s[2]], v)  # noqa: E731
    a = mk(x, 1)
    if a.att_name != x[0].lower() or a.type is not ST[x[2]] or a.att_type is not (TT.UNK_ATT if x[1] is None else TT[x[1]]):
        raise Violation('a symbol is not what it was made as', made=x, got=repr(a))
    if x[1] is not None and a.name != (PRE[x[1]] + x[0]).lower():
        raise Violation('a symbol has another name', made=x, got=a.name)
    for y in equal_gen():
        b = mk(y, 'other')
        want = (x[0].lower(), x[1], x[2]) == (y[0].lower(), y[1], y[2])
        ctx.step()
        if (a == b) is not want or (a != b) is want:
            raise Violation('symbols are compared wrongly', first=x, second=y, expected_equal=want)
    ctx.state(x)


def sizes_gen():
    for n in list(range(0, 40)) + [64, 100, 127, 128, 129, 255, 256, 257, 1000, 5000]:
        for kind in ('count', 'length', 'builder'):
            yield (n, kind)


def sizes_one(ctx, case):
    """tables with many names and with long names"""
    n, kind = case
    st = hg.symbols.SymbolTable()
    if kind == 'length':
        names = ['a' * n + c for c in 'xyZ'] + ['b' + 'a' * n, '_' * (n + 1)]
    else:
        names = ['n%d' % i for i in range(n)]
    if kind == 'builder':
        b = hg.symbols.SymbolTableBuilder({'USER.N%d' % i: ST.INT for i in range(0, n, 2)}, user_atts={x.upper(): i for i, x in enumerate(names)})
        st = b.build()
    else:
        for i, x in enumerate(names):
            if not st.define(hg.symbols.Symbol(x, TT.USR_ATT, ST.INT if i % 2 == 0 else None, i)):
                raise Violation('a definition was refused', name=x)
    ctx.step(len(names))
    ctx.state(case)
    if sorted(st.names()) != sorted(('user.' + x).lower() for x in names):
        raise Violation('wrong names', case=case)
    for i, x in enumerate(names):
        s = st.lookup('USER.' + x.upper())
        if s is None or s.value != i or s.type.name != ('INT' if i % 2 == 0 else 'UNKNOWN') or s.att_name != x.lower():
            raise Violation('wrong entry', case=case, name=x, got=s)
    if st.exists('user.n%d' % n) and kind != 'length' or st.exists('user.'):
        raise Violation('a name that was never defined', case=case)


def run(chk):
    chk.bounds = {'operations': len(OPS), 'bfs_depth': 5 if THOROUGH else 4, 'sequence_length': 4 if THOROUGH else 3}
    chk.one('breadth first over table states', bfs)
    chk.explore('unicode names', unicode_gen, unicode_one)
    chk.explore('equality of symbols', equal_gen, equal_one)
    chk.explore('sizes', sizes_gen, sizes_one)
    chk.explore('all table operation sequences', seq_gen, seq_one)
    chk.explore('builder histories', builder_gen, builder_one)
    chk.explore('builder and policies', decide_gen, decide_one)
