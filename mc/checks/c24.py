"""C24 a certificate carries exactly the requested attributes among those assigned to the user: all requests x assignments, all histories."""
from itertools import combinations, product

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH

AA = []
# id, name, type, value of dan, value of jess; the third and fourth are named like each other's id
ATTS = [('/attribute/user/Role', 'Role', 'STRING', 'nurse', 'Admin'), ('/attribute/user/age', 'AGE', 'INT', '7', None), ('x1', 'y1', 'FLOAT', None, '2.5'),
        ('y1', 'x1', 'SET', '{1, "a"}', ''), (' Pad /Ä', ' dePt ', 'BOOL', 'é 日本', 'true')]


def authority():
    if not AA:
        AA.append(svc.Attributes())
    AA[0].wipe()
    clock.set(ac.NOW)
    return AA[0]


def load(aa, dan, jess):
    S = svc.sa
    aa.add(S.User(id=1, username='dan', password=svc.pw('a')), S.User(id=2, username='jess', password=svc.pw('b')))
    aa.add(*[S.Attribute(id=i, name=n, type=ac.AT[t]) for i, n, t, _, _ in ATTS])
    rows = [S.AttributeAssignment(user_id=1, att_id=ATTS[k][0], value=ATTS[k][3]) for k in dan]
    rows += [S.AttributeAssignment(user_id=2, att_id=ATTS[k][0], value=ATTS[k][4]) for k in jess]
    aa.add(*rows)


def norm(s):
    return s.strip().lower()


def expected(rows, names, ids):
    """rows: [(id, name, type, value)] assigned -> sorted rows of the certificate, or None for a refusal"""
    names = [norm(n) for n in names or [] if n is not None]
    ids = [norm(n) for n in ids or [] if n is not None]
    names, ids = [n for n in names if n not in ('', '*')], [i for i in ids if i not in ('', '*')]
    if not names and not ids:
        return sorted(rows, key=repr)
    out = []
    for want, col in [(i, 0) for i in ids] + [(n, 1) for n in names]:
        hit = [r for r in rows if norm(r[col]) == want]
        if not hit:
            return None
        if hit[0] not in out:
            out.append(hit[0])
    return sorted(out, key=repr)


def ask(aa, user, password, rows, names, ids, **info):
    """one request, compared with the expectation"""
    want = expected(rows, names, ids)
    before = aa.files()
    try:
        cert, raw, _ = aa.request(user, password, names=names, ids=ids)
    except Exception as e:
        if want is not None:
            raise Violation('a request for assigned attributes was refused', user=user, names=names, ids=ids, assigned=rows, error=e, **info)
        if not isinstance(e, svc.ClientFault):
            raise Violation('a request for an unassigned attribute is not reported as the client\'s fault', user=user, names=names, ids=ids, error=e)
        if aa.files() != before:
            raise Violation('a refused request left a certificate behind', user=user, names=names, ids=ids)
        return None
    got = sorted(((a.att_id, a.att_name, a.att_type.name, a.att_value or None) for a in cert.att_set if not a.att_id.startswith(svc.CONN)), key=repr)
    if want is None:
        raise Violation('an attribute that is not assigned was requested and a certificate issued', user=user, names=names, ids=ids, assigned=rows, got=got, **info)
    want = [(i, n, t, v or None) for i, n, t, v in want]
    if got != want:
        raise Violation('the certificate does not carry exactly the requested attributes', user=user, names=names, ids=ids, expected=want, got=got, **info)
    return got


def rows_of(user, held):
    return [(ATTS[k][0], ATTS[k][1], ATTS[k][2], ATTS[k][3 + user]) for k in held]


def subsets(n, kmax):
    for k in range(kmax + 1):
        yield from combinations(range(n), k)


VARIANTS = [lambda s: s, lambda s: s.upper(), lambda s: '  ' + s.lower() + '\t']
NOBODY = ['nosuch', '%', '/attribute/user/', 'rol', '_ge', '/attribute/connection/ip_v4', 'remote_addr', '1', "x1' or '1'='1", 'rol*', 'role*', '*role', '*e', 'r?le', 'role,age', 'role age', 'role;age', 'all', 'any', 'none', 'null', '?', '**', '.*', 'ro le', 'user', 'r\u043ele', 'role\x00',
          'role\u200b', '/attribute/user/role/', 'attribute/user/role', '/attribute/user/role#', 'user.role', '%role%', '-role', '!role', '\ufeffrole', 'y 1', '["role"]', 'role=nurse', '_role', 'role_', 'ro_le', '-', 'role-', '/attribute/user/age/', '/attribute/user//age', '/attribute/user/age/.', '%2fattribute%2fuser%2fage', '\\attribute\\user\\age',
          '/attribute/user', 'attribute', '/attribute/object/age', '/attribute/User /Role', 'y-1', 'y_1', 'x 1', 'x_1', 'y1y1', 'roles', 'ages']


def requests():
    """(names, ids)"""
    one = [('n', k, v) for k in range(len(ATTS)) for v in range(3)] + [('i', k, v) for k in range(len(ATTS)) for v in range(3)]
    yield ([], [])
    for blank in (None, [''], ['*'], ['', '*'], [' '], [' * '], ['*', '*'], [None]):
        yield (blank, [])
        yield ([], blank)
        yield (blank, blank)
    text = {}
    for o in one:
        text[o] = VARIANTS[o[2]](ATTS[o[1]][1 if o[0] == 'n' else 0])
    for o in one:
        yield ([text[o]], []) if o[0] == 'n' else ([], [text[o]])
        yield ([text[o], ''], None) if o[0] == 'n' else (None, ['', text[o]])
    plain = [o for o in one if o[2] == 0]
    for a, b in product(plain, plain):
        yield ([text[o] for o in (a, b) if o[0] == 'n'], [text[o] for o in (a, b) if o[0] == 'i'])
    for k in range(3, len(ATTS) + 1):
        for c in combinations(range(len(ATTS)), k):
            yield ([ATTS[i][1] for i in c], [])
            yield ([], [ATTS[i][0] for i in c])
            yield ([ATTS[i][1] for i in c[:2]], [ATTS[i][0] for i in c[1:]])
    for a in plain:
        for star in ('*', ' * ', '', None):
            yield ([text[a], star], []) if a[0] == 'n' else ([], [text[a], star])
            yield ([star, text[a]], [star]) if a[0] == 'n' else ([star, star], [star, text[a]])
            yield ([text[a]], [star]) if a[0] == 'n' else ([star], [text[a]])
    for x in NOBODY:
        yield ([x], [])
        yield (['*'], [x])
        yield ([x, '*'], [])
        yield ([], [x])
        yield ([ATTS[0][1], x], [])
        yield ([x], [ATTS[0][0]])


def matrix_gen():
    full = tuple(range(len(ATTS)))
    for dan in subsets(len(ATTS), len(ATTS)):
        yield (dan, tuple(k for k in full if k not in dan))
        if dan and dan != full and (THOROUGH or len(dan) in (1, 4)):
            yield (dan, full)


def matrix_one(ctx, case):
    dan, jess = case
    aa = authority()
    load(aa, dan, jess)
    for names, ids in requests():
        ctx.step()
        ask(aa, 'dan', 'a', rows_of(0, dan), names, ids)
        ctx.state((dan, str(names), str(ids)))
    for f in aa.files():
        svc.os.unlink(svc.os.path.join(aa.dir, f))
    for names, ids in [([], []), ([ATTS[1][1]], []), ([], [ATTS[2][0]]), (['x1', 'y1'], [])]:
        ctx.step()
        ask(aa, 'jess', 'b', rows_of(1, jess), names, ids)


# -- several attributes with one name ----------------------------------------------------------------------------------------
TWINS = [('ia', 'role'), ('ib', 'role'), ('role', 'ROLE'), ('id', 'other')]


def twins_gen():
    for held in subsets(4, 4):
        for ids in subsets(4, 4):
            for name in (None, 'role', 'Role ', 'other'):
                yield (held, ids, name)


def twins_one(ctx, case):
    held, ids, name = case
    S = svc.sa
    aa = authority()
    aa.add(S.User(id=1, username='dan', password=svc.pw('a')), S.User(id=2, username='jess', password=svc.pw('b')))
    aa.add(*[S.Attribute(id=i, name=n, type=ac.AT.STRING) for i, n in TWINS])
    aa.add(*[S.AttributeAssignment(user_id=1, att_id=TWINS[k][0], value='v%d' % k) for k in held])
    aa.add(*[S.AttributeAssignment(user_id=2, att_id=i, value='j') for i, _ in TWINS])
    have = {TWINS[k] + ('v%d' % k,) for k in held}
    must = {TWINS[k] + ('v%d' % k,) for k in ids}
    may = {h for h in have if name is not None and norm(h[1]) == norm(name)}
    ok = must <= have and (name is None or bool(may))
    if not ids and name is None:
        must = have
    ctx.step()
    ctx.state(case)
    try:
        cert, _, _ = aa.request('dan', 'a', names=[] if name is None else [name], ids=[TWINS[k][0] for k in ids])
    except Exception as e:
        if ok:
            raise Violation('a request for assigned attributes was refused', case=case, error=e)
        return
    got = [(a.att_id, a.att_name, a.att_value) for a in cert.att_set if not a.att_id.startswith(svc.CONN)]
    if not ok:
        raise Violation('an attribute that is not assigned was requested and a certificate issued', case=case, got=got)
    if len(set(got)) != len(got) or not must <= set(got) or not set(got) <= must | may or (may and not may & set(got)):
        raise Violation('the certificate does not carry exactly the requested attributes', case=case, got=got, required=sorted(must), allowed=sorted(may))


# -- histories ---------------------------------------------------------------------------------------------------------------
ACTS = ['give dan 0 p', 'give dan 0 q', 'give dan 1 p', 'give jess 0 r', 'take dan 0', 'take jess 0', 'take all', 'rename 0', 'retype 0', 'drop 1', 'ask dan', 'ask dan 0',
        'ask dan 1', 'ask jess']


def hist_gen():
    n = 5 if THOROUGH else 4
    for k in range(2, n + 1):
        for h in product(range(len(ACTS)), repeat=k):
            acts = [ACTS[x] for x in h]
            if not acts[-1].startswith('ask') or not acts[0].startswith('give'):
                continue
            if k == n and not any(a.startswith('ask') for a in acts[:-1]):
                continue
            yield h


def hist_one(ctx, h):
    S = svc.sa
    aa = authority()
    aa.add(S.User(id=1, username='dan', password=svc.pw('a')), S.User(id=2, username='jess', password=svc.pw('b')))
    aa.add(*[S.Attribute(id='id%d' % k, name='name%d' % k, type=ac.AT.STRING) for k in range(2)])
    name, typ, held = {0: 'name0', 1: 'name1'}, {0: 'STRING', 1: 'STRING'}, {}
    uids = {'dan': 1, 'jess': 2}
    s = None
    for a in h:
        w = ACTS[a].split()
        ctx.step()
        if w[0] == 'ask':
            u = w[1]
            rows = [('id%d' % k, name[k], typ[k], v) for (x, k), v in held.items() if x == u]
            ask(aa, u, 'a' if u == 'dan' else 'b', rows, ['name' + w[2]] if len(w) > 2 else [], [], history=[ACTS[i] for i in h])
        else:
            s = aa.session()
            q = s.query(S.AttributeAssignment)
            if w[0] == 'give':
                k = int(w[2])
                if k in name:
                    if (w[1], k) in held:
                        q.filter_by(user_id=uids[w[1]], att_id='id%d' % k).update({'value': w[3]})
                    else:
                        s.add(S.AttributeAssignment(user_id=uids[w[1]], att_id='id%d' % k, value=w[3]))
                    held[(w[1], k)] = w[3]
            elif w[0] == 'take' and w[1] == 'all':
                q.delete()
                held.clear()
            elif w[0] == 'take':
                q.filter_by(user_id=uids[w[1]], att_id='id%s' % w[2]).delete()
                held.pop((w[1], int(w[2])), None)
            elif w[0] == 'rename':
                s.query(S.Attribute).filter_by(id='id0').update({'name': 'other'})
                name[0] = 'other'
            elif w[0] == 'retype':
                s.query(S.Attribute).filter_by(id='id0').update({'type': ac.AT.INT})
                typ[0] = 'INT'
            elif w[0] == 'drop':
                q.filter_by(att_id='id1').delete()
                s.query(S.Attribute).filter_by(id='id1').delete()
                name.pop(1, None)
                held = {x: v for x, v in held.items() if x[1] != 1}
            s.commit()
            s.close()
        ctx.state((tuple(sorted(held.items())), tuple(name.values()), tuple(typ.values()), ACTS[a]))


# -- sizes -----------------------------------------------------------------------------------------------------------------------
def size_gen():
    for n in list(range(1, 21)) + [31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200] + ([255, 256, 257, 500, 1000, 1001] if THOROUGH else [300]):
        yield n


def size_one(ctx, n):
    """many attributes: all, one at every interesting position, and many of them by name and by id"""
    S = svc.sa
    aa = authority()
    aa.add(S.User(id=1, username='dan', password=svc.pw('a')), S.User(id=2, username='jess', password=svc.pw('b')))
    aa.add(*[S.Attribute(id='i%d' % k, name='n%d' % k, type=ac.AT.STRING) for k in range(n + 1)])
    aa.add(*([S.AttributeAssignment(user_id=1, att_id='i%d' % k, value='v%d' % k) for k in range(n)] + [S.AttributeAssignment(user_id=2, att_id='i%d' % n, value='j')]))
    rows = [('i%d' % k, 'n%d' % k, 'STRING', 'v%d' % k) for k in range(n)]
    at = sorted({0, 1, n // 2, n - 2, n - 1, n} | ({k for k in range(n)} if n < 21 else set()))
    reqs = [([], []), ([r[1] for r in rows], []), ([], [r[0] for r in rows]), ([r[1] for r in rows[::2]], [r[0] for r in rows[1::2]]), ([r[1] for r in rows[:-1]], []), ([], [r[0] for r in rows[1:]]),
            ([r[1] for r in rows] + ['n%d' % n], []), ([], [r[0] for r in rows] + ['i%d' % n]), ([r[1] for r in rows], [r[0] for r in rows])]
    reqs += [(['n%d' % k], []) for k in at if k >= 0] + [([], ['i%d' % k]) for k in at if k >= 0]
    for names, ids in reqs:
        ctx.step()
        ask(aa, 'dan', 'a', rows, names, ids, attributes=n)
        ctx.state((n, str(names), str(ids)))


VALUES = ['', ' ', 'a', ' a', 'a ', '\ta\n', 'a\r\nb', '\n', 'é', 'e\u0301', 'ﬁ', 'İ', 'ß', '日本', '😀', 'a\x00b', '\x00', "a'b", 'a"b', 'a\\b', '%s', '%', '{1}', '{}', 'None', 'null', 'True', 'true', '0', '007', '-1', '1e5',
          '1.0', '1.50', ' 7', '"q"', "'q'", '<a>&amp;', 'a;b', 'a,b', 'A', 'UPPER lower', '\ufeffa', 'a\u200b', '٣', '12345678901234567890', '9' * 400]
LENGTHS = [1, 2, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 32769, 65535]


def value_gen():
    for t in ac.AT:
        for v in VALUES:
            yield (t.name, v)
    for n in LENGTHS:
        yield ('STRING', 'v' * n)
        yield ('STRING', ('0123456789' * (n // 10 + 1))[:n])
        if n > 1:
            yield ('STRING', 'é' * (n // 2))


def value_one(ctx, case):
    """a value is certified as it was assigned"""
    t, v = case
    S = svc.sa
    aa = authority()
    aa.add(S.User(id=1, username='dan', password=svc.pw('a')))
    aa.add(S.Attribute(id='i', name='n', type=ac.AT[t]), S.Attribute(id='i2', name='n2', type=ac.AT.STRING))
    aa.add(S.AttributeAssignment(user_id=1, att_id='i', value=v), S.AttributeAssignment(user_id=1, att_id='i2', value='x'))
    rows = [('i', 'n', t, v), ('i2', 'n2', 'STRING', 'x')]
    for names, ids in (([], []), (['n'], []), ([], ['i'])):
        ctx.step()
        ask(aa, 'dan', 'a', rows, names, ids)
    ctx.state((t, v))


WORDS = ['all', 'any', 'none', 'user', 'x' * 100, 'x' * 255, 'x' * 256, 'é', 'ß', 'ss', 'ﬁ', 'fi', 'İ', 'a b', 'a  b', 'a*', '*a', '**', '?', '%', '_', 'a%', "a'b", 'a,b', 'a.b', 'user.a', '/a', 'a/', 'a/b', '1', '0', 'null', 'true', '日本',
         'a\tb', 'a_b', 'a-b', 'ab', 'a\xa0b', 'a+b', 'a//b', 'a:b', 'e\u0301', 'α', 'ΑΣ', 'αs', '-', '[a]', 'remote_addr', '/attribute/connection/', 'a\x00b', 'role']


def word_gen():
    for k in range(len(WORDS)):
        yield k


def word_one(ctx, k):
    """one attribute of that name and id, requested by every word"""
    S = svc.sa
    w = WORDS[k]
    if w.startswith(svc.CONN):
        return
    aa = authority()
    aa.add(S.User(id=1, username='dan', password=svc.pw('a')))
    aa.add(S.Attribute(id=w, name='n', type=ac.AT.STRING), S.Attribute(id='i', name=w, type=ac.AT.STRING))
    aa.add(S.AttributeAssignment(user_id=1, att_id=w, value='by id'), S.AttributeAssignment(user_id=1, att_id='i', value='by name'))
    rows = [(w, 'n', 'STRING', 'by id'), ('i', w, 'STRING', 'by name')]
    for x in WORDS + [w.upper(), ' ' + w, w.title(), w[:-1] or 'z']:
        for names, ids in (([x], []), ([], [x]), ([x], [x]), ([x], ['i']), (['n'], [x])):
            ctx.step()
            ask(aa, 'dan', 'a', rows, names, ids)
        ctx.state((w, x))


def run(chk):
    chk.bounds = {'attributes': len(ATTS), 'assignments': 'all subsets', 'request_size': len(ATTS), 'requests': len(list(requests())), 'history_length': 5 if THOROUGH else 4,
                  'actions': len(ACTS), 'attributes_of_one_user': 'up to 1001' if THOROUGH else 'up to 300', 'value_length': LENGTHS[-1], 'words': len(WORDS)}
    chk.assumptions = ['no two attributes of one user have ids that differ only by case or surrounding space; a name shared by several attributes of the user asks for at least one of them',
                       'the ladon web framework is replaced by a stub: methods are called with decoded arguments']
    chk.explore('all requests and assignments', matrix_gen, matrix_one)
    chk.explore('attributes that share a name', twins_gen, twins_one)
    chk.explore('many attributes', size_gen, size_one)
    chk.explore('values', value_gen, value_one)
    chk.explore('names and ids', word_gen, word_one)
    chk.explore('all histories of assignments', hist_gen, hist_one)
