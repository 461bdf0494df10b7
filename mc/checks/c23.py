"""C23 the attribute authority issues certificates only for valid credentials: all histories of accounts and logins."""
import unicodedata
from itertools import product

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH

AA = []


def authority():
    if not AA:
        AA.append(svc.Attributes())
    AA[0].wipe()
    clock.set(ac.NOW)
    return AA[0]


def attempt(aa, user, password, ctype=0):
    """('cert', certificate) or ('no', exception)"""
    before = aa.files()
    try:
        cert, raw, r = aa.request(user, password, ctype=ctype)
    except Exception as e:
        if aa.files() != before:
            raise Violation('a rejected request left a certificate behind', user=user, password=password)
        return 'no', e
    return 'cert', cert


USERS = [(1, 'dan', 'admin'), (2, 'jess', 'pass word'), (3, 'eve', 'é#"\'%s'), (4, 'max', 'm' * 65), (5, 'none', 'None')]
NAMES = ['dan', 'Dan', 'DAN', 'jess', 'eve', 'dan ', ' dan', 'da', 'dann', '', 'nobody', '%', 'dan\' --', '1', 'd_n', 'max', 'none', None]
PASSWORDS = ['admin', 'Admin', 'admin ', '', 'pass word', 'password', 'é#"\'%s', 'adminpepper!', 'pepper!', 'admi', 'None', None, '0', 'x' * 60, 'm' * 64, 'm' * 65, 'm' * 66, 'm' * 65 + 'pepper!', 'admin' + 'x' * 68, 'é' * 40, 'a\x00', 'admin\x00', 'x' * 5000, 'x\ud800', 'admin\ud800', '\udcff']


def matrix_gen():
    for n in NAMES:
        for t in (0, 1, -1, None, '0'):
            yield (n, t, False)
        yield (n, 0, True)


def matrix_one(ctx, case):
    svc.verbose(case[2])
    try:
        matrix_try(ctx, case)
    finally:
        svc.verbose(False)


def matrix_try(ctx, case):
    name, ctype, _ = case
    aa = authority()
    for uid, u, p in USERS:
        aa.add(svc.sa.User(id=uid, username=u, password=svc.pw(p)))
    hashes = [svc.pw(p) for _, _, p in USERS]
    for password in PASSWORDS + hashes:
        ctx.step()
        got, x = attempt(aa, name, password, ctype)
        real = next((u for u in USERS if name is not None and u[1] == name.lower()), None)
        want = ctype == 0 and ctype is not False and real is not None and password == real[2]
        if (got == 'cert') != want:
            raise Violation('certificate issued for invalid credentials' if got == 'cert' else 'valid credentials refused', user=name, password=password,
                            type=ctype, error=x if got == 'no' else None)
        if want and x.holder.uid.lower() != 'hgabac://aa/user/' + name.lower():
            raise Violation('certificate for another user', user=name, got=x.holder.uid)
        if not want and not isinstance(x, svc.ClientFault):
            raise Violation('invalid credentials are not reported as the client\'s fault', user=name, password=password, type=ctype, error=x)
        if not want and ctype == 0:
            other = attempt(aa, 'nobody', password)[1]
            if type(other) is not type(x) or str(other) != str(x):
                raise Violation('the answer tells whether the user exists', known=x, unknown=other)
        ctx.state((name, password, ctype))


# -- histories --------------------------------------------------------------------------------------------------------------
ACTS = ['add dan a', 'add jess b', 'pass dan b', 'pass dan a', 'remove dan', 'login dan a', 'login dan b', 'login jess b', 'login jess a', 'reset']


def hist_gen():
    n = 5 if THOROUGH else 4
    for k in range(1, n + 1):
        for h in product(range(len(ACTS)), repeat=k):
            if ACTS[h[-1]].startswith('login') and not any(ACTS[x] == 'reset' for x in (h[0], h[-1])) and ACTS[h[0]].startswith('add'):
                yield h


def hist_one(ctx, h):
    aa = authority()
    model = {}
    for a in h:
        w = ACTS[a].split()
        ctx.step()
        if w[0] == 'add':
            if w[1] not in model:
                aa.add(svc.sa.User(username=w[1], password=svc.pw(w[2])))
                model[w[1]] = w[2]
        elif w[0] == 'pass':
            if w[1] in model:
                s = aa.session()
                s.query(svc.sa.User).filter_by(username=w[1]).update({'password': svc.pw(w[2])})
                s.commit()
                s.close()
                model[w[1]] = w[2]
        elif w[0] == 'remove':
            if w[1] in model:
                s = aa.session()
                s.query(svc.sa.User).filter_by(username=w[1]).delete()
                s.commit()
                s.close()
                del model[w[1]]
        elif w[0] == 'reset':
            aa.service = svc.saa.AttributeAuthority()
        else:
            got, x = attempt(aa, w[1], w[2])
            want = model.get(w[1]) == w[2]
            if (got == 'cert') != want:
                raise Violation('certificate issued for credentials that are not valid now' if not want else 'valid credentials refused',
                                history=[ACTS[i] for i in h], accounts=model, error=x if got == 'no' else None)
        ctx.state(tuple(sorted(model.items())) + (ACTS[a],))


def hash_gen():
    yield from product(('2b', '2a', '2y'), (4, 5, 6, 7, 8), ('dan', 'Dan'))


def hash_one(ctx, case):
    """an account's hash may be of any kind that bcrypt knows, and of any cost"""
    kind, cost, name = case
    aa = authority()
    h = svc.bcrypt.hashpw(('secret' + svc.PEPPER).encode(), svc.bcrypt.gensalt(cost)).decode().replace('$2b$', '$%s$' % kind)
    aa.add(svc.sa.User(id=1, username='dan', password=h))
    for p in ('secret', 'Secret', '', h, 'secret ', 'secre'):
        ctx.step()
        got, x = attempt(aa, name, p)
        if (got == 'cert') != (p == 'secret'):
            raise Violation('certificate issued for another password' if got == 'cert' else 'valid password refused', hash=h, tried=p, error=x if got == 'no' else None)
    ctx.state(case)


def pepper_gen():
    for configured in ('', 'p', 'pepper!', '%'):
        for stored in ('', 'p', 'pepper!', '%'):
            yield (configured, stored)


def pepper_one(ctx, case):
    """the pepper of the configuration takes part in the check"""
    conf, stored = case
    aa = authority()
    svc.configure('AAUTH', PASS_PEPPER=conf)
    try:
        service, aa.service = aa.service, svc.saa.AttributeAuthority()
        aa.add(svc.sa.User(id=1, username='dan', password=svc.bcrypt.hashpw(('pw' + stored).encode(), svc.bcrypt.gensalt(4)).decode()))
        for pwd in ('pw', 'pw' + stored, 'pwp'):
            got, x = attempt(aa, 'dan', pwd)
            ctx.step()
            if (got == 'cert') != (pwd + conf == 'pw' + stored):
                raise Violation('pepper', configured=conf, stored=stored, password=pwd, got=got)
    finally:
        svc.configure('AAUTH', PASS_PEPPER=None)
        aa.service = service
    ctx.state(case)


# -- near misses ----------------------------------------------------------------------------------------------------------------
OWN = ['', 'a', 'aa', '?', 'a?b', '\ufffd', '??', '?pepper!', 'a b', ' a', 'a ', 'a\n', 'a\r\n', '\ta', 'a\x00b', '\x00', 'a\x00', 'ab\x00\x00', 'é', 'e\u0301', 'ﬁ', 'fi', 'ß', 'ss', 'Å', 'Å', 'K', 'K', '３', '3', '٣', 'ABC', 'abc',
       'İ', 'ı', 'a%sb', '%', '100%', "a'b", 'a"b', 'a\\b', 'a\\nb', 'None', 'null', 'True', '0', '00', '1e3', '{}', 'a+b', 'a b ', 'a%20b', '日本語', '😀', 'pepper!', 'pepper!pepper!',
       'a\u200b', '\ufeffa', 'a\xad', 'a\xa0b', '$2b$04$', 'x' * 65, 'é' * 32, '日' * 21, '😀' * 16]
LADDER = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 55, 56, 57, 63, 64, 65]


def near(p):
    yield from (p + c for c in ('\n', ' ', '\r\n', '\r', '\t', '\x00', '\x00x', 'x', '\u200b', '*', '%', 'pepper!'))
    yield from (c + p for c in ('\n', ' ', '\t', '\x00', '\ufeff', 'x'))
    yield from (p[:-1], p[1:], p[::-1], p.strip(), p.lower(), p.upper(), p.casefold(), p.title(), p.swapcase(), p + p, '', ' '.join(p.split()), p.split('\x00')[0], repr(p), p[:8], p[:16], p[:32])
    yield from (unicodedata.normalize(f, p) for f in ('NFC', 'NFD', 'NFKC', 'NFKD'))
    yield from (p + '\ud800', '\udc00' + p, p.replace('?', '\ud800'), p.replace('?', '\udfff'), p.replace('?', '\ufffd'), p.replace('\ufffd', '\ud800'))
    yield p.encode('ascii', 'ignore').decode()
    yield p.encode('ascii', 'replace').decode()
    yield p.encode('utf-8').decode('latin-1')
    yield ''.join(c for c in unicodedata.normalize('NFKD', p) if not unicodedata.combining(c))


def near_gen():
    for p in OWN:
        yield (p, sorted(set(list(near(p)) + [q for q in OWN])))
    for n in LADDER:
        p = ''.join(chr(97 + i % 26) for i in range(n))
        yield (p, [p[:i] + '~' + p[i + 1:] for i in range(n)] + [p[:i] for i in range(n)] + [p + '~' * k for k in (1, 2, 7, 8)] + [p[:i] + p[i + 1:] for i in range(0, n, 3)])


def near_one(ctx, case):
    own, tried = case
    aa = authority()
    aa.add(svc.sa.User(id=1, username='dan', password=svc.pw(own)))
    for p in [own] + tried:
        ctx.step()
        got, x = attempt(aa, 'dan', p)
        if (got == 'cert') != (p == own):
            raise Violation('certificate issued for another password' if got == 'cert' else 'valid password refused', account=own, tried=p, error=x if got == 'no' else None)
        ctx.state((own, p))


PEOPLE = ['dan', 'straße', 'strasse', 'ﬁn', 'fin', 'é', 'e\u0301', 'i\u0307', 'i', 'ı', 'σας', 'σασ', 'a b', 'ab', 'a.b', 'a/b', 'a@b', 'a-b', 'a_b', 'axb', 'a%', '１', '1', 'ǆ', "o'neil", 'a\\b', 'x' * 64, 'x' * 65,
          'dan\n', '日本', 'root', 'null', '0', 'user', '*']


def people_gen():
    for n in PEOPLE:
        for form in (str, str.upper, str.title, str.lower, str.casefold, str.strip):
            yield form(n)
        yield unicodedata.normalize('NFKC', n)
        yield unicodedata.normalize('NFD', n)
        yield n + ' '
        yield ' ' + n
        yield n + '\x00'
        yield n[:-1]


def people_one(ctx, name):
    """every person under every way to write a name, with every person's password"""
    aa = authority()
    for k, n in enumerate(PEOPLE):
        aa.add(svc.sa.User(username=n, password=svc.pw('secret of %d' % k)))
    for k, n in enumerate(PEOPLE):
        ctx.step()
        got, x = attempt(aa, name, 'secret of %d' % k)
        want = name.lower() == n
        if (got == 'cert') != want:
            raise Violation('certificate issued to somebody else' if got == 'cert' else 'valid credentials refused', user=name, account=n, error=x if got == 'no' else None)
        if want and x.holder.uid.lower() != 'hgabac://aa/user/' + name.lower():
            raise Violation('certificate for another user', user=name, got=x.holder.uid)
        ctx.state((name, n))


def run(chk):
    chk.bounds = {'names': len(NAMES), 'passwords': len(PASSWORDS), 'history_length': 5 if THOROUGH else 4, 'actions': len(ACTS), 'near_misses': 'each of %d passwords against its variants and all others; every position up to length 65' % len(OWN), 'people': len(PEOPLE)}
    chk.assumptions = ['bcrypt is sound', 'the ladon web framework is replaced by a stub: methods are called with decoded arguments']
    chk.explore('all names and passwords', matrix_gen, matrix_one)
    chk.explore('all account histories', hist_gen, hist_one)
    chk.explore('near misses of a password', near_gen, near_one)
    chk.explore('all ways to write a name', people_gen, people_one)
    chk.explore('kinds of hashes', hash_gen, hash_one)
    chk.explore('peppers', pepper_gen, pepper_one, workers=1)
