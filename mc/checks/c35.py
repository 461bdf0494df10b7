"""C35 accounts, keys and attributes made with the command line tools work with the services: all commands over all passwords, peppers and keys."""
import contextlib
import io
import os
import runpy
import sys
from itertools import product

from mc import ac, clock, keys, svc
from mc.core import Violation, THOROUGH

import bcrypt
import Crypto.PublicKey.RSA as RSA

_gensalt = bcrypt.gensalt
bcrypt.gensalt = lambda rounds=12, prefix=b'2b': _gensalt(4, prefix)
_generate = RSA.generate
POOL = {1024: ac.KEYS, 2048: [RSA.import_key(p) for p in keys.PEM2048]}
MADE = []
RSA_ROUNDS = None


def generate(bits, *a, **kw):
    k = POOL[bits][len(MADE) % len(POOL[bits])]
    MADE.append(k)
    return k


RSA.generate = generate


def tool(*args):
    """python -m hgaa.tools args: its output, or the exception"""
    old, out = sys.argv, io.StringIO()
    sys.argv = ['tools'] + list(args)
    mod = sys.modules.pop('hgaa.tools', None)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_module('hgaa.tools', run_name='__main__')
        return out.getvalue()
    finally:
        sys.argv = old
        if mod is not None:
            sys.modules['hgaa.tools'] = mod


# -- passwords -------------------------------------------------------------------------------------------------------------------
PASSWORDS = ['a', '', ' ', 'pass word', 'é日', '"\'%s\\', 'x' * 40, 'A', ' a', 'a ', '\ta\n', 'a\r']
PEPPERS = ['pepper!', '', '%(x)s', 'é', None]


def pass_gen():
    for p, pep, spell, sect in product(PASSWORDS, PEPPERS, ('pass', 'password', 'PASS'), ('AAUTH', 'aauth')):
        yield (p, pep, spell, sect)


def pass_one(ctx, case):
    p, pep, spell, sect = case
    common = svc.config.SERVICE_CONFIG.defaults().get('PASS_PEPPER')
    if pep is None:           # none is configured at all
        svc.config.SERVICE_CONFIG.remove_option('DEFAULT', 'PASS_PEPPER')
        svc.config.SERVICE_CONFIG.remove_option('AAUTH', 'PASS_PEPPER')
    else:
        svc.configure('AAUTH', PASS_PEPPER=pep)
    try:
        out = tool(spell, sect, p)
        lines = [x for x in out.split('\n') if x.startswith('Hash: ')]
        ctx.step()
        if len(lines) != 1:
            raise Violation('no hash was printed', output=out)
        h = lines[0][6:]
        aa = svc.Attributes()
        clock.set(ac.NOW)
        aa.add(svc.sa.User(id=1, username='dan', password=h))
        for q in PASSWORDS + [p + (pep or 'pepper'), h]:
            ctx.step()
            try:
                aa.request('dan', q)
                got = True
            except Exception:
                got = False
            if got != (q == p):
                raise Violation('a password made with the tools does not work' if not got else 'another password works', made_for=p, tried=q, pepper=pep)
        ctx.state(case)
    finally:
        if common is not None:
            svc.config.SERVICE_CONFIG['DEFAULT']['PASS_PEPPER'] = common
        svc.configure('AAUTH', PASS_PEPPER=None)


def section_one(ctx, case):
    """a password is made with the pepper of the service it is made for"""
    sect, peppers = case
    try:
        for s, p in zip(('AAUTH', 'PAUTH', 'DEFAULT'), peppers):
            if p is not None:
                svc.configure(s, PASS_PEPPER=p)
        out = tool('password', sect, 'secret')
        h = [x for x in out.split('\n') if x.startswith('Hash: ')][0][6:]
        p = {'AAUTH': peppers[0], 'PAUTH': peppers[1]}.get(sect.upper())
        p = peppers[2] if p is None else p
        ctx.step()
        for q in ('pa', 'pp', 'pd', ''):
            if bcrypt.checkpw(('secret' + q).encode(), h.encode()) != (q == p):
                raise Violation('a password was not made with the pepper of its service', service=sect, pepper=p, tried=q)
        ctx.state(case)
    finally:
        for s in ('AAUTH', 'PAUTH'):
            svc.config.SERVICE_CONFIG.remove_option(s, 'PASS_PEPPER')
        svc.configure('DEFAULT', PASS_PEPPER=svc.PEPPER)


def section_gen():
    for sect in ('AAUTH', 'aauth', 'PAUTH', 'pauth', 'Pauth', 'OTHER'):
        for a, p in product(('pa', None), ('pp', None)):
            yield (sect, (a, p, 'pd'))


# -- keys --------------------------------------------------------------------------------------------------------------------------
def key_gen():
    for password in ('x', 'é secret', 'p' * 60, ' x', 'x ', ' x y ', '"x"', '%', 'X', '0'):
        for size in (1024, 2048):
            for old in (None, b'', b'old content ' * 1000):
                yield (password, size, old)


def key_one(ctx, case):
    import hgaa.tools as tools
    password, size, before = case
    path = os.path.join(svc.SCRATCH, 'made-%d.bin' % os.getpid())
    old = svc.KEYFILES[0]
    n = len(MADE)
    if before is not None:
        with open(path, 'wb') as f:
            f.write(before)
    if size == 2048:
        svc.configure('AAUTH', KEY_FILE=path, KEY_PASS=password)
        tool('genkey', 'aauth')
    else:
        tools.gen_aauth_key(path, password, size)
    try:
        ctx.step()
        if len(MADE) != n + 1:
            raise Violation('not one key was made', made=len(MADE) - n)
        if MADE[-1].size_in_bits() != size:
            raise Violation('a key of another size was made', got=MADE[-1].size_in_bits(), expected=size)
        svc.configure('AAUTH', KEY_FILE=path, KEY_PASS=password)
        aa = svc.Attributes()
        clock.set(ac.NOW)
        aa.add(svc.sa.User(id=1, username='dan', password=svc.pw('a')))
        cert = aa.request('dan', 'a')[0]
        if bytes(cert.issuer.pub_key) != MADE[-1].publickey().export_key() or not cert.verify_signature():
            raise Violation('the authority does not sign with the key that was made')
        data = open(path, 'rb').read()
        for part in (MADE[-1].export_key('DER')[30:60],):
            if part in data:
                raise Violation('the private key is stored in the clear')
        if b'old content' in data:
            raise Violation('the old content of the key file was kept')
        for wrong in (None, '', password + 'x', password[:-1], password.swapcase() + ' '):
            ctx.step()
            try:
                RSA.import_key(data, passphrase=wrong)
            except Exception:
                continue
            raise Violation('the key file opens without its password', tried=wrong)
        svc.configure('AAUTH', KEY_PASS=password + 'x')
        try:
            svc.saa.AttributeAuthority()
        except Exception:
            pass
        else:
            raise Violation('the authority starts with the wrong password of its key')
        ctx.state(case)
    finally:
        svc.configure('AAUTH', KEY_FILE=old, KEY_PASS='x')
        if os.path.exists(path):
            os.unlink(path)


# -- generated attributes -----------------------------------------------------------------------------------------------------------
def att_gen():
    for n in (0, 1, 2, 3, 10, 50, 101, 257, 300) + ((1001,) if THOROUGH else ()):
        for how in ('gen_atts', 'pop_and_gen', 'command', 'pop twice'):
            yield (n, how)
    for n in (1000, 1024, 2049, 5000):
        yield (n, 'gen_atts')


def att_one(ctx, case):
    import hgaa.tools as tools
    n, how = case
    aa = svc.Attributes()
    clock.set(ac.NOW)
    if how in ('gen_atts', 'command'):
        aa.add(svc.sa.User(id=1, username='dan', password=svc.pw('a')))
        if how == 'command':
            tool('genatts', str(n))
        else:
            tools.gen_atts(n)
    else:
        aa.add(svc.sa.User(id=1, username='old', password=svc.pw('a')), svc.sa.User(id=2, username='old2', password=svc.pw('a')))
        for _ in range(2 if how == 'pop twice' else 1):
            tools.pop_and_gen(n)
        s = aa.session()
        users = [(u.id, u.username) for u in s.query(svc.sa.User).all()]
        s.query(svc.sa.User).update({'password': svc.pw('a')})
        s.commit()
        s.close()
        if users != [(1, 'dan')]:
            raise Violation('populating did not leave exactly its own user', users=users)
    ctx.step()
    got = svc.user_atts(aa.request('dan', 'a')[0])
    want = sorted(('/attribute/user/a%d' % i, 'a%d' % i, 'INT', str(i)) for i in range(n))
    if got != want:
        raise Violation('the generated attributes are not the ones in the certificate', asked=n, got=got[:20], expected=want[:20])
    ctx.state(case)


# -- wrong commands ---------------------------------------------------------------------------------------------------------------
BAD = [(), ('build',), ('genkey',), ('genkey', 'pauth'), ('genkey', 'aauth', 'x'), ('populate',), ('populate', 'x'), ('pop', 'a', 'b'), ('pass', 'AAUTH'), ('genatts',), ('build', 'nosuch'),
       ('genatts', 'many'), ('build', 'aauth', 'all'), ('build', 'all', 'aauth'), ('build', 'all', 'all'), ('build', 'aauth', 'pauth', 'nosuch'), ('build', 'pauth', 'pauth', 'aauth', 'nosuch'), ('build', 'nosuch', 'aauth'), ('build', 'aauth', 'nosuch', 'pauth')]


def bad_one(ctx, case):
    aa = svc.Attributes()
    clock.set(ac.NOW)
    aa.add(svc.sa.User(id=1, username='dan', password=svc.pw('a')))
    n = len(MADE)
    ctx.step()
    try:
        tool(*case)
    except Exception:
        pass
    else:
        raise Violation('a wrong command was accepted', command=case)
    if len(MADE) != n:
        raise Violation('a wrong command made a key', command=case)
    aa.request('dan', 'a')
    ctx.state(case)


# -- building and filling from the command line ------------------------------------------------------------------------------------
CMDS = ['build all', 'BUILD aauth', 'build PAUTH', 'build pauth aauth', 'populate all', 'POP aauth', 'pop PAUTH', 'populate ALL']


def cmd_gen():
    for k in (1, 2, 3) if THOROUGH else (1, 2):
        for h in product(range(len(CMDS)), repeat=k):
            for start in ('', 'built', 'rows'):
                yield (start, h)


def listing(section):
    import sqlite3
    out = {}
    name = svc.config.get_conf('DB_NAME', True, section) + '.db'
    if os.path.exists(name):
        with contextlib.closing(sqlite3.connect(name)) as c:
            for (t,) in c.execute("select name from sqlite_master where type='table'").fetchall():
                out[t] = sorted(map(str, c.execute('select * from "%s"' % t).fetchall()))
    return out


SETS = {}


def test_rows(kind):
    """{table: rows} of the test set as the database library stores it"""
    if kind not in SETS:
        import importlib
        from sqlalchemy import create_engine
        from sqlalchemy.orm import Session
        e = create_engine('sqlite://')
        svc.schema.ServiceBases[kind].metadata.create_all(e)
        mod = fresh_sets('hgaa.schema.test.test_' + kind)
        with Session(e) as s:
            s.add_all(mod.DB_TEST_SET)
            s.commit()
        with e.connect() as c:
            SETS[kind] = {t.name: sorted(map(str, map(tuple, c.exec_driver_sql('select * from "%s"' % t.name).fetchall()))) for t in svc.schema.ServiceBases[kind].metadata.sorted_tables}
        e.dispose()
        fresh_sets()
    return SETS[kind]


def fresh_sets(name=None):
    """rows are objects that belong to the database they were stored in: read anew for every command, as a new process does"""
    import importlib
    for m in [m for m in sys.modules if m.startswith('hgaa.schema.test')]:
        del sys.modules[m]
    return importlib.import_module(name) if name else None


def cmd_one(ctx, case):
    import shutil
    start, h = case
    d = svc.fresh_dir()
    try:
        svc.drop_engines()
        for sect in ('AAUTH', 'PAUTH'):
            svc.configure(sect, DB_TYPE='SQLITE', DB_NAME=os.path.join(d, sect))
        model = {'aauth': None, 'pauth': None}
        if start:  # what the database library alone puts there
            from sqlalchemy.orm import Session
            for t in model:
                e = svc.database.get_engine(t.upper())
                svc.schema.ServiceBases[t].metadata.create_all(e)
                if start == 'rows':
                    with Session(e) as s:
                        s.add(svc.sa.User(id=77, username='own', password='p') if t == 'aauth' else svc.sp.Policy(uid='own', name='own', policy='TRUE'))
                        s.commit()
                model[t] = listing(t.upper())
        for i in h:
            w = CMDS[i].split()
            targets = ['aauth', 'pauth'] if w[1].lower() == 'all' else [x.lower() for x in w[1:]]
            fresh_sets()
            ctx.step()
            try:
                tool(*w)
                ok = True
            except Exception as e:
                ok, err = False, e
            if w[0].lower() == 'build':
                want = True
                for t in targets:
                    if model[t] is None:
                        model[t] = {x.name: [] for x in svc.schema.ServiceBases[t].metadata.sorted_tables}
            else:
                want = all(model[t] is not None for t in targets)
                for t in targets:
                    if model[t] is None:
                        break
                    model[t] = test_rows(t)
            if ok != want:
                raise Violation('a command failed' if want else 'a database that was never built was filled', commands=[CMDS[j] for j in h], at=CMDS[i], error=None if ok else err)
            for t in ('aauth', 'pauth'):
                got = listing(t.upper())
                if got != (model[t] or {}):
                    raise Violation('the database does not hold what the command puts there', commands=[CMDS[j] for j in h], at=CMDS[i], database=t, got={k: len(v) for k, v in got.items()},
                                    expected=model[t] and {k: len(v) for k, v in model[t].items()})
            ctx.state((start, CMDS[i], tuple(None if m is None else sum(map(len, m.values())) for m in model.values())))
    finally:
        svc.drop_engines()
        for s in ('AAUTH', 'PAUTH'):
            svc.configure(s, DB_TYPE='MEMORY', DB_NAME=None)
        shutil.rmtree(d, ignore_errors=True)


def run(chk):
    chk.bounds = {'passwords': len(PASSWORDS), 'peppers': len(PEPPERS), 'attributes': 1001 if THOROUGH else 300, 'commands': 3 if THOROUGH else 2}
    chk.assumptions = ['bcrypt and the key encryption are sound', 'fewer bcrypt rounds, keys from a pool', 'sqlite in memory']
    chk.explore('all passwords and peppers', pass_gen, pass_one)
    chk.explore('peppers of services', section_gen, section_one)
    chk.explore('building and filling', cmd_gen, cmd_one)
    chk.explore('keys', key_gen, key_one)
    chk.explore('generated attributes', att_gen, att_one)
    chk.explore('wrong commands', lambda: iter(BAD), bad_one)
