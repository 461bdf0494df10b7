"""C40 every service works on the database its configuration names: all kinds, places and contents of the settings, seen by a recording MySQL driver and by the files that appear."""
import os
import shutil
import sqlite3
from itertools import product

import mysql.connector

from mc import ac, clock, svc
from mc.core import Violation, THOROUGH

import hgaa.tools as tools

KEYS = ['DB_USER', 'DB_PASS', 'DB_HOST', 'DB_PORT', 'DB_NAME']
GOT = {'DB_USER': 'user', 'DB_PASS': 'password', 'DB_HOST': 'host', 'DB_PORT': 'port', 'DB_NAME': 'database'}
PLAIN = {'DB_USER': 'apps', 'DB_PASS': 'secret', 'DB_HOST': 'db.example', 'DB_PORT': '3306', 'DB_NAME': 'hgaa'}
DULL = {'DB_USER': 'nobody', 'DB_PASS': 'nothing', 'DB_HOST': 'nowhere', 'DB_PORT': '1', 'DB_NAME': 'none'}
ODD = ['a@b', 'a:b', 'a/b', 'a%b', 'a%40b', 'a?b', 'a?b=c', 'a#b', 'a b', 'a+b', 'a&b', 'a\\b', "a'b", 'a"b', 'a[b]', 'a@b:c/d?e', '\u00e9\u65e5', '{host}', '%(x)s', 'A', '0', '@', ':', '/']
HOSTS = ['db.example', 'localhost', '127.0.0.1', '::1', 'fe80::1', 'DB.Example', 'a_b']
PORTS = ['3306', '3307', '1', '65535', '0003306']
VALUES = {'DB_USER': ODD, 'DB_PASS': ODD, 'DB_HOST': HOSTS, 'DB_PORT': PORTS, 'DB_NAME': ODD}
USES = ['attribute request', 'session', 'authorities', 'populate aauth', 'populate pauth', 'build aauth', 'build pauth', 'attributes']
SERVICE = {'attribute request': 'AAUTH', 'session': 'PAUTH', 'authorities': 'PAUTH', 'populate aauth': 'AAUTH', 'populate pauth': 'PAUTH', 'build aauth': 'AAUTH', 'build pauth': 'PAUTH',
           'attributes': 'AAUTH'}
CALLS = []


class Recorded(Exception):
    pass


def record(*args, **kw):
    CALLS.append(kw)
    raise Recorded('stand-in for the MySQL server')


class Settings:
    """the database settings during one case; everything is put back afterwards"""

    def __enter__(self):
        c = svc.config.SERVICE_CONFIG
        names = [k.lower() for k in KEYS + ['DB_TYPE']]
        base = {k: c['DEFAULT'][k] for k in names if k in c['DEFAULT']}
        self.old = {'DEFAULT': base}
        for s in ('AAUTH', 'PAUTH'):
            self.old[s] = {k: c[s][k] for k in names if k in c[s] and c[s][k] != base.get(k)}
        for s in self.old:
            svc.configure(s, **{k: None for k in KEYS + ['DB_TYPE']})
        self.connect, mysql.connector.connect = mysql.connector.connect, record
        del CALLS[:]
        svc.drop_engines()
        clock.set(ac.NOW)
        return self

    def __exit__(self, *exc):
        mysql.connector.connect = self.connect
        svc.drop_engines()
        for s, kv in self.old.items():
            svc.configure(s, **{k: None for k in KEYS + ['DB_TYPE']})
            svc.configure(s, **{k.upper(): v for k, v in kv.items()})


def place(service, where, values):
    """where: every setting in the section of the service (dull ones elsewhere), or in DEFAULT (dull ones at the other service), or some here and some there"""
    other = 'PAUTH' if service == 'AAUTH' else 'AAUTH'
    svc.configure(other, DB_TYPE='sqlite', **DULL)
    if where == 'section':
        svc.configure('DEFAULT', DB_TYPE='sqlite', **DULL)
        svc.configure(service, **values)
    elif where == 'default':
        svc.configure('DEFAULT', **values)
    else:
        ks = sorted(values)
        svc.configure('DEFAULT', **dict(DULL, **{k: values[k] for k in ks[:where]}))
        svc.configure(service, **{k: values[k] for k in ks[where:]})


def use(what):
    """use the database of a service in one of the ways there are; the error, if any"""
    try:
        if what == 'attribute request':
            aa = svc.Attributes.__new__(svc.Attributes)
            aa.service = svc.saa.AttributeAuthority()
            aa.ask('dan', 'a')
        elif what == 'session':
            pa = svc.Policies.__new__(svc.Policies)
            pa.service = svc.spa.PolicyAuthority()
            pa.start([(b'x', 0, 1)])
        elif what == 'authorities':
            svc.spa.PolicyAuthority().trusted_attribute_authorities(REMOTE_ADDR='1.1.1.1')
        elif what.startswith('populate'):
            svc.database.populate_db(SERVICE[what], [])
            svc.database.populate_db(SERVICE[what], [], wipe_first=True)
        elif what.startswith('build'):
            tools.build_database([SERVICE[what].lower()])
        else:
            tools.gen_atts(1)
    except Exception as e:
        return e
    return None


def mysql_gen():
    for what in USES:
        for where in ('section', 'default', 1, 2, 3, 4, 5):
            yield (what, where, {})
    for service_use in ('attribute request', 'session') if not THOROUGH else USES:
        for k in KEYS:
            for v in VALUES[k]:
                yield (service_use, 'section', {k: v})
                yield (service_use, 'default', {k: v})
    for a in range(len(KEYS)):
        for b in range(a + 1, len(KEYS)):
            for x, y in product(VALUES[KEYS[a]], VALUES[KEYS[b]]):
                yield ('authorities', 'section', {KEYS[a]: x, KEYS[b]: y})


def mysql_one(ctx, case):
    what, where, special = case
    values = dict(PLAIN, **special)
    for spelling in ('mysql',) if special else ('mysql', 'MySQL', 'MYSQL'):
        with Settings():
            place(SERVICE[what], where, dict(values, DB_TYPE=spelling))
            e = use(what)
            calls = [{k: c.get(GOT[k]) for k in KEYS} for c in CALLS]
            ctx.step()
            want = dict(values, DB_PORT=int(values['DB_PORT']))
            if not calls:
                raise Violation('the configured database was not used', use=what, where=where, settings=values, error=e)
            for c in calls:
                if c != want:
                    raise Violation('another database than the configured one was used', use=what, where=where, settings=want, got=c)
    ctx.state(repr(case))


def both_gen():
    kinds = ['mysql', 'sqlite', 'memory']
    for k in KEYS:
        for h in product(('AAUTH', 'PAUTH'), repeat=3):
            yield (k, 'mysql', 'mysql', h)
    for a, b in product(kinds, repeat=2):
        for h in product(('AAUTH', 'PAUTH'), repeat=3):
            yield (None, a, b, h)


def both_one(ctx, case):
    """two services whose settings differ in one place, used by turns in one process"""
    k, a, b, hist = case
    d = os.path.join(svc.SCRATCH, 'c40-%d' % os.getpid())
    os.mkdir(d)
    try:
        with Settings():
            values = {'AAUTH': dict(PLAIN, DB_TYPE=a, DB_NAME=os.path.join(d, 'x')), 'PAUTH': dict(PLAIN, DB_TYPE=b, DB_NAME=os.path.join(d, 'x'))}
            if k:
                values['PAUTH'][k] = DULL[k]
            for s in values:
                svc.configure(s, **values[s])
            for i, s in enumerate(hist):
                del CALLS[:]
                e = use({'AAUTH': ('attribute request', 'populate aauth', 'attributes'), 'PAUTH': ('authorities', 'session', 'populate pauth')}[s][i])
                ctx.step()
                calls = [{q: c.get(GOT[q]) for q in KEYS} for c in CALLS]
                want = {q: values[s][q] for q in KEYS}
                want['DB_PORT'] = int(want['DB_PORT'])
                if any(c != want for c in calls) or bool(calls) != (values[s]['DB_TYPE'] == 'mysql'):
                    raise Violation('a service used the database of another one', service=s, settings=values, history=hist, at=i, got=calls, error=e)
                have = sorted(os.listdir(d))
                files = ['x.db'] if any(values[t]['DB_TYPE'] == 'sqlite' for t in hist[:i + 1]) else []
                if have != files:
                    raise Violation('unexpected files', settings=values, history=hist, at=i, got=have, expected=files)
        ctx.state(case)
    finally:
        svc.drop_engines()
        shutil.rmtree(d)


NAMES = ['x', 'a b', "a'b", 'a?b', 'a?mode=memory', 'a%b', 'a%20b', 'a#b', 'a;b', 'a:b', 'a@b', 'a&b=c', '\u00e9', 'x.db', 'sub/x', './y', 'sub/../z', '{dbname}', ':memory:', 'file:x', 'X', '..x', 'a+b', '', '%(x)s',
         'a' * 100]


def file_gen():
    for n, what, rel in product(range(len(NAMES)), USES, (0, 1)):
        yield (n, what, rel, 'section')
    for n, what in product(range(3), USES):
        yield (n, what, 0, 'default')


def file_one(ctx, case):
    n, what, rel, where = case
    d = os.path.join(svc.SCRATCH, 'c40-%d' % os.getpid())
    os.mkdir(d)
    os.mkdir(os.path.join(d, 'sub'))
    cwd = os.getcwd()
    path = os.path.join(d, NAMES[n]) if NAMES[n] else d + '/'
    try:
        os.chdir(d)
        with Settings():
            place(SERVICE[what], where, {'DB_TYPE': ('sqlite', 'SQLITE', 'SQLite')[n % 3], 'DB_NAME': NAMES[n] if rel else path})
            e = use(what)
            ctx.step()
        have = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
        want = [os.path.normpath(NAMES[n] + '.db')]
        if have != want:
            raise Violation('another file than the configured database was used', use=what, name=NAMES[n], got=have, expected=want, error=e)
        if what.startswith('build'):
            db = sqlite3.connect(os.path.join(d, want[0]))
            tables = [r[0] for r in db.execute("select name from sqlite_master where type = 'table'")]
            db.close()
            if not tables or any(not t.startswith(SERVICE[what].lower()) for t in tables):
                raise Violation('the tables were not made in the configured database', use=what, name=NAMES[n], got=tables)
        ctx.state(case)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


KINDS = [('memory', None), ('sqlite', 'one'), ('sqlite', 'two')]


def apart_gen():
    acts = ['aa', 'pa', 'read', 'restart']
    for a, b in product(range(3), repeat=2):
        for n in range(1, 6 if THOROUGH else 5):
            for h in product(acts, repeat=n):
                yield (a, b, h)


def apart_one(ctx, case):
    """rows written by one session are seen by the others of that database and by no one else; files survive a restart, memory does not"""
    ka, kb, hist = case
    d = os.path.join(svc.SCRATCH, 'c40-%d' % os.getpid())
    os.mkdir(d)
    rows = {}
    where = {'AAUTH': KINDS[ka], 'PAUTH': KINDS[kb]}
    place_of = {s: ('memory', s) if k[0] == 'memory' else k for s, k in where.items()}

    def start():
        svc.drop_engines()
        for s in where:
            svc.schema.ServiceBases[s.lower()].metadata.create_all(svc.database.get_engine(s))
    try:
        with Settings():
            for s, (kind, name) in where.items():
                svc.configure(s, DB_TYPE=kind, DB_NAME=os.path.join(d, name or 'unused'))
            start()
            sessions = {s: svc.database.get_session(s) for s in where}
            for i, act in enumerate(hist + ('read',)):
                ctx.step()
                if act == 'restart':
                    start()
                    sessions = {s: svc.database.get_session(s) for s in where}
                    rows = {k: v for k, v in rows.items() if place_of[k[0]][0] != 'memory'}
                elif act in ('aa', 'pa'):
                    s = 'AAUTH' if act == 'aa' else 'PAUTH'
                    o = svc.database.get_session(s)() if i % 2 else sessions[s]()
                    o.add(svc.sa.User(id=i + 1, username='u%d' % i, password='p') if act == 'aa' else svc.sp.AttributeAuthority(uid='u%d' % i, name='n', url='u', key_cipher='RSA', key_size=1, pub_key='k', trust_level=i))
                    o.commit()
                    o.close()
                    rows[s, 'u%d' % i] = 1
                for s, col in (('AAUTH', svc.sa.User.username), ('PAUTH', svc.sp.AttributeAuthority.uid)):
                    for factory in (sessions[s], svc.database.get_session(s)):
                        o = factory()
                        got = sorted(r[0] for r in o.query(col).all())
                        o.close()
                        want = sorted(u for t, u in rows if t == s)
                        if got != want:
                            raise Violation('a session sees another database than the one of its service', service=s, kinds=where, history=hist, at=i, got=got, expected=want)
            have = sorted(os.listdir(d))
            want = sorted({name + '.db' for kind, name in where.values() if name})
            if have != want:
                raise Violation('unexpected files', kinds=where, got=have, expected=want)
        ctx.state(case)
    finally:
        svc.drop_engines()
        shutil.rmtree(d)


SECTIONS = ['AAUTH', 'PAUTH', 'AAUTH_TEST', 'PAUTH_TEST', 'AAUTH2', 'AA', 'XAAUTH']


def names_gen():
    for kinds in (('memory',) * 7, ('sqlite',) * 7, ('sqlite', 'memory') * 4):
        for a, b in product(SECTIONS, repeat=2):
            yield (kinds, a, b)


def names_one(ctx, case):
    """databases of services with similar names are different ones"""
    from sqlalchemy import text
    kinds, a, b = case
    d = os.path.join(svc.SCRATCH, 'c40-%d' % os.getpid())
    os.mkdir(d)
    c = svc.config.SERVICE_CONFIG
    new = [s for s in SECTIONS if not c.has_section(s)]
    try:
        with Settings():
            for s, kind in zip(SECTIONS, kinds):
                svc.configure(s, DB_TYPE=kind, DB_NAME=os.path.join(d, s))
            first, second = svc.database.get_engine(a), svc.database.get_engine(b)
            ctx.step()
            with first.begin() as x:
                x.execute(text('create table t (v text)'))
                x.execute(text('insert into t values (:v)'), {'v': a})
            try:
                with second.connect() as x:
                    got = x.execute(text('select v from t')).fetchall()
            except Exception:
                got = []
            if bool(got) != (a == b):
                raise Violation('two services have one database' if got else 'one service has two databases', services=(a, b), kinds=kinds)
        ctx.state(case)
    finally:
        svc.drop_engines()
        for s in new:
            c.remove_section(s)
        shutil.rmtree(d)


BAD = ['', 'oracle', 'sqlite3', 'mysql ', 'my sql', 'postgresql', 'none', 'sql', 'memory2', 'sqlite:', 'MYSQLITE']


def bad_gen():
    yield from product(BAD, USES)


def bad_one(ctx, case):
    """a kind of database that is not supported is refused, nothing else is used instead"""
    kind, what = case
    d = os.path.join(svc.SCRATCH, 'c40-%d' % os.getpid())
    os.mkdir(d)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        with Settings():
            place(SERVICE[what], 'section', dict(PLAIN, DB_TYPE=kind, DB_NAME=os.path.join(d, 'x')))
            e = use(what)
            ctx.step()
            if e is None or CALLS or os.listdir(d):
                raise Violation('an unsupported kind of database was used', kind=kind, use=what, connections=CALLS, files=os.listdir(d))
        ctx.state(case)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def run(chk):
    chk.bounds = {'uses': USES, 'settings': {k: len(v) for k, v in VALUES.items()}, 'file_names': len(NAMES), 'history': 5 if THOROUGH else 4}
    chk.assumptions = ['the MySQL driver is a stand-in that records what it is asked for and refuses']
    chk.explore('MySQL settings', mysql_gen, mysql_one)
    chk.explore('two services by turns', both_gen, both_one)
    chk.explore('file names', file_gen, file_one)
    chk.explore('histories of two services', apart_gen, apart_one)
    chk.explore('similar names', names_gen, names_one)
    chk.explore('unsupported kinds', bad_gen, bad_one)
