"""C31 filling and wiping the database of one service: all histories over both services, with separate and with shared databases."""
import os
import shutil
from itertools import product

from mc import ac, svc
from mc.core import Violation, THOROUGH

import hgaa.tools as tools

SA, SP = svc.sa, svc.sp


def rows_a(tag):
    return [SA.User(id=tag, username='u%d' % tag, password='p'), SA.Attribute(id='a%d' % tag, name='n', type=ac.AT.INT), SA.AttributeAssignment(user_id=tag, att_id='a%d' % tag, value='v%d' % tag)]


def rows_p(tag):
    k = '%d' % tag
    return [SP.AttributeAuthority(uid=k, name='n', url='u', key_cipher='RSA', key_size=1, pub_key='k', trust_level=tag), SP.Policy(uid=k, name='p', policy='TRUE'),
            SP.Session(id=k, cert_start=1, cert_valid_till=2, session_start=1, initial_service_ip='i', service_uid='s', session_valid_till=3),
            SP.AttributeCertificate(serial=k, certificate=b'c', format=0, version=1, valid_till=2, hash='h'), SP.AttributeCertificateAssignment(ac_serial=k, session_id=k)]


def content(section, kind, tables):
    """{table: sorted rows} as another process sees it"""
    import sqlite3
    name = svc.config.get_conf('DB_NAME', True, section) + '.db'
    out = {}
    if os.path.exists(name):
        c = sqlite3.connect(name)
        have = {r[0] for r in c.execute("select name from sqlite_master where type='table'")}
        for t in tables:
            if t.name in have:
                out[t.name] = sorted(map(str, c.execute('select %s from "%s"' % (', '.join('"%s"' % k.name for k in t.columns), t.name)).fetchall()))
        c.close()
    return out


MODEL = {}


def model_rows(kind, tag):
    """{table: {primary key: row}} as stored by the database library alone, without the code under test"""
    if (kind, tag) not in MODEL:
        from sqlalchemy import create_engine
        from sqlalchemy.orm import Session
        e = create_engine('sqlite://')
        svc.schema.ServiceBases[{'a': 'aauth', 'p': 'pauth'}[kind]].metadata.create_all(e)
        with Session(e) as s:
            s.add_all((rows_a if kind == 'a' else rows_p)(tag))
            s.commit()
        out = {}
        with e.connect() as c:
            for t in TABLES[kind]:
                cols = [k.name for k in t.columns]
                for r in c.exec_driver_sql('select %s from "%s"' % (', '.join('"%s"' % k for k in cols), t.name)).fetchall():
                    out.setdefault(t.name, {})[tuple(r[cols.index(k.name)] for k in t.primary_key)] = str(tuple(r))
        e.dispose()
        MODEL[kind, tag] = out
    return MODEL[kind, tag]


ACTS = ['fill AAUTH 1', 'fill AAUTH 2', 'wipe AAUTH 1', 'fill PAUTH 1', 'wipe PAUTH 2', 'wipe AAUTH 0', 'test AAUTH 3', 'testwipe AAUTH 4', 'testwipe PAUTH 5', 'testwipe AAUTH 0', 'wipe PAUTH 0', 'build', 'reopen', 'fill AAUTH 6+1', 'fill PAUTH 6+1']
TABLES = {'a': list(svc.schema.ServiceBases['aauth'].metadata.sorted_tables), 'p': list(svc.schema.ServiceBases['pauth'].metadata.sorted_tables)}
LAYOUT = {'separate': {'AAUTH': 'a', 'PAUTH': 'p', 'AAUTH_TEST': 'at', 'PAUTH_TEST': 'pt'}, 'shared': {'AAUTH': 'x', 'PAUTH': 'x', 'AAUTH_TEST': 'y', 'PAUTH_TEST': 'y'}}


def gen():
    n = 4 if THOROUGH else 3
    for layout in LAYOUT:
        for k in range(1, n + 1):
            for h in product(range(len(ACTS)), repeat=k):
                yield (layout, h)


def setup(layout, d):
    svc.drop_engines()
    for sect, f in LAYOUT[layout].items():
        svc.configure(sect, DB_TYPE='SQLITE', DB_NAME=os.path.join(d, f))
        svc.schema.ServiceBases['aauth' if sect.startswith('A') else 'pauth'].metadata.create_all(svc.database.get_engine(sect))


def one(ctx, case):
    layout, h = case
    d = svc.fresh_dir()
    try:
        setup(layout, d)
        model = {s: {t.name: {} for t in TABLES['a' if s[0] == 'A' else 'p']} for s in LAYOUT[layout]}
        for a in h:
            w = ACTS[a].split()
            ctx.step()
            if w[0] == 'build':
                tools.build_database(['aauth', 'pauth'])
            elif w[0] == 'reopen':
                svc.drop_engines()
            else:
                kind, tags = 'a' if w[1] == 'AAUTH' else 'p', [int(x) for x in w[2].split('+') if x != '0']
                sect = w[1] + ('_TEST' if w[0].startswith('test') else '')
                wipe = w[0].endswith('wipe')
                now = {t: {} if wipe else dict(v) for t, v in model[sect].items()}
                clash = False
                for tag in tags:
                    for t, v in model_rows(kind, tag).items():
                        clash = clash or any(k in now[t] for k in v)
                        now[t].update(v)
                rows = [r for tag in tags for r in (rows_a if kind == 'a' else rows_p)(tag)]
                try:
                    svc.database.populate_db(w[1], rows, **dict({'wipe_first': True} if wipe else {}, **({'use_test_db': True} if w[0].startswith('test') else {})))
                    if clash:
                        raise Violation('rows that exist already were added again', layout=layout, history=[ACTS[i] for i in h])
                except Violation:
                    raise
                except Exception as e:
                    if not clash:
                        raise Violation('filling the database failed', error=e, layout=layout, history=[ACTS[i] for i in h])
                if not clash:
                    model[sect] = now
            for s in LAYOUT[layout]:
                got = content(s, s[0], TABLES['a' if s[0] == 'A' else 'p'])
                want = {t: sorted(v.values()) for t, v in model[s].items()}
                if got != want:
                    raise Violation('the database does not hold what was put there', database=s, got=got, expected=want, layout=layout, history=[ACTS[i] for i in h], at=ACTS[a])
            ctx.state((layout, str(sorted((s, sorted((t, sorted(v)) for t, v in m.items())) for s, m in model.items()))))
    finally:
        restore(d)


def restore(d):
    svc.drop_engines()
    for s in ('AAUTH_TEST', 'PAUTH_TEST'):
        svc.config.SERVICE_CONFIG.remove_section(s)
    for s in ('AAUTH', 'PAUTH'):
        svc.configure(s, DB_TYPE='MEMORY', DB_NAME=None)
    shutil.rmtree(d, ignore_errors=True)


# -- many rows ---------------------------------------------------------------------------------------------------------------------
def many_gen():
    for n in (1, 2, 9, 10, 11, 49, 50, 51, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1999, 2001) + ((5000, 10001) if THOROUGH else ()):
        for bad in (None, 'last', 'first', 'middle', 'old'):
            for wipe in (False, True):
                if not (bad == 'old' and wipe):
                    yield (n, bad, wipe)


def many_one(ctx, case):
    """a fill of n rows happens completely or, when one row cannot be stored, not at all (a wipe asked for may have happened)"""
    n, bad, wipe = case
    d = svc.fresh_dir()
    try:
        setup('separate', d)
        for other in ('AAUTH', 'PAUTH'):
            svc.database.populate_db(other, (rows_a if other == 'AAUTH' else rows_p)(1))
        before = {s: content(s, s[0], TABLES[s[0].lower()]) for s in ('AAUTH', 'PAUTH')}
        rows = [SA.User(id=10 + i, username='n%d' % i, password='p') for i in range(n)]
        at = {'last': n, 'first': 0, 'middle': n // 2, 'old': n // 2}.get(bad)
        if bad == 'old':
            rows.insert(at, SA.User(id=1, username='again', password='p'))
        elif bad:
            rows.insert(at, SA.AttributeAssignment(user_id=5, att_id=None, value='v'))
        ctx.step(n)
        try:
            svc.database.populate_db('AAUTH', rows, wipe_first=wipe)
            ok = True
        except Exception:
            ok = False
        if ok != (bad is None):
            raise Violation('rows that cannot be stored were taken' if ok else 'filling failed', case=case)
        after = {s: content(s, s[0], TABLES[s[0].lower()]) for s in ('AAUTH', 'PAUTH')}
        if after['PAUTH'] != before['PAUTH']:
            raise Violation('filling one database changed the other', case=case)
        if not ok and after != before and not (wipe and not any(after['AAUTH'].values())):
            raise Violation('a fill that failed changed the database', case=case, rows={t: len(v) for t, v in after['AAUTH'].items()})
        if ok:
            t = SA.User.__tablename__
            want = dict({x: [] for x in before['AAUTH']} if wipe else before['AAUTH'])
            want[t] = sorted(want[t] + [str((10 + i, 'n%d' % i, 'p')) for i in range(n)])
            if after['AAUTH'] != want:
                raise Violation('the database does not hold what was put there', case=case, rows={x: len(v) for x, v in after['AAUTH'].items()}, expected={x: len(v) for x, v in want.items()})
        ctx.state(case)
    finally:
        restore(d)


# -- rows alike ------------------------------------------------------------------------------------------------------------------
def alike_gen():
    for kind in 'ap':
        for i, t in enumerate(TABLES[kind]):
            if any(type(r).__table__ is t for r in (rows_a if kind == 'a' else rows_p)(1)):
                yield (kind, i)


def alike_one(ctx, case):
    """rows that differ only in one column of the key are different rows"""
    kind, i = case
    t = TABLES[kind][i]
    sect = 'AAUTH' if kind == 'a' else 'PAUTH'
    d = svc.fresh_dir()
    try:
        setup('separate', d)
        cls = next(m.class_ for m in svc.schema.ServiceBases[sect.lower()].registry.mappers if m.local_table is t)
        base = next(r for r in (rows_a if kind == 'a' else rows_p)(1) if type(r) is cls)
        names = {c.key: p.key for p in cls.__mapper__.column_attrs for c in p.columns}
        values = {names[c.key]: getattr(base, names[c.key]) for c in t.columns if getattr(base, names[c.key]) is not None}
        rows = [cls(**values)]
        for c in t.primary_key:
            v = values[names[c.key]]
            rows.append(cls(**dict(values, **{names[c.key]: v + 1 if isinstance(v, int) else str(v) + 'x'})))
        ctx.step(len(rows))
        try:
            svc.database.populate_db(sect, rows)
        except Exception as e:
            raise Violation('rows that differ in the key were refused', table=t.name, error=e)
        got = len(content(sect, kind, TABLES[kind])[t.name])
        if got != 1 + len(list(t.primary_key)):
            raise Violation('rows that differ in the key were not all stored', table=t.name, got=got)
        ctx.state(case)
    finally:
        restore(d)


# -- building ------------------------------------------------------------------------------------------------------------------
def build_gen():
    names = ['aauth', 'pauth', 'nosuch']
    for n in (1, 2, 3):
        for c in product(names, repeat=n):
            for filled in (False, True):
                yield (c, filled)


def build_one(ctx, case):
    services, filled = case
    d = svc.fresh_dir()
    try:
        svc.drop_engines()
        for sect in ('AAUTH', 'PAUTH'):
            svc.configure(sect, DB_TYPE='SQLITE', DB_NAME=os.path.join(d, sect))
        if filled:
            for sect, rows in (('AAUTH', rows_a(1)), ('PAUTH', rows_p(1))):
                svc.schema.ServiceBases[sect.lower()].metadata.create_all(svc.database.get_engine(sect))
                svc.database.populate_db(sect, rows)
        before = {s: content(s, s[0], TABLES[s[0].lower()]) for s in ('AAUTH', 'PAUTH')}
        ctx.step()
        try:
            tools.build_database(list(services))
            if 'nosuch' in services:
                raise Violation('an unknown service was built', services=services)
        except Violation:
            raise
        except Exception as e:
            if 'nosuch' not in services:
                raise Violation('building failed', services=services, error=e)
        done = services[:services.index('nosuch')] if 'nosuch' in services else services
        for s in ('AAUTH', 'PAUTH'):
            got = content(s, s[0], TABLES[s[0].lower()])
            if filled and got != before[s]:
                raise Violation('building again changed the content', services=services, database=s, got=got, expected=before[s])
            if not filled and s.lower() in done and got != {t.name: [] for t in TABLES[s[0].lower()]}:
                raise Violation('tables are missing after building', services=services, database=s, got=got)
            if not filled and s.lower() not in services and got:
                raise Violation('a service was built that was not asked for', services=services, database=s)
        ctx.state(case)
    finally:
        restore(d)


def partial_gen():
    for sect in ('AAUTH', 'PAUTH'):
        n = len(TABLES[sect[0].lower()])
        for have in range(2 ** n):
            for shared in (False, True):
                yield (sect, have, shared)


def partial_one(ctx, case):
    """building where only some of the tables exist"""
    sect, have, shared = case
    d = svc.fresh_dir()
    try:
        svc.drop_engines()
        for s in ('AAUTH', 'PAUTH'):
            svc.configure(s, DB_TYPE='SQLITE', DB_NAME=os.path.join(d, 'x' if shared else s))
        tables = TABLES[sect[0].lower()]
        other = 'PAUTH' if sect == 'AAUTH' else 'AAUTH'
        some = [t for i, t in enumerate(tables) if have >> i & 1]
        svc.schema.ServiceBases[sect.lower()].metadata.create_all(svc.database.get_engine(sect), tables=some)
        svc.schema.ServiceBases[other.lower()].metadata.create_all(svc.database.get_engine(other))
        svc.database.populate_db(other, rows_p(1) if other == 'PAUTH' else rows_a(1))
        before = content(other, other[0], TABLES[other[0].lower()])
        svc.drop_engines()
        ctx.step()
        tools.build_database([sect.lower()])
        got = content(sect, sect[0], tables)
        if set(t.name for t in tables) - set(got):
            raise Violation('tables are missing after building', service=sect, existed=[t.name for t in some], got=sorted(got))
        if content(other, other[0], TABLES[other[0].lower()]) != before:
            raise Violation('building one service changed the other', service=sect)
        ctx.state(case)
    finally:
        restore(d)


def kinds(ctx):
    """an unsupported database type gives no engine, one name gives one engine"""
    svc.drop_engines()
    svc.configure('AAUTH', DB_TYPE='oracle')
    try:
        if svc.database.get_engine('AAUTH') is not None:
            raise Violation('engine for an unsupported database')
        try:
            tools.build_database(['aauth'])
        except Exception:
            pass
        else:
            raise Violation('an unsupported database was built')
        for t in ('memory', 'MEMORY', 'Memory'):
            svc.drop_engines()
            svc.configure('AAUTH', DB_TYPE=t)
            e = svc.database.get_engine('AAUTH')
            if e is None or svc.database.get_engine('AAUTH') is not e or svc.database.get_engine('PAUTH') is e:
                raise Violation('engines of services are mixed up', type=t)
            ctx.step()
    finally:
        svc.configure('AAUTH', DB_TYPE='MEMORY')
        svc.drop_engines()
    ctx.traces += 4


def run(chk):
    svc.SOFT[0] = True
    chk.bounds = {'history_length': 4 if THOROUGH else 3, 'actions': len(ACTS), 'layouts': list(LAYOUT), 'services_built': 3}
    chk.assumptions = ['sqlite in files as the database']
    chk.explore('all histories of filling and wiping', gen, one)
    chk.explore('many rows', many_gen, many_one)
    chk.explore('rows alike', alike_gen, alike_one)
    chk.explore('all sequences of services to build', build_gen, build_one)
    chk.explore('building what is missing', partial_gen, partial_one)
    chk.one('kinds of databases', kinds)
