"""C39 databases: the services work on what another installation wrote (plain SQL rows in its tables), and write what it can read."""
import base64
import hashlib
import json
import os
import sqlite3
from itertools import combinations, product

from mc import ac, clock, svc, wire
from mc.core import Violation, THOROUGH, VERIF

GOLDEN = json.load(open(os.path.join(VERIF, 'mc', 'golden.json')))
TYPES = ['NULL', 'INT', 'FLOAT', 'STRING', 'BOOL', 'SET']
_n = [0]


def database(which, made_by):
    """file name (without .db) of an empty database; made_by 0: the tables of the earlier version, 1: of the current one"""
    _n[0] += 1
    path = os.path.join(svc.SCRATCH, 'c39-%d-%d' % (os.getpid(), _n[0]))
    if made_by == 0:
        db = sqlite3.connect(path + '.db')
        for sql in GOLDEN['ddl'][which]:
            db.execute(sql)
        db.commit()
        db.close()
    else:
        svc.drop_engines()
        svc.configure(which.upper(), DB_TYPE='SQLITE', DB_NAME=path)
        svc.schema.ServiceBases[which].metadata.create_all(svc.database.get_engine(which.upper()))
        svc.drop_engines()
    return path


def sql(path, *stmts):
    db = sqlite3.connect(path + '.db')
    out = None
    for s, args in stmts:
        out = db.execute(s, args).fetchall()
    db.commit()
    db.close()
    return out


def remove(path):
    svc.drop_engines()
    for suffix in ('.db', '.db-journal'):
        if os.path.exists(path + suffix):
            os.unlink(path + suffix)


# -- attribute authority -----------------------------------------------------------------------------------------------------------
VALUES = ['', 'nurse', '7', 'é 日本', None, 'x' * 100]


def aa_gen():
    for made in (0, 1):
        for t in TYPES:
            for v in VALUES:
                yield (made, [(t, v)])
        for a, b in product(TYPES, repeat=2):
            yield (made, [(a, '1'), (b, None)])
        for k in range(7 if THOROUGH else 5):
            for c in combinations(range(6), k):
                yield (made, [(TYPES[i], 'v%d' % i) for i in c])


def aa_one(ctx, case):
    made, atts = case
    path = database('aauth', made)
    rows = [('/att/%d' % i, 'Name %d' % i, t, v) for i, (t, v) in enumerate(atts)]
    sql(path, *([('insert into aauth_users (id, username, password) values (?, ?, ?)', (u, n, svc.pw(p).replace('$2b$', kind))) for u, n, p, kind in ((1, 'dan', 'a', '$2a$'), (7, 'jess', 'b', '$2y$'))]
                + [('insert into aauth_attributes (id, name, type) values (?, ?, ?)', r[:3]) for r in rows]
                + [('insert into aauth_attribute_assignments (user_id, att_id, value) values (?, ?, ?)', (7, r[0], r[3])) for r in rows]))
    try:
        clock.set(ac.NOW)
        aa = svc.Attributes(sqlite=path)
        cert, _, _ = aa.request('jess', 'b')
        got = sorted((i, n, t, v or None) for i, n, t, v in svc.user_atts(cert))
        want = sorted((i, n, t, v or None) for i, n, t, v in rows)
        ctx.step(3)
        ctx.state(repr(case))
        if got != want:
            raise Violation('attributes stored by another installation are issued differently', tables=made, stored=want, got=got)
        if svc.user_atts(aa.request('dan', 'a')[0]):
            raise Violation('a user of another installation was given attributes', tables=made, stored=want)
        for u, p in (('dan', 'b'), ('jess', 'a')):
            try:
                aa.request(u, p)
            except svc.ClientFault:
                continue
            raise Violation('a wrong password was accepted for an account stored by another installation', user=u)
        have = sql(path, ('select id, name, type from aauth_attributes order by id', ()))
        if have != sorted(r[:3] for r in rows):
            raise Violation('requests changed the stored attributes', tables=made, got=have)
    finally:
        remove(path)


def aa_write_gen():
    for made in (0, 1):
        for t in TYPES:
            for v in VALUES:
                yield (made, t, v)


def aa_write_one(ctx, case):
    """what is stored through the models is found by plain SQL"""
    made, t, v = case
    path = database('aauth', made)
    S = svc.sa
    try:
        aa = svc.Attributes(sqlite=path)
        aa.add(S.User(id=3, username='dan', password=svc.pw('a')), S.Attribute(id='/x', name='x', type=ac.AT[t]), S.AttributeAssignment(user_id=3, att_id='/x', value=v))
        ctx.step()
        ctx.state(case)
        for q, want in (('select id, username, password from aauth_users', [(3, 'dan', svc.pw('a'))]), ('select id, name, type from aauth_attributes', [('/x', 'x', t)]),
                        ('select user_id, att_id, value from aauth_attribute_assignments', [(3, '/x', v)])):
            got = sql(path, (q, ()))
            if got != want:
                raise Violation('stored rows cannot be read by another installation', query=q, got=got, expected=want)
    finally:
        remove(path)


# -- policy authority --------------------------------------------------------------------------------------------------------------
def pa_gen():
    for made in (0, 1):
        for fmt in ('BYTES', 'BASE64', 'BASE64FULL'):
            for known in ('no', 'same', 'other'):
                for n in (1, 2):
                    for trust in (0, 1, 10):
                        yield (made, fmt, known, n, trust)


def export(raw, fmt):
    return raw if fmt == 'BYTES' else base64.b64encode(raw) if fmt == 'BASE64' else wire.envelope(raw, 1).encode()


def hash64(data):
    return base64.b64encode(hashlib.sha256(data).digest()).decode()


AC_INSERT = 'insert into pauth_attribute_certificates (serial, certificate, format, version, valid_till, hash) values (?, ?, ?, ?, ?, ?)'


def pa_one(ctx, case):
    made, fmt, known, n, trust = case
    path = database('pauth', made)
    certs = [(s, wire.write_certificate(ac.content(svc.issue(serial=s, before=900 + s), signature=False), ac.KEYS[0])) for s in range(5, 5 + n)]
    data = [(s, export(raw, fmt)) for s, raw in certs]
    stmts = [('insert into pauth_attribute_authorities (uid, name, url, key_cipher, key_size, pub_key, trust_level) values (?, ?, ?, ?, ?, ?, ?)',
              ('aa', 'Name', 'http://x', 'RSA', 1024, svc.PEMPUB[0].decode(), trust))]
    if known != 'no':
        s, d = data[0]
        old = d if known == 'same' else export(bytes(svc.issue(serial=s, before=77).encode()), fmt)
        stmts += [(AC_INSERT, (svc.serial64(s), old, wire.FORMAT[fmt], 1, ac.NOW + 900 + s, hash64(old))),
                  ('insert into pauth_sessions (id, cert_start, cert_valid_till, session_start, initial_service_ip, name, session_valid_till) values (?, ?, ?, ?, ?, ?, ?)',
                   ('old', 1, 2, 3, 'ip', 'svc0', 4)),
                  ('insert into pauth_attribute_certificate_assignments (ac_serial, session_id) values (?, ?)', (svc.serial64(s), 'old'))]
    sql(path, *stmts)
    tables = (('pauth_attribute_certificates', 'serial, certificate, format, version, valid_till, hash'), ('pauth_attribute_certificate_assignments', 'ac_serial, session_id'),
              ('pauth_sessions', 'id, cert_start, cert_valid_till, session_start, initial_service_ip, name, session_valid_till'))

    def dump():
        return [set(sql(path, ('select %s from %s' % (cols, t), ()))) for t, cols in tables]

    try:
        clock.set(ac.NOW)
        pa = svc.Policies(sqlite=path)
        before = dump()
        ctx.step(2)
        ctx.state(case)
        lst = pa.service.trusted_attribute_authorities(REMOTE_ADDR='1.2.3.4').attribute_authorities
        got = [(a.uid, a.name, a.url, a.key_algorithm.cipher, a.key_algorithm.key_size, a.public_key, a.trust_level) for a in lst]
        if got != [('aa', 'Name', 'http://x', 'RSA', 1024, svc.PEMPUB[0].decode(), trust)]:
            raise Violation('an authority stored by another installation is listed differently', got=got)
        allowed = trust > 0 and known != 'other'
        try:
            r = pa.start([(d, wire.FORMAT[fmt], 1) for _, d in data], service='svc1', addr='10.9.8.7')
        except Exception as e:
            if allowed:
                raise Violation('a session is refused on the database of another installation', case=case, raised=e)
            if dump() != before:
                raise Violation('a refused session changed the stored data', case=case)
            return
        if not allowed:
            raise Violation('a session started against the stored data of another installation', case=case)
        sid = svc.serial64(r.session_id)
        end = ac.NOW + 905
        want = [before[0] | {(svc.serial64(s), d, wire.FORMAT[fmt], 1, ac.NOW + 900 + s, hash64(d)) for s, d in data},
                before[1] | {(svc.serial64(s), sid) for s, _ in data}, before[2] | {(sid, ac.NOW, end, ac.NOW, '10.9.8.7', 'svc1', end)}]
        if dump() != want:
            raise Violation('the session is not stored as another installation reads it', case=case, got=[sorted(map(repr, a ^ b)) for a, b in zip(dump(), want)])
    finally:
        remove(path)


def pa_rows_gen():
    """attributes and policies of the policy authority, written and read on either side"""
    for made in (0, 1):
        for t in TYPES:
            for v in VALUES:
                for name in ('n', None):
                    yield (made, 'att', (t, v, name))
        for text, raw, _ in GOLDEN['policies']:
            for blob in (None, raw):
                yield (made, 'pol', (text, blob, 'p' if blob else None))


def pa_rows_one(ctx, case):
    made, what, (a, b, name) = case
    path = database('pauth', made)
    P = svc.sp
    try:
        ctx.step(2)
        ctx.state(repr(case))
        if what == 'att':
            cols, table, row = 'uid, name, type, value', 'pauth_attributes', ('u1', name, a, b)
        else:
            cols, table, row = 'uid, name, policy, ast', 'pauth_policies', ('u1', name, a, None if b is None else bytes.fromhex(b))
        sql(path, ('insert into %s (%s) values (?, ?, ?, ?)' % (table, cols), row))
        pa = svc.Policies(sqlite=path)
        s = pa.session()
        if what == 'att':
            r, = s.query(P.Attribute).all()
            got = (r.uid, r.name, r.type.name, r.value)
            s.add(P.Attribute(uid='u2', name=name, type=ac.AT[a], value=b))
        else:
            r, = s.query(P.Policy).all()
            got = (r.uid, r.name, r.policy, None if r.ast is None else bytes(r.ast))
            s.add(P.Policy(uid='u2', name=name, policy=a, ast=row[3]))
        if got != row:
            raise Violation('a row stored by another installation is read differently', table=table, got=got, expected=row)
        s.commit()
        s.close()
        have = sql(path, ('select %s from %s order by uid' % (cols, table), ()))
        if have != [row, ('u2',) + row[1:]]:
            raise Violation('a stored row cannot be read by another installation', table=table, got=have)
    finally:
        remove(path)


def run(chk):
    chk.bounds = {'attribute_types': 'all', 'values': len(VALUES), 'attributes_per_user': 6 if THOROUGH else 4, 'certificates_per_session': 2}
    chk.assumptions = ['sqlite databases; the tables of the first commit stand for another installation']
    chk.explore('stored attributes', aa_gen, aa_one)
    chk.explore('written attributes', aa_write_gen, aa_write_one)
    chk.explore('sessions', pa_gen, pa_one)
    chk.explore('rows of the policy authority', pa_rows_gen, pa_rows_one)
