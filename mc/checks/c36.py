"""C36 passwords, the pepper and private keys stay secret: every request outcome at every log level, everything written or returned is searched."""
import base64
import logging
import os
from itertools import product

from mc import ac, clock, keys, svc
from mc.core import Violation

import ladon.clients.jsonwsp as wire
import Crypto.PublicKey.RSA as RSA
import hgaa.clients.aauth as caa

import mysql.connector

SECRET = 'Zq7~X\xf64^Kw'
OTHER = 'Vj3~Ly8^Qz'
PEPPER = 'Ub5~\xfc9^Hx'
KEYPASS = 'Gn6~Tp2^Ro'
DBPASS = 'Mk1~Ws7^Fc'
RECORDS = []


class Catch(logging.Handler):
    def emit(self, record):
        try:
            RECORDS.append(record.getMessage())
        except Exception as e:
            RECORDS.append('%s %r' % (record.msg, record.args))
        if record.exc_info:
            RECORDS.append(repr(record.exc_info[1]))


HANDLER = Catch()
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
CASES = ['good', 'password', 'nobody', 'case', 'unassigned', 'type', 'type None', 'type str', 'type 0', 'type word', 'type float', 'type -1', 'address', 'address 6', 'address none', 'user hash', 'null password', 'surrogate', 'long', 'no key', 'nul']


def listen(level):
    logging.disable(logging.NOTSET)
    del RECORDS[:]
    for name in ('hgaa', 'sqlalchemy', 'ladonlogger', None):
        lg = logging.getLogger(name)
        if HANDLER not in lg.handlers:
            lg.addHandler(HANDLER)
    for lg in svc.hgaa_loggers():
        lg.setLevel(getattr(logging, level))


def deaf():
    logging.disable(logging.CRITICAL)


def forms(secret):
    b = secret.encode() if isinstance(secret, str) else secret
    return [b, base64.b64encode(b).rstrip(b'=')[:-2], b.hex().encode(), repr(secret).strip('"\'b').encode(), b[::-1]]


def windows(secret):
    """parts of a secret (every part holds a sign that does not occur otherwise)"""
    return [secret[i:i + 4].encode() for i in range(len(secret) - 3)]


def private(key):
    """the numbers of a private key in the ways they are written"""
    out = []
    for n in (key.d, key.p, key.q):
        out += [str(n).encode(), b'%x' % n, b'%X' % n, n.to_bytes(256, 'big').lstrip(b'\0')]
    body = b''.join(key.export_key().split(b'\n')[1:-1])
    out += [body[300:340], base64.b64encode(key.export_key())[400:440]]
    return out


def search(where, blob, secrets, info):
    if isinstance(blob, str):
        blob = blob.encode('utf-8', 'replace')
    blobs = [blob, blob.replace(b'\\n', b'').replace(b'\n', b'').replace(b'\r', b'')]
    for name, s in secrets:
        if any(s in b for b in blobs):
            raise Violation('a secret leaked', secret=name, where=where, **info)


def gen():
    for c, level in product(CASES, LEVELS):
        for key in (0, 2):
            yield (c, level, key)


def one(ctx, case):
    c, level, key = case
    svc.configure('AAUTH', KEY_FILE=svc.KEYFILES[key], PASS_PEPPER=PEPPER)
    try:
        listen(level)
        aa = svc.Attributes()
        clock.set(ac.NOW)
        h = svc.bcrypt.hashpw((SECRET + PEPPER).encode(), svc.bcrypt.gensalt(4)).decode()
        aa.add(svc.sa.User(id=1, username='dan', password=h), svc.sa.User(id=2, username='jess', password=h), svc.sa.Attribute(id='r', name='role', type=ac.AT.STRING),
               svc.sa.AttributeAssignment(user_id=1, att_id='r', value='v'))
        said = []
        del RECORDS[:]
        aa.service = svc.saa.AttributeAuthority()
        ctx.step()
        try:
            r = aa.ask({'nobody': 'nobody', 'case': 'DAN', 'user hash': "dan' or password='"}.get(c, 'dan'), {'password': OTHER, 'null password': None, 'surrogate': OTHER + '\ud800', 'long': OTHER * 20, 'nul': OTHER + '\0'}.get(c, SECRET), names=['zz'] if c == 'unassigned' else [],
                       ctype={'type': 9, 'type None': None, 'type str': '9', 'type 0': '0', 'type word': 'USER_PASS', 'type float': 0.5, 'type -1': -1}.get(c, 0), key=None if c == 'no key' else b'user-key', addr={'address': 'not:an:address', 'address 6': '2001:db8::1%eth0', 'address none': ''}.get(c, '10.0.0.1'))
            said.append(('certificate', r.data.read()))
            r.data.close()
            for f in aa.files():
                said.append(('stored certificate', open(os.path.join(aa.dir, f), 'rb').read()))
                said.append(('file name', f))
        except Exception as e:
            said.append(('error', '%s %r %r' % (e, e.args, vars(e))))
        i = aa.service.info(REMOTE_ADDR='::1')
        said.append(('info', repr([getattr(i, k, None) for k in ('aauth_id', 'attribute_uri', 'revocation_url', 'public_key')])))
        deaf()
        said.append(('log', '\n'.join(RECORDS)))
        secrets = [('password', x) for x in forms(SECRET) + forms(OTHER)] + [('pepper', x) for x in forms(PEPPER)] + [('private key', x) for x in private(ac.KEYS[key])]
        for where, blob in said:
            if where != 'log':
                secrets_here = secrets + [('password hash', h.encode())]
            else:
                secrets_here = [(n, s) for n, s in secrets]
            if isinstance(blob, str):
                secrets_here = secrets_here + [('part of the password', x) for x in windows(SECRET) + windows(OTHER)] + [('part of the pepper', x) for x in windows(PEPPER)]
            search(where, blob, secrets_here, dict(request=c, level=level))
        ctx.state(case)
    finally:
        deaf()
        svc.configure('AAUTH', KEY_FILE=svc.KEYFILES[0], PASS_PEPPER=None)


def client_gen():
    for level, status, key in product(LEVELS, (200, 500, 'fault', 'down'), (None, 1)):
        yield (level, status, key)


class Reply:
    pass


def client_one(ctx, case):
    level, status, key = case
    C = svc.config.CLIENT_CONFIG
    if not C.has_section('AAUTH'):
        C.add_section('AAUTH')
    for k, v in dict(CLIENT_TYPE='JSONWSP', SERVICE_DESCRIPTION='http://aa', KEY_SIZE='1024', CRED_TYPE='0', CRED_USER='u', CRED_PASS=SECRET).items():
        C['AAUTH'][k] = v
    old, RSA.generate = RSA.generate, lambda bits, *a, **k: ac.KEYS[3]

    def answer(method, kw, url):
        if status == 'down':
            raise OSError('down')
        r = Reply()
        r.status = 200 if status == 'fault' else status
        r.response_dict = {'fault': {'string': 's', 'detail': 'd'}} if status == 'fault' else {'result': 'x'}
        return r
    wire.SCRIPT[0] = answer
    try:
        listen(level)
        del wire.CALLS[:]
        ctx.step()
        said = []
        cli = caa.AttributeAuthorityClient()
        try:
            cli.attribute_request(['a'], None, ac.KEYS[1] if key else None)
        except Exception as e:
            said.append(('error', '%s %r' % (e, e.args)))
        deaf()
        said.append(('log', '\n'.join(RECORDS)))
        priv = [('private key', x) for x in private(ac.KEYS[1 if key else 3])]
        for where, blob in said:
            search(where, blob, priv + [('password', x) for x in forms(SECRET) + windows(SECRET)], dict(level=level, status=status))
        search('request', repr(wire.CALLS), priv, dict(level=level, status=status))
        ctx.state(case)
    finally:
        RSA.generate = old
        deaf()


STARTS = ['right', 'wrong', 'missing', 'garbage', 'directory', 'empty']


def start_gen():
    yield from product(STARTS, LEVELS)


def start_one(ctx, case):
    """starting the attribute authority with a protected key, also when that fails"""
    how, level = case
    path = os.path.join(svc.SCRATCH, 'c36-%d' % os.getpid())
    with open(path, 'wb') as f:
        f.write({'garbage': b'-----BEGIN nothing', 'empty': b''}.get(how, ac.KEYS[1].export_key(passphrase='another' if how == 'wrong' else KEYPASS)))
    svc.configure('AAUTH', KEY_FILE={'missing': path + 'x', 'directory': svc.SCRATCH}.get(how, path), KEY_PASS=KEYPASS, PASS_PEPPER=PEPPER)
    try:
        listen(level)
        said = []
        ctx.step()
        try:
            svc.saa.AttributeAuthority()
            ok = True
        except Exception as e:
            ok = False
            said.append(('error', '%s %r %r' % (e, e.args, vars(e))))
        deaf()
        said.append(('log', '\n'.join(RECORDS)))
        if ok != (how == 'right'):
            raise Violation('the authority started wrongly', key_file=how, started=ok)
        for where, blob in said:
            search(where, blob, [('passphrase of the key', x) for x in forms(KEYPASS) + windows(KEYPASS)] + [('pepper', x) for x in forms(PEPPER) + windows(PEPPER)]
                   + [('private key', x) for x in private(ac.KEYS[1])], dict(key_file=how, level=level))
        ctx.state(case)
    finally:
        deaf()
        svc.configure('AAUTH', KEY_FILE=svc.KEYFILES[0], KEY_PASS='x', PASS_PEPPER=None)
        os.unlink(path)


TOOLS = [('genkey', 'aauth'), ('GENKEY', 'AAUTH'), ('genkey', 'other'), ('genkey',), ('pass', 'aauth', SECRET), ('password', 'PAUTH', SECRET), ('pass', SECRET), ('pass', 'aauth', SECRET, SECRET),
         ('populate', 'aauth'), ('pop', 'all'), ('build', 'aauth'), ('genatts', '2'), ()]


def tools_gen():
    yield from product(range(len(TOOLS)), LEVELS, ('file', 'directory', 'missing'))


def tools_one(ctx, case):
    """what the command line tools write to the log, to errors and to the file of a new key"""
    from mc.checks import c35
    n, level, where = case
    path = os.path.join(svc.SCRATCH, 'c36k-%d' % os.getpid())
    svc.configure('AAUTH', KEY_FILE={'directory': svc.SCRATCH, 'missing': path + '/x'}.get(where, path), KEY_PASS=KEYPASS, PASS_PEPPER=PEPPER)
    svc.configure('PAUTH', PASS_PEPPER=PEPPER)
    svc.configure('TOOLS', LOG_LEVEL=level)
    del c35.MADE[:]
    said = []
    try:
        listen(level)
        ctx.step()
        try:
            out = c35.tool(*TOOLS[n])
        except Exception as e:
            out = ''
            said.append(('error', '%s %r %r' % (e, e.args, vars(e))))
        deaf()
        said.append(('log', '\n'.join(RECORDS)))
        made = [('private key', x) for k in c35.MADE for x in private(k)] + [('private key', x) for k in c35.MADE for x in (k.export_key('DER'), base64.b64encode(k.export_key('DER', pkcs=8))[300:340])]
        secrets = [('passphrase of the key', x) for x in forms(KEYPASS) + windows(KEYPASS)] + [('pepper', x) for x in forms(PEPPER) + windows(PEPPER)] + made
        search('output', out, secrets, dict(tool=TOOLS[n], level=level))
        for place, blob in said:
            search(place, blob, secrets + [('password', x) for x in forms(SECRET) + windows(SECRET)], dict(tool=TOOLS[n], level=level))
        if os.path.exists(path):
            with open(path, 'rb') as f:
                search('file of the key', f.read(), secrets, dict(tool=TOOLS[n], level=level))
        ctx.state(case)
    finally:
        deaf()
        svc.configure('AAUTH', KEY_FILE=svc.KEYFILES[0], KEY_PASS='x', PASS_PEPPER=None)
        svc.configure('PAUTH', PASS_PEPPER=None)
        svc.configure('TOOLS', LOG_LEVEL=None)
        if os.path.exists(path):
            os.unlink(path)


def refuse(*a, **kw):
    raise mysql.connector.errors.InterfaceError('stand-in for the MySQL server')


def db_gen():
    yield from product(('mysql', 'MYSQL', 'oracle', 'sqlite'), ('aa', 'pa', 'populate', 'build'), LEVELS, ('db.example', 'localhost', '127.0.0.1', '::1', ''))


def db_one(ctx, case):
    """using a database that needs a password"""
    kind, use, level, host = case
    import hgaa.tools as tools
    db = dict(DB_TYPE=kind, DB_USER='apps', DB_PASS=DBPASS, DB_HOST=host, DB_PORT='3306', DB_NAME=os.path.join(svc.SCRATCH, 'c36-%d' % os.getpid()))
    old, mysql.connector.connect = mysql.connector.connect, refuse
    for s in ('AAUTH', 'PAUTH'):
        svc.configure(s, **db)
    svc.drop_engines()
    said = []
    try:
        listen(level)
        ctx.step()
        try:
            if use == 'aa':
                aa = svc.Attributes.__new__(svc.Attributes)
                aa.service = svc.saa.AttributeAuthority()
                aa.ask('dan', 'a')
            elif use == 'pa':
                svc.spa.PolicyAuthority().trusted_attribute_authorities(REMOTE_ADDR='1.1.1.1')
            elif use == 'populate':
                svc.database.populate_db('AAUTH', [], wipe_first=True)
            else:
                tools.build_database(['pauth'])
        except Exception as e:
            said.append(('error', '%s %r' % (e, e.args)))
        deaf()
        said.append(('log', '\n'.join(RECORDS)))
        for where, blob in said:
            search(where, blob, [('password of the database', x) for x in forms(DBPASS) + windows(DBPASS)], dict(kind=kind, use=use, level=level))
        ctx.state(case)
    finally:
        deaf()
        mysql.connector.connect = old
        svc.drop_engines()
        for s in ('AAUTH', 'PAUTH'):
            svc.configure(s, **{k: None for k in db})
        svc.configure('AAUTH', DB_TYPE='MEMORY')
        svc.configure('PAUTH', DB_TYPE='MEMORY')


def run(chk):
    chk.bounds = {'requests': CASES, 'log_levels': LEVELS, 'searched': 'log records, errors, certificates, files, info, requests of the client'}
    chk.assumptions = ['a secret is recognised in the clear, in base64, in hexadecimal and reversed', 'the debug log may hold a bcrypt hash']
    chk.explore('requests to the attribute authority', gen, one)
    chk.explore('requests of the client', client_gen, client_one)
    chk.explore('starts of the attribute authority', start_gen, start_one)
    chk.explore('the command line tools', tools_gen, tools_one)
    chk.explore('databases with a password', db_gen, db_one)
