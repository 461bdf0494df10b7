"""Both services of hgaa on a scratch database, under a controlled clock, without writing anywhere but in a scratch directory."""
import atexit
import io
import logging
import os
import shutil
import sys
import tempfile
import warnings

from mc import clock, keys

warnings.filterwarnings('ignore')
clock.install()
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs'))


class _Silent(logging.Handler):
    """log handlers of the services write into the repository: replaced before the code is imported"""

    def __init__(self, *a, **k):
        super().__init__()

    def emit(self, record):
        pass


_fh, _sh = logging.FileHandler, logging.StreamHandler
logging.FileHandler = logging.StreamHandler = _Silent
try:
    import hgaa.config as config
    import hgaa.log  # noqa: F401
finally:
    logging.FileHandler, logging.StreamHandler = _fh, _sh
logging.disable(logging.CRITICAL)

SCRATCH = tempfile.mkdtemp(prefix='verif-hgaa-')
_owner = os.getpid()


def _clean():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_clean)

from mc import ac, core  # noqa: E402
import sqlalchemy.util.queue as _queue  # noqa: E402

_queue._time = clock.real  # waiting for a pooled connection ends in real time

core.CLEANUP.append(_clean)
KEYFILES = []
for _i, _k in enumerate(ac.KEYS):
    _p = os.path.join(SCRATCH, 'key%d.pem' % _i)
    with open(_p, 'wb') as _f:
        _f.write(_k.export_key())
    KEYFILES.append(_p)
PEMPUB = [k.publickey().export_key() for k in ac.KEYS]
PEPPER = 'pepper!'


def configure(section, **values):
    """set service configuration values ('DEFAULT' or a section); None removes"""
    c = config.SERVICE_CONFIG
    if section != 'DEFAULT' and not c.has_section(section):
        c.add_section(section)
    for k, v in values.items():
        if v is None:
            c.remove_option(section, k)
        else:
            c[section][k] = v.replace('%', '%%')


configure('DEFAULT', DB_TYPE='MEMORY', DB_NAME=os.path.join(SCRATCH, 'default'), PASS_PEPPER=PEPPER)
configure('LADON', SERVICE_HOST='aa.example', SERVICE_PORT='8888')
configure('AAUTH', AAUTH_ID='aa-name', A_URI='hgabac://aa', REV_URL='', KEY_FILE=KEYFILES[0], KEY_PASS='x', AC_EXPIRE_LENGTH='3600', LOG_LEVEL='ERROR')
configure('PAUTH', PAUTH_NAME='pa-name', PAUTH_UID='hgabac://pa', LOG_LEVEL='ERROR')

import bcrypt  # noqa: E402
import hgaa.database as database  # noqa: E402
import hgaa.schema as schema  # noqa: E402
import hgaa.schema.aauth as sa  # noqa: E402
import hgaa.schema.pauth as sp  # noqa: E402
import hgaa.services.aauth as saa  # noqa: E402
import hgaa.services.pauth as spa  # noqa: E402
from ladon.exceptions.service import ClientFault, ServerFault  # noqa: E402,F401
from ladon.types.attachment import attachment  # noqa: E402

from sqlalchemy import event as _event  # noqa: E402
from sqlalchemy.engine import Engine as _Engine  # noqa: E402


@_event.listens_for(_Engine, 'connect')
def _fast(connection, record):
    # durability against power loss is not explored
    connection.execute('PRAGMA synchronous=OFF')
    connection.execute('PRAGMA journal_mode=MEMORY' if SOFT[0] else 'PRAGMA journal_mode=DELETE')


SOFT = [False]
_hashes = {}


def pw(password):
    """cheap bcrypt hash of a password"""
    if password not in _hashes:
        _hashes[password] = bcrypt.hashpw((password + PEPPER).encode(), bcrypt.gensalt(4)).decode()
    return _hashes[password]


def hgaa_loggers():
    return [logging.getLogger(n) for n in list(logging.root.manager.loggerDict) if n.split('.')[0] == 'hgaa']


_NULL = logging.NullHandler()


def verbose(on):
    """let the services log everything (to nowhere), or nothing"""
    lg = logging.getLogger('hgaa')
    lg.propagate = False
    if _NULL not in lg.handlers:
        lg.addHandler(_NULL)
    for x in hgaa_loggers():
        x.setLevel(logging.DEBUG if on else logging.ERROR)
    logging.disable(logging.NOTSET if on else logging.CRITICAL)


_n = [0]


def fresh_dir():
    _n[0] += 1
    d = os.path.join(SCRATCH, 'ac-%d-%d' % (os.getpid(), _n[0]))
    os.mkdir(d)
    return d


def drop_engines():
    """a start of the process, as far as connections go: every registry of engines the module keeps is emptied"""
    for registry in list(vars(database).values()):
        if isinstance(registry, dict) and registry and all(isinstance(e, _Engine) for e in registry.values()):
            for e in list(registry.values()):
                e.dispose()
            registry.clear()
    getattr(database, 'ACTIVE_ENGINES', {}).clear()


class Attributes:
    """An attribute authority with an empty database in memory."""

    def __init__(self, sqlite=None):
        drop_engines()
        if sqlite:
            configure('AAUTH', DB_TYPE='SQLITE', DB_NAME=sqlite)
        else:
            configure('AAUTH', DB_TYPE='MEMORY')
        self.engine = database.get_engine('AAUTH')
        schema.ServiceBases['aauth'].metadata.create_all(self.engine)
        self.dir = fresh_dir()
        saa.AttributeAuthority.AC_DIR = self.dir + '/'
        self.service = saa.AttributeAuthority()

    def session(self):
        return database.get_session('AAUTH')()

    def add(self, *rows):
        s = self.session()
        s.add_all(rows)
        s.commit()
        s.close()

    def wipe(self):
        s = self.session()
        for t in reversed(schema.ServiceBases['aauth'].metadata.sorted_tables):
            s.execute(t.delete())
        s.commit()
        s.close()
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))

    def files(self):
        return sorted(os.listdir(self.dir))

    def request(self, *a, **kw):
        """(certificate, raw bytes, reply); raises what the service raises"""
        r = self.ask(*a, **kw)
        raw = r.data.read()
        r.data.close()
        return ac.A.AttributeCertificate.decode(bytearray(raw)), raw, r

    def ask(self, user, password, names=(), ids=(), ctype=0, key=b'user-key', cipher='RSA', size=1024, addr='10.1.2.3', **exports):
        c = saa.Credentials()
        c.type, c.username, c.password = ctype, user, password
        k = saa.PublicKey()
        k.public_key = key
        k.key_algorithm = saa.KeyAlgorithm()
        k.key_algorithm.cipher, k.key_algorithm.key_size = cipher, size
        a = saa.AttributeList()
        a.attribute_names = list(names) if names is not None else None
        a.attribute_ids = list(ids) if ids is not None else None
        exports['REMOTE_ADDR'] = addr
        return self.service.attribute_request(c, k, a, **exports)


CONN = '/attribute/connection/'


def user_atts(cert):
    return sorted((a.att_id, a.att_name, a.att_type.name, a.att_value) for a in cert.att_set if not a.att_id.startswith(CONN))


def conn_atts(cert):
    return [(a.att_id[len(CONN):], a.att_name, a.att_type.name, a.att_value) for a in cert.att_set if a.att_id.startswith(CONN)]


class Policies:
    """A policy authority with an empty database in memory (or in an sqlite file)."""

    def __init__(self, sqlite=None, keep=False):
        if not keep:
            drop_engines()
        if sqlite:
            configure('PAUTH', DB_TYPE='SQLITE', DB_NAME=sqlite)
        else:
            configure('PAUTH', DB_TYPE='MEMORY')
        self.engine = database.get_engine('PAUTH')
        schema.ServiceBases['pauth'].metadata.create_all(self.engine)
        self.service = spa.PolicyAuthority()

    def session(self):
        return database.get_session('PAUTH')()

    def add(self, *rows):
        s = self.session()
        s.add_all(rows)
        s.commit()
        s.close()

    def wipe(self):
        s = self.session()
        for t in reversed(schema.ServiceBases['pauth'].metadata.sorted_tables):
            s.execute(t.delete())
        s.commit()
        s.close()

    def authority(self, uid, key=0, trust=1, pem=None):
        self.add(sp.AttributeAuthority(uid=uid, name='n-' + uid, url='http://' + uid, key_cipher='RSA', key_size=1024,
                                       pub_key=pem or PEMPUB[key].decode(), trust_level=trust))

    def dump(self):
        """everything that was recorded about sessions"""
        s = self.session()
        out = (sorted((r.serial, bytes(r.certificate), r.format, r.version, r.valid_till, r.hash) for r in s.query(sp.AttributeCertificate).all()),
               sorted((r.ac_serial, r.session_id) for r in s.query(sp.AttributeCertificateAssignment).all()),
               sorted((r.id, r.cert_start, r.cert_valid_till, r.session_start, r.initial_service_ip, r.service_uid, r.session_valid_till)
                      for r in s.query(sp.Session).all()))
        s.close()
        return out

    def start(self, certs, service='svc', addr='10.0.0.9'):
        """certs: [(bytes, format number, version)] -> reply; raises what the service raises"""
        st = spa.AttributeCertificateSet()
        st.attribute_certificates = None
        if certs is not None:
            st.attribute_certificates = []
            for data, fmt, ver in certs:
                c = spa.AttributeCertificateType()
                c.data = attachment(io.BytesIO(data))
                c.format, c.version = fmt, ver
                st.attribute_certificates.append(c)
        return self.service.start_session(service, st, REMOTE_ADDR=addr)


def issue(key=0, uid='aa', serial=1, after=-10, before=1000, now=ac.NOW, pub=None, issued=None, atts=None, pem=True, version=1):
    """a signed certificate as an attribute authority issues it"""
    A = ac.A
    cert = ac.base(key, issuer=A.ACIssuer(pub if pub is not None else (PEMPUB[key] if pem else ac.PUB[key]), 'RSA[1024]', uid, 'n', 'http://u'),
                   info=A.ACInformation(version, serial, now if issued is None else issued), rev_rules=A.ACRevocationRules(now + after, now + before, 'http://r'))
    if atts is not None:
        cert.att_set = atts
    cert.sign(ac.KEYS[key])
    return cert


def serial64(n):
    import base64
    return base64.b64encode(n.to_bytes(20, 'little')).decode()
