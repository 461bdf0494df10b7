"""C30 which configuration value counts: section before DEFAULT before built-in, services apart from clients; all placements and histories of changes."""
from itertools import product

from mc import svc
from mc.core import Violation, REPO, THOROUGH

C = svc.config
VALUES = [None, 'v', '', ' x ', '0']
NAMES = ['LOG_NAME', 'DB_PORT', 'SERVICE_HOST', 'NO_SUCH', 'CLIENT_TYPE', 'PASS_PEPPER', 'DB_USER']
SECTIONS = ['AAUTH', 'PAUTH', 'TOOLS', 'MISSING', 'DEFAULT', 'AAUTH_TEST', 'AA', 'AAUTH2', 'PAUTH_TEST', ' AAUTH', 'AAUTH ', 'AAUTH\t', '', ' ', '[AAUTH]', 'A-AUTH', 'AAUTH.', 'DEFAULT ']
SPELL = [str.upper, str.lower, str.capitalize]



def load(c, sections, defaults):
    c.clear()
    for k in list(c.defaults()):
        del c.defaults()[k]
    if defaults:
        c.read_dict({'DEFAULT': defaults})
    c.read_dict(sections)


FORMAT = '%(asctime)s: [%(levelname)s: %(name)s] %(message)s'
DATES = '%m/%d/%Y %I:%M:%S %p'
BUILTIN = {
    True: {'DB_TYPE': 'mysql', 'DB_NAME': 'hgaa', 'DB_PORT': '3306', 'DB_HOST': 'localhost', 'LOG_LEVEL': 'ALL', 'LOG_FILE': 'hgaa_service.log', 'LOG_FORMAT': FORMAT, 'LOG_DATE_FORMAT': DATES,
           'LOG_NAME': 'services', 'LOG_STDOUT': 'True', 'SQL_LOG_LEVEL': 'ALL', 'SQL_LOG_FILE': 'sql.log', 'SQL_LOG_FORMAT': FORMAT, 'SQL_LOG_DATE_FORMAT': DATES, 'SQL_LOG_STDOUT': 'True',
           'CLEAN_LOG_ON_START': 'True', 'SERVICE_ENABLED': 'True', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''},
    False: {'LOG_LEVEL': 'ALL', 'LOG_FILE': 'hgaa_client.log', 'LOG_FORMAT': FORMAT, 'LOG_DATE_FORMAT': DATES, 'LOG_NAME': 'clients', 'LOG_STDOUT': 'True', 'CLEAN_LOG_ON_START': 'False'}}
ALL_NAMES = sorted(set(BUILTIN[True]) | {'DB_USER', 'DB_PASS', 'PASS_PEPPER', 'NO_SUCH', 'CLIENT_TYPE', 'SERVICE_DESCRIPTION', 'CRED_TYPE', 'CRED_USER', 'CRED_PASS', 'KEY_SIZE', 'AAUTH_ID', 'A_URI',
                                         'AC_EXPIRE_LENGTH', 'REV_URL', 'KEY_PASS', 'KEY_FILE', 'PAUTH_NAME', 'PAUTH_UID'})


def builtin(service, name):
    return BUILTIN[service].get(name)


def expected(model, service, name, sect):
    m = model[service]
    if sect != 'DEFAULT' and sect in m and name in m[sect]:
        return m[sect][name]
    if name in m.get('DEFAULT', {}):
        return m['DEFAULT'][name]
    return builtin(service, name)


def apply(model):
    for service, c in ((True, C.SERVICE_CONFIG), (False, C.CLIENT_CONFIG)):
        m = model[service]
        load(c, {s: {k: v.replace('%', '%%') for k, v in d.items()} for s, d in m.items() if s != 'DEFAULT'},
             {k: v.replace('%', '%%') for k, v in m.get('DEFAULT', {}).items()})


def gen():
    for name in NAMES:
        for vs, vd in product(VALUES, VALUES):
            for os_, od in ((None, None), ('other', 'otherd'), (None, 'otherd')):
                yield (name, vs, vd, os_, od)


def one(ctx, case):
    name, vs, vd, cs, cd = case
    keep = [(c, {s: {k: c.get(s, k, raw=True) for k in c[s]} for s in c.sections()}, dict(c.defaults())) for c in (C.SERVICE_CONFIG, C.CLIENT_CONFIG)]
    try:
        for flip in (True, False):
            model = {True: {'AAUTH': {}, 'PAUTH': {'LOG_NAME': 'paut%'}, 'TOOLS': {'X': 'y'}, 'AAUTH_TEST': {}, 'AA': {}, 'AAUTH2': {'Y': 'z'}}, False: {'AAUTH': {}, 'AAUTH_TEST': {'Z': 'z'}, 'PAUTH': {'LOG_NAME': 'client-pa'}}}
            for svc_, a, d in ((flip, vs, vd), (not flip, cs, cd)):
                if a is not None:
                    model[svc_]['AAUTH'][name] = a
                if d is not None:
                    model[svc_]['DEFAULT'] = {name: d}
            apply(model)
            for sect in SECTIONS:
                for service in (True, False):
                    for sp1, sp2 in product(SPELL, SPELL[:2]):
                        ctx.step()
                        want = expected(model, service, name, sect)
                        got = C.get_conf(sp1(name), service, sp2(sect))
                        if got != want:
                            raise Violation('wrong configuration value', name=sp1(name), section=sp2(sect), service=service, got=got, expected=want, model={str(k): v for k, v in model.items()})
            for service in (True, False):
                if C.get_conf(name, service) != expected(model, service, name, 'DEFAULT'):
                    raise Violation('wrong configuration value without a section', name=name, service=service)
            if C.get_conf(name) != expected(model, True, name, 'DEFAULT'):
                raise Violation('wrong configuration value without a section', name=name)
        ctx.state(case)
    finally:
        for c, sections, defaults in keep:
            load(c, sections, defaults)


def side_gen():
    yield from product(NAMES, ('none', 'empty', 'one', 'all'), ('none', 'empty', 'one', 'all'), (0, 1), (0, 1))


def side_one(ctx, case):
    """sections on one side only, and none at all"""
    name, s, c, sd, cd = case
    keep = [(x, {n: {k: x.get(n, k, raw=True) for k in x[n]} for n in x.sections()}, dict(x.defaults())) for x in (C.SERVICE_CONFIG, C.CLIENT_CONFIG)]
    try:
        model = {}
        for service, which, d in ((True, s, sd), (False, c, cd)):
            v = 's' if service else 'c'
            model[service] = {'none': {}, 'empty': {'AAUTH': {}, 'PAUTH': {}}, 'one': {'PAUTH': {name: v + 'p'}}, 'all': {'AAUTH': {name: v + 'a'}, 'PAUTH': {name: v + 'p'}, 'TOOLS': {name: v + 't'}}}[which]
            if d:
                model[service]['DEFAULT'] = {name: v + 'd'}
        apply(model)
        for sect in SECTIONS:
            for service in (True, False):
                ctx.step()
                want = expected(model, service, name, sect)
                got = C.get_conf(name, service, sect)
                if got != want:
                    raise Violation('wrong configuration value', name=name, section=sect, service=service, got=got, expected=want, model={str(k): v for k, v in model.items()})
        ctx.state(case)
    finally:
        for x, sections, defaults in keep:
            load(x, sections, defaults)


# -- contents of values ----------------------------------------------------------------------------------------------------------
CONTENT = ['"', '"q"', "'q'", "'", 'none', 'None', 'NONE', 'null', 'true', 'True', 'FALSE', 'off', '-1', '1.0', '007', '0x10', 'a b', '  ', '\t', 'tab\tx', 'a,b', '[x]', 'k=v', 'k:v', '#c', ';c', 'x # c', 'x ; c', '$HOME', '~', '%', '%s', '%(db_name)s',
           '%%', '\\', 'C:\\x', 'http://h:1/p?a=b&c#d', 'é', '日本', '\u00a0', 'a\nb', 'DEFAULT', 'AAUTH', '{x}', '<x>', '`x`', '!', '@']


def content_gen():
    for v in CONTENT:
        yield v
    for n in (1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000, 70000):
        yield 'x' * n
        yield 'xy ' * n + 'x'


class Answering(dict):
    """an environment in which every variable is set"""

    def get(self, k, d=None):
        return 'from-the-environment'

    def __getitem__(self, k):
        return 'from-the-environment'

    def __contains__(self, k):
        return True


def content_one(ctx, v):
    """a value is given out as it is in the file, whatever it contains and whatever the environment holds"""
    import os
    keep = [(c, {s: {k: c.get(s, k, raw=True) for k in c[s]} for s in c.sections()}, dict(c.defaults())) for c in (C.SERVICE_CONFIG, C.CLIENT_CONFIG)]
    env = os.environ
    try:
        for service, sect, name in product((True, False), ('AAUTH', 'DEFAULT'), ('LOG_NAME', 'NO_SUCH', 'PASS_PEPPER')):
            model = {True: {'AAUTH': {}, 'DEFAULT': {}}, False: {'AAUTH': {}, 'DEFAULT': {}}}
            model[service][sect][name] = v
            apply(model)
            for full in (False, True):
                os.environ = Answering(env) if full else env
                try:
                    for q, s in product((True, False), ('AAUTH', 'PAUTH', 'DEFAULT')):
                        got, want = C.get_conf(name, q, s), expected(model, q, name, s)
                        ctx.step()
                        if got != want:
                            raise Violation('a value is not given out as configured', name=name, section=s, service=q, got=got and got[:200], expected=want and want[:200], environment_full=full)
                finally:
                    os.environ = env
        ctx.state(v)
    finally:
        os.environ = env
        for c, sections, defaults in keep:
            load(c, sections, defaults)


# -- built-in values -------------------------------------------------------------------------------------------------------------
def builtin_gen():
    for name in ALL_NAMES:
        yield name


def builtin_one(ctx, name):
    """with nothing configured the built-in value counts, and any value configured counts before it"""
    keep = [(c, {s: {k: c.get(s, k, raw=True) for k in c[s]} for s in c.sections()}, dict(c.defaults())) for c in (C.SERVICE_CONFIG, C.CLIENT_CONFIG)]
    try:
        for where in (None, 'AAUTH', 'DEFAULT', 'LADON'):
            for service in (True, False):
                model = {True: {'AAUTH': {}, 'LADON': {}, 'DEFAULT': {}}, False: {'AAUTH': {}, 'DEFAULT': {}, 'LADON': {}}}
                if where is not None:
                    model[service][where][name] = 'mine'
                apply(model)
                for q, sect in product((True, False), ('DEFAULT', 'AAUTH', 'LADON', 'TOOLS')):
                    got, want = C.get_conf(name, q, sect), expected(model, q, name, sect)
                    ctx.step()
                    if got != want:
                        raise Violation('wrong value for a name with a built-in value', name=name, section=sect, service=q, got=got, expected=want, configured=where and [where, service])
        ctx.state(name)
    finally:
        for c, sections, defaults in keep:
            load(c, sections, defaults)


# -- the configuration files -----------------------------------------------------------------------------------------------------
FILES = [('', ''), (None, None), ('[DEFAULT]\nDB_NAME=one\n', None), (None, '[DEFAULT]\nDB_NAME=two\n'), ('[DEFAULT]\nDB_NAME=one\n', '[DEFAULT]\nDB_NAME=two\n'),
         ('[DEFAULT]\nLOG_NAME=s\nDB_USER=u\n\n[AAUTH]\nLOG_NAME=sa\nREV_URL=\n', '[DEFAULT]\nLOG_NAME=c\n\n[PAUTH]\nLOG_NAME=cp\nDB_NAME=x\n'),
         ('[AAUTH]\nDB_NAME=only\n', '[AAUTH]\nDB_NAME=client\n'), ('[PAUTH]\ndb_name=lower\n', '[TOOLS]\nLog_Name=mixed\n'), ('[DEFAULT]\nDB_NAME = spaced  \nDB_PORT: 99\n', '# c\n[DEFAULT]\n; c\nLOG_NAME=z\n'),
         ('[DEFAULT]\nLOG_FORMAT=%%(message)s\nDB_PASS=a=b:c#d;e\n[AAUTH]\nKEY_PASS= "q" \n', '[AAUTH]\nCRED_PASS=100%%\nCRED_TYPE=0\n'),
         ('[DEFAULT]\nDB_NAME=a ; b\nDB_USER=a # b\nDB_PASS=a // b\n[AAUTH]\nREV_URL=http://x ;y #z\n', '[DEFAULT]\nDB_NAME=a ; b\nDB_USER=a # b\nDB_PASS=a // b\n[AAUTH]\nREV_URL=http://x ;y #z\n'),
         ('[AAUTH_TEST]\nDB_PORT=5\n[AAUTH]\nDB_NAME=plain\n[DEFAULT]\nDB_USER=late\n', '[AAUTH_TEST]\nDB_PORT=6\n[AAUTH]\nDB_NAME=plain2\n[DEFAULT]\nDB_USER=late2\n'), 'shipped']
QNAMES = ['DB_NAME', 'LOG_NAME', 'REV_URL', 'DB_USER', 'DB_PORT', 'LOG_FORMAT', 'DB_PASS', 'KEY_PASS', 'CRED_PASS', 'CRED_TYPE', 'NO_SUCH']
QSECT = ['DEFAULT', 'AAUTH', 'PAUTH', 'TOOLS', 'LADON', 'AAUTH_TEST']


def parse_ini(text):
    m = {'DEFAULT': {}}
    sect = None
    for line in (text or '').replace('\r', '').split('\n'):
        line = line.strip()
        if not line or line[0] in '#;':
            continue
        if line[0] == '[':
            sect = m.setdefault(line[1:-1], {})
            continue
        k = min(i for i in (line.find('='), line.find(':')) if i >= 0)
        sect[line[:k].strip().upper()] = line[k + 1:].strip().replace('%%', '%')
    return m


def files_gen():
    for k in range(len(FILES)):
        for eol in ('\n', '\r\n'):
            for cwd in (0, 1):
                yield (k, eol, cwd)


def files_one(ctx, case):
    """a fresh process reads services.ini and clients.ini of the installation, whatever directory it is started in"""
    import json
    import os
    import shutil
    import subprocess
    import sys
    k, eol, cwd = case
    d = svc.fresh_dir()
    shutil.copytree(os.path.join(REPO, 'hgaa'), os.path.join(d, 'hgaa'), ignore=shutil.ignore_patterns('logs', '__pycache__', 'test'))
    conf = os.path.join(d, 'hgaa', 'confs')
    names = QNAMES
    if FILES[k] == 'shipped':
        texts = tuple(open(os.path.join(conf, n), newline='').read() for n in ('services.ini', 'clients.ini'))
        names = ALL_NAMES
    else:
        texts = FILES[k]
        for n, t in zip(('services.ini', 'clients.ini'), texts):
            p = os.path.join(conf, n)
            os.remove(p)
            if t is not None:
                with open(p, 'w', newline='') as f:
                    f.write(t.replace('\n', eol))
    model = {True: parse_ini(texts[0]), False: parse_ini(texts[1])}
    if cwd:
        # files of the same names in the working directory are not the installation's
        os.makedirs(os.path.join(d, 'cwd', 'confs'))
        for n in ('services.ini', 'clients.ini', 'confs/services.ini', 'confs/clients.ini'):
            with open(os.path.join(d, 'cwd', n), 'w') as f:
                f.write('[DEFAULT]\nDB_NAME=wrong\nLOG_NAME=wrong\nREV_URL=wrong\n[AAUTH]\nDB_NAME=wrong\nKEY_PASS=wrong\nCRED_PASS=wrong\n')
    code = ('import json,sys\nfrom hgaa.config import get_conf\n'
            'print("CONF" + json.dumps([[n, s, q, get_conf(n, s, q)] for n in %r for s in (True, False) for q in %r]))' % (names, QSECT))
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-c', code], cwd=os.path.join(d, 'cwd') if cwd else d, env=env, capture_output=True, text=True, timeout=120)
    lines = [x for x in r.stdout.split('\n') if x.startswith('CONF')]
    if r.returncode or not lines:
        raise Violation('configuration files could not be read', services=texts[0], clients=texts[1], error=r.stderr[-400:])
    for n, s, q, got in json.loads(lines[0][4:]):
        ctx.step()
        want = expected(model, s, n, q)
        if got != want:
            raise Violation('a value of the configuration files is not the one that counts', name=n, service=s, section=q, got=got, expected=want, services=texts[0], clients=texts[1], elsewhere=bool(cwd))
    shutil.rmtree(d)
    ctx.state(case)


# -- histories of changes -------------------------------------------------------------------------------------------------------
ACTS = [('s', 'AAUTH', 'a'), ('s', 'AAUTH', None), ('s', 'DEFAULT', 'd'), ('s', 'DEFAULT', None), ('s', 'PAUTH', 'p'), ('c', 'AAUTH', 'ca'), ('c', 'DEFAULT', 'cd')]


def hist_gen():
    for n in range(1, 6 if THOROUGH else 5):
        for h in product(range(len(ACTS)), repeat=n):
            yield h


def hist_one(ctx, h):
    keep = [(c, {s: {k: c.get(s, k, raw=True) for k in c[s]} for s in c.sections()}, dict(c.defaults())) for c in (C.SERVICE_CONFIG, C.CLIENT_CONFIG)]
    name = 'DB_NAME'
    model = {True: {'AAUTH': {}, 'PAUTH': {}, 'DEFAULT': {}}, False: {'AAUTH': {}, 'DEFAULT': {}}}
    try:
        apply(model)
        for k in h:
            which, sect, v = ACTS[k]
            c = C.SERVICE_CONFIG if which == 's' else C.CLIENT_CONFIG
            m = model[which == 's'][sect]
            if v is None:
                m.pop(name, None)
                c.remove_option(sect, name)
            else:
                m[name] = v
                c.set(sect, name, v)
            for service, s in product((True, False), ('AAUTH', 'PAUTH', 'DEFAULT', 'NONE')):
                ctx.step()
                got, want = C.get_conf(name, service, s), expected(model, service, name, s)
                if got != want:
                    raise Violation('a changed configuration gives the wrong value', history=[ACTS[i] for i in h], service=service, section=s, got=got, expected=want)
            ctx.state(str(model))
    finally:
        for c, sections, defaults in keep:
            load(c, sections, defaults)


def run(chk):
    chk.bounds = {'names': len(NAMES), 'values': len(VALUES), 'sections': len(SECTIONS), 'history_length': 5 if THOROUGH else 4}
    chk.assumptions = ['configuration files are read by the standard configparser']
    chk.explore('all placements of a value', gen, one)
    chk.explore('sections on either side', side_gen, side_one)
    chk.explore('built-in values', builtin_gen, builtin_one)
    chk.explore('configuration files in a fresh process', files_gen, files_one)
    chk.explore('contents of values', content_gen, content_one)
    chk.explore('all histories of changes', hist_gen, hist_one)
