"""C37 log records go where the configuration says and at the level it says: all configurations of one logger, for services and clients."""
import io
import logging
import os
import shutil
from itertools import product

from mc import svc
from mc.core import Violation

import hgaa.log as log

LEVELS = {'ALL': 10, 'all': 10, 'DEBUG': 10, 'WARN': 30, 'warning': 30, 'INFO': 20, 'Information': 20, 'ERROR': 40, 'CRITICAL': 50, 'critical': 50}
FILES = ['x.log', 'None', 'none', 'False', 'FALSE']
N = [0]


def gen():
    for level, f, out, clean, service in product(LEVELS, FILES, ('True', 'false', 'TRUE', 'no', '', '0', '1'), ('True', 'FALSE', 'no', '', '0', 'tRUE'), (True, False)):
        yield (level, f, out, clean, service)


def one(ctx, case):
    level, f, out, clean, service = case
    d = svc.fresh_dir()
    N[0] += 1
    sect = 'LOGT%d' % N[0]
    C = svc.config.SERVICE_CONFIG if service else svc.config.CLIENT_CONFIG
    C.add_section(sect)
    for k, v in dict(LOG_LEVEL=level, LOG_FILE=f, LOG_STDOUT=out, CLEAN_LOG_ON_START=clean, LOG_NAME='name%d' % N[0], LOG_FORMAT='%%(levelname)s|%%(name)s|%%(message)s').items():
        C[sect][k] = v
    old, log.LOG_DIR = log.LOG_DIR, d + '/'
    logging.disable(logging.NOTSET)
    err, keep = io.StringIO(), logging.sys.stderr
    logging.sys.stderr = err
    path = os.path.join(d, 'x.log')
    root = logging.getLogger('hgaa')
    lg = None
    try:
        with open(path, 'w') as h:
            h.write('OLD\n')
        parent = root.getChild('p%d' % N[0])
        parent.propagate = False
        parent.setLevel((0, 50, 10, 30)[N[0] % 4])
        parent.addHandler(logging.NullHandler())
        lg = log.make_logger(sect.lower() if N[0] % 2 else sect, service, parent)
        for n in (10, 20, 30, 40, 50):
            lg.log(n, 'message-%d' % n)
        for h in lg.handlers:
            h.flush()
        ctx.step(5)
        if lg.name != parent.name + '.name%d' % N[0]:
            raise Violation('the logger has another name', got=lg.name)
        text = open(path).read()
        want = ['message-%d' % n for n in (10, 20, 30, 40, 50) if n >= LEVELS[level]]

        def messages(t):
            return [x.split('|')[-1] for x in t.split('\n') if 'message-' in x]
        to_file = f == 'x.log'
        if messages(text) != (want if to_file else []):
            raise Violation('wrong records in the log file', got=messages(text), expected=want if to_file else [], config=case)
        if messages(err.getvalue()) != (want if out.upper() == 'TRUE' else []):
            raise Violation('wrong records on the console', got=messages(err.getvalue()), config=case)
        if to_file and ('OLD' in text) != (clean.upper() != 'TRUE'):
            raise Violation('the old log was kept' if 'OLD' in text else 'the old log was lost', config=case)
        if not to_file and text != 'OLD\n':
            raise Violation('a log file was written though none is configured', config=case)
        if sorted(os.listdir(d)) != ['x.log']:
            raise Violation('another file was written', files=os.listdir(d), config=case)
        for t in (text, err.getvalue()):
            for x in t.split('\n'):
                if 'message-' in x and x.split('|')[:2] != [logging.getLevelName(int(x.split('-')[-1])), lg.name]:
                    raise Violation('a record is not in the configured format', got=x)
        ctx.state(case)
    finally:
        logging.sys.stderr = keep
        logging.disable(logging.CRITICAL)
        log.LOG_DIR = old
        if lg is not None:
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()
        C.remove_section(sect)
        shutil.rmtree(d, ignore_errors=True)


# -- names of files, formats and texts -----------------------------------------------------------------------------------------------
ODDFILES = ['Null', 'null', 'none.txt', 'nonesuch', 'None.log', 'False1', 'false.log', 'no', 'off', '0', 'True', 'x', 'X.LOG', 'a b.log', '.hidden', 'a%b.log', 'a.log.1', 'N', 'é.log', 'stdout', 'devnull']
FORMATS = ['%(message)s', '%(levelname)s %(message)s', '%(asctime)s|%(message)s', '[%(asctime)s] %(levelno)s %(name)s: %(message)s !', '%(asctime)s;%(message)s;%(asctime)s', 'plain %(message)s %%']
DATES = ['%m/%d/%Y', '%H~%M', 'day %j', 'x%%', '%Y-%m-%dT%H:%M:%S', '']
TEXTS = ['plain', 'é', '日本', '😀', 'a\tb', '%', '%s', '%(message)s', '{}', 'a\\b', '\x7f', '"q"', 'x' * 5000]


def text_gen():
    for f, service, clean in product(ODDFILES, (True, False), ('True', 'False')):
        yield (f, FORMATS[0], DATES[0], service, clean)
    for fmt, date, service, clean in product(FORMATS, DATES, (True, False), ('True', 'False')):
        yield ('x.log', fmt, date, service, clean)


def text_one(ctx, case):
    """records are written to the file of the configured name, in the configured format with the configured form of dates, whatever they say"""
    import time
    f, fmt, date, service, clean = case
    d = svc.fresh_dir()
    N[0] += 1
    sect = 'LOGT%d' % N[0]
    C = svc.config.SERVICE_CONFIG if service else svc.config.CLIENT_CONFIG
    C.add_section(sect)
    for k, v in dict(LOG_LEVEL='INFO', LOG_FILE=f, LOG_STDOUT='True', CLEAN_LOG_ON_START=clean, LOG_NAME='name%d' % N[0], LOG_FORMAT=fmt, LOG_DATE_FORMAT=date).items():
        C[sect][k] = v.replace('%', '%%')
    old, log.LOG_DIR = log.LOG_DIR, d + '/'
    logging.disable(logging.NOTSET)
    err, keep = io.StringIO(), logging.sys.stderr
    logging.sys.stderr = err
    lg, made = None, []

    class Keep(logging.Handler):
        def emit(self, record):
            made.append(record)
    try:
        parent = logging.getLogger('hgaa').getChild('t%d' % N[0])
        parent.propagate = False
        parent.addHandler(Keep())
        lg = log.make_logger(sect, service, parent)
        del made[:]
        at = err.tell()
        for t in TEXTS:
            lg.info('%s', t)
            lg.warning(t)
        for h in lg.handlers:
            h.flush()
        ctx.step(len(TEXTS))
        if os.listdir(d) != [f]:
            raise Violation('the log file does not have the configured name', got=os.listdir(d), expected=f)
        form = logging.Formatter(fmt, date)
        want = [form.format(r) for r in made]
        if [r.getMessage() for r in made] != [t for t in TEXTS for _ in (0, 1)]:
            raise Violation('records did not reach the parent as they were')
        got = open(os.path.join(d, f), encoding='utf-8').read()
        if not got.endswith('\n'.join(want) + '\n'):
            raise Violation('the log file is not in the configured format', got=got[-300:], expected=want[-2:], format=fmt, dates=date)
        if not err.getvalue().endswith('\n'.join(want) + '\n'):
            raise Violation('the console is not in the configured format', got=err.getvalue()[-300:], expected=want[-2:], format=fmt, dates=date)
        ctx.state(case)
    finally:
        logging.sys.stderr = keep
        logging.disable(logging.CRITICAL)
        log.LOG_DIR = old
        if lg is not None:
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()
        C.remove_section(sect)
        shutil.rmtree(d, ignore_errors=True)


# -- the same logger made again ----------------------------------------------------------------------------------------------------
def again_gen():
    for a, b in product(('x.log', 'y.log', 'None'), repeat=2):
        for la, lb in product(('ERROR', 'DEBUG'), repeat=2):
            for service in (True, False):
                yield (a, b, la, lb, service)


def again_one(ctx, case):
    """a logger made a second time, after the configuration changed, writes to the file configured now, once, at the level configured now"""
    a, b, la, lb, service = case
    d = svc.fresh_dir()
    N[0] += 1
    sect = 'LOGT%d' % N[0]
    C = svc.config.SERVICE_CONFIG if service else svc.config.CLIENT_CONFIG
    C.add_section(sect)
    old, log.LOG_DIR = log.LOG_DIR, d + '/'
    logging.disable(logging.NOTSET)
    lg = None
    try:
        parent = logging.getLogger('hgaa').getChild('q%d' % N[0])
        parent.propagate = False
        parent.addHandler(logging.NullHandler())
        for f, level in ((a, la), (b, lb)):
            for k, v in dict(LOG_LEVEL=level, LOG_FILE=f, LOG_STDOUT='False', CLEAN_LOG_ON_START='False', LOG_NAME='n', LOG_FORMAT='%%(message)s').items():
                C[sect][k] = v
            lg = log.make_logger(sect, service, parent)
        for n in (10, 20, 40):
            lg.log(n, 'message-%d' % n)
        for h in lg.handlers:
            h.flush()
        ctx.step(3)
        want = ['message-%d' % n for n in (10, 20, 40) if n >= LEVELS[lb]]
        if b != 'None':
            got = [x for x in open(os.path.join(d, b)).read().split('\n') if x.startswith('message-')] if os.path.exists(os.path.join(d, b)) else None
            if got is None or sorted(set(got)) != sorted(want):
                raise Violation('the records are not in the log file that is configured now', got=got, expected=want, config=case)
        ctx.state(case)
    finally:
        logging.disable(logging.CRITICAL)
        log.LOG_DIR = old
        if lg is not None:
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()
        C.remove_section(sect)
        shutil.rmtree(d, ignore_errors=True)


def levels(ctx):
    for s, n in LEVELS.items():
        for v in (s, s.lower(), s.upper(), s.capitalize()):
            ctx.step()
            if log.str_to_log_level(v) != n:
                raise Violation('wrong log level', name=v, got=log.str_to_log_level(v), expected=n)
    for v in ('', 'NONE', 'x', '10'):
        if log.str_to_log_level(v) != logging.NOTSET:
            raise Violation('wrong log level', name=v, got=log.str_to_log_level(v))
    ctx.traces += len(LEVELS)


# -- which services run ----------------------------------------------------------------------------------------------------------
def enabled_gen():
    for a, p, d in product(('True', 'true', 'FALSE', 'False', '0', 'no', '', None), repeat=3):
        yield (a, p, d)


def enabled_one(ctx, case):
    """the web application offers exactly the enabled services"""
    import runpy
    import sys
    import types
    a, p, d = case
    made = []
    names = {'ladon.server': types.ModuleType('ladon.server'), 'ladon.server.wsgi': types.ModuleType('ladon.server.wsgi'), 'ladon.tools': types.ModuleType('ladon.tools'),
             'ladon.tools.log': types.ModuleType('ladon.tools.log')}
    names['ladon.server.wsgi'].LadonWSGIApplication = lambda modules, path, *r, **k: made.append((list(modules), path)) or object()
    for f in ('set_loglevel', 'set_logfile', 'set_log_backup_count', 'set_log_maxsize'):
        setattr(names['ladon.tools.log'], f, lambda *a: None)
    C = svc.config.SERVICE_CONFIG
    keep = {s: C[s].get('SERVICE_ENABLED') for s in ('AAUTH', 'PAUTH', 'DEFAULT')}
    saved = {k: sys.modules.get(k) for k in names}
    sys.modules.update(names)
    try:
        for s in ('AAUTH', 'PAUTH', 'DEFAULT'):
            C.remove_option(s, 'SERVICE_ENABLED')
        svc.configure('AAUTH', SERVICE_ENABLED=a)
        svc.configure('PAUTH', SERVICE_ENABLED=p)
        svc.configure('DEFAULT', SERVICE_ENABLED=d)
        ctx.step()
        runpy.run_module('hgaa.handler', run_name='hgaa_handler')
        dflt = d if d is not None else 'True'
        want = sorted(n for n, v in (('aauth', a), ('pauth', p)) if (v if v is not None else dflt).upper() == 'TRUE')
        if len(made) != 1 or sorted(made[0][0]) != want:
            raise Violation('the services offered are not the enabled ones', got=made, expected=want, config=case)
        ctx.state(case)
    finally:
        for s, v in keep.items():
            if v is not None:
                svc.configure(s, SERVICE_ENABLED=v)
            else:
                C.remove_option(s, 'SERVICE_ENABLED')
        for k, m in saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


# -- where the server listens ------------------------------------------------------------------------------------------------------
def server_gen():
    hosts, ports = ['', 'localhost', '127.0.0.1', '0.0.0.0', 'example.org', '::1', None], ['8888', '80', '1', '65535', '09000', None]
    for h, p in product(hosts, ports):
        for dh, dp in ((None, None), ('other.host', '1234')):
            yield (h, p, dh, dp)


def web(names):
    """recorders in place of the web framework"""
    import types
    made, calls = [], []
    mods = {n: types.ModuleType(n) for n in ('ladon.server', 'ladon.server.wsgi', 'ladon.tools', 'ladon.tools.log')}
    mods['ladon.server.wsgi'].LadonWSGIApplication = lambda modules, path, *r, **k: made.append((list(modules), path, object())) or made[-1][2]
    for f in names:
        setattr(mods['ladon.tools.log'], f, lambda *a, **k: None)
    return mods, made, calls


def server_one(ctx, case):
    """started as a program, the handler serves the application at the configured host and port"""
    import runpy
    import sys
    import wsgiref.simple_server as simple
    h, p, dh, dp = case
    mods, made, calls = web(('set_loglevel', 'set_logfile', 'set_log_backup_count', 'set_log_maxsize'))
    saved = {k: sys.modules.get(k) for k in mods}
    C = svc.config.SERVICE_CONFIG
    keep = [(s, k, C.defaults().get(k.lower()) if s == 'DEFAULT' else C._sections.get(s, {}).get(k.lower())) for s in ('LADON', 'DEFAULT') for k in ('SERVICE_HOST', 'SERVICE_PORT')]
    real = simple.make_server

    class Server:
        def __init__(self, host, port, app, *a, **k):
            calls.append(['made', host, port, app])

        def serve_forever(self, *a, **k):
            calls.append(['serves'])

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        server_close = shutdown = handle_request = lambda self, *a, **k: None

    sys.modules.update(mods)
    simple.make_server = lambda host, port, app, *a, **k: Server(host, port, app)
    try:
        svc.configure('LADON', SERVICE_HOST=h, SERVICE_PORT=p)
        svc.configure('DEFAULT', SERVICE_HOST=dh, SERVICE_PORT=dp)
        host = h if h is not None else dh if dh is not None else ''
        port = int(p if p is not None else dp if dp is not None else '8888')
        ctx.step()
        runpy.run_module('hgaa.handler', run_name='__main__')
        if [c[:1] for c in calls] != [['made'], ['serves']] or len(made) != 1:
            raise Violation('the server was not started once', got=[c[0] for c in calls])
        if (calls[0][1], calls[0][2]) != (host, port):
            raise Violation('the server does not listen where configured', got=calls[0][1:3], expected=(host, port), config=case)
        if calls[0][3] is not made[0][2]:
            raise Violation('the server does not serve the application')
        for m in made[0][0]:
            if not os.path.isfile(os.path.join(made[0][1], m + '.py')):
                raise Violation('the directory of the services does not hold a service', directory=made[0][1], service=m)
        ctx.state(case)
    finally:
        simple.make_server = real
        for s, k, v in keep:
            if v is None:
                C.remove_option(s, k)
            else:
                C[s][k] = v
        for k, m in saved.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


# -- the loggers of the parts --------------------------------------------------------------------------------------------------------
PARTS = [('hgaa.services.aauth', True, 'AAUTH'), ('hgaa.services.pauth', True, 'PAUTH'), ('hgaa.tools', True, 'TOOLS'), ('hgaa.tools', False, 'TOOLS'), ('hgaa.clients.aauth', False, 'AAUTH'),
         ('hgaa.clients.pauth', False, 'PAUTH'), ('hgaa.log', True, 'DEFAULT'), ('hgaa.log', False, 'DEFAULT'), ('hgaa.log', True, 'LADON'), ('hgaa.log', True, 'SQL')]


def parts_gen():
    for part in range(len(PARTS)):
        for level, f, out, clean in product(('ALL', 'INFO', 'WARN', 'ERROR', 'CRITICAL'), ('x.log', 'None'), ('True', 'False'), ('True', 'False')):
            if f == 'None' and PARTS[part][2] in ('LADON', 'SQL'):
                continue
            yield (part, level, f, out, clean)


class _Elsewhere(logging.FileHandler):
    """log files of the repository are written in a scratch directory instead"""
    to = None

    def __init__(self, filename, *a, **k):
        filename = os.fspath(filename)
        want = os.path.join(os.path.dirname(os.path.abspath(log.__file__)), 'logs')
        if os.path.dirname(os.path.abspath(filename)) not in (want, _Elsewhere.to):
            raise Violation('a log file outside the directory of logs', got=filename)
        super().__init__(os.path.join(_Elsewhere.to, os.path.basename(filename)), *a, **k)


def loggers():
    return [x for n, x in list(logging.root.manager.loggerDict.items()) if isinstance(x, logging.Logger) and n.split('.')[0] in ('hgaa', 'sqlalchemy', 'ladonlogger')]


def parts_one(ctx, case):
    """each part of the system logs as its own section says, whatever the other sections say"""
    import importlib
    import sys
    part, level, f, out, clean = case
    module, service, sect = PARTS[part]
    d = svc.fresh_dir()
    N[0] += 1
    name = 'part%d' % N[0]
    pre, sect = ('SQL_', 'DEFAULT') if sect == 'SQL' else ('', sect)
    names = (module, service, sect, pre)
    kept = []

    def put(C, s, **kv):
        for k, v in kv.items():
            src = C.defaults() if s == 'DEFAULT' else C._sections[s]
            kept.append((C, s, k, src.get(k.lower())))
            C[s][k] = v

    mine = svc.config.SERVICE_CONFIG if service else svc.config.CLIENT_CONFIG
    other = svc.config.CLIENT_CONFIG if service else svc.config.SERVICE_CONFIG
    fmt = '%%(levelname)s|%%(name)s|%%(message)s'
    handler = logging.FileHandler
    err, keep = io.StringIO(), logging.sys.stderr
    before = {x.name: (x.level, list(x.handlers), x.propagate) for x in loggers()}
    for x in loggers():
        del x.handlers[:]
    try:
        for C, s in [(C, s) for C in (mine, other) for s in ['DEFAULT'] + C.sections()]:
            put(C, s, LOG_LEVEL='WARN' if level != 'WARN' else 'CRITICAL', LOG_FILE='elsewhere.log', LOG_STDOUT='False', LOG_NAME='other%d%s%d' % (N[0], s.lower(), C is mine), LOG_FORMAT=fmt,
                CLEAN_LOG_ON_START='False')
            if s == 'DEFAULT':
                put(C, s, SQL_LOG_LEVEL='WARN' if level != 'WARN' else 'CRITICAL', SQL_LOG_FILE='elsewhere.log', SQL_LOG_STDOUT='False', SQL_LOG_FORMAT=fmt)
        put(mine, sect, **{pre + 'LOG_LEVEL': level, pre + 'LOG_FILE': f, pre + 'LOG_STDOUT': out, pre + 'LOG_FORMAT': fmt, 'CLEAN_LOG_ON_START': clean})
        if not pre:
            put(mine, sect, LOG_NAME=name)
        if module == 'hgaa.log' and sect == 'LADON':
            put(mine, 'DEFAULT', CLEAN_LOG_ON_START=clean)
        with open(os.path.join(d, 'x.log'), 'w') as h:
            h.write('OLD\n')
        _Elsewhere.to = d
        logging.FileHandler = _Elsewhere
        logging.sys.stderr = err
        logging.disable(logging.NOTSET)
        ctx.step()
        importlib.reload(sys.modules[module]) if module in sys.modules else importlib.import_module(module)
        if pre or sect == 'LADON':
            lg = logging.getLogger('sqlalchemy' if pre else 'ladonlogger')
        else:
            found = [x for x in loggers() if x.name.split('.')[-1] == name]
            if len(found) != 1:
                raise Violation('the part has no logger of its configured name', part=names, got=[x.name for x in found])
            lg = found[0]
        for x in loggers():
            x.propagate = False if x is lg else x.propagate
        lg.addHandler(logging.NullHandler())  # else Python prints what no handler takes
        for n in (10, 20, 30, 40, 50):
            lg.log(n, 'message-%d' % n)
        for h in lg.handlers:
            h.flush()
        want = ['message-%d' % n for n in (10, 20, 30, 40, 50) if n >= LEVELS[level]]
        text = open(os.path.join(d, 'x.log')).read()
        for where, t, on in (('file', text, f == 'x.log'), ('console', err.getvalue(), out == 'True')):
            got = [x.split('|')[-1] for x in t.split('\n') if 'message-' in x]
            if got != (want if on else []):
                raise Violation('wrong records of a part in the log (%s)' % where, part=names, config=case[1:], got=got, expected=want if on else [])
        if f == 'x.log' and ('OLD' in text) != (clean != 'True'):
            raise Violation('the old log was kept' if 'OLD' in text else 'the old log was lost', part=names, config=case[1:])
        ctx.state(case)
    finally:
        logging.sys.stderr = keep
        logging.FileHandler = handler
        logging.disable(logging.CRITICAL)
        for C, s, k, v in reversed(kept):
            if v is None:
                C.remove_option(s, k)
            else:
                C[s][k] = v
        for x in loggers():
            for h in x.handlers:
                if h not in before.get(x.name, (0, []))[1]:
                    h.close()
            x.handlers[:] = before.get(x.name, (0, []))[1]
            if x.name in before:
                x.setLevel(before[x.name][0])
                x.propagate = before[x.name][2]
        shutil.rmtree(d, ignore_errors=True)


def run(chk):
    chk.bounds = {'levels': len(LEVELS), 'configurations': len(list(gen())), 'service_switches': 8 ** 3}
    chk.assumptions = ['the logging module of Python works', 'the web server is replaced by a recorder']
    chk.one('names of levels', levels)
    chk.explore('all configurations of a logger', gen, one)
    chk.explore('names of files, formats and texts', text_gen, text_one)
    chk.explore('made again', again_gen, again_one)
    chk.explore('which services are offered', enabled_gen, enabled_one)
    chk.explore('where the server listens', server_gen, server_one)
    chk.explore('loggers of the parts', parts_gen, parts_one)
