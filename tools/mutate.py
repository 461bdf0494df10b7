"""Systematic one-place changes of the code under test, to find behaviour that no check looks at.

    python tools/mutate.py FILE... [--only N,N] [--list]

Every mutant lives in a scratch copy of /repo; it is kept if the repository's own tests still pass, and then the checks
of the file run on it until one reports a violation. Those that none reports are printed as SURVIVED (equivalent changes
or gaps). This is a tool for developing the checks; no registered check uses it."""
import ast
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HGPL = ['C%02d' % i for i in range(1, 16)] + ['C29']
CHECKS = {
    'hgpl/lexing.py': ['C01', 'C15', 'C02'], 'hgpl/parsing.py': ['C02', 'C03', 'C15'], 'hgpl/ast.py': ['C04', 'C43', 'C09', 'C03', 'C10', 'C07'],
    'hgpl/symbols.py': ['C14', 'C43', 'C06', 'C12', 'C05', 'C07'], 'hgpl/semantics.py': ['C11', 'C12', 'C13'], 'hgpl/interpreting.py': ['C05', 'C42', 'C06', 'C04', 'C13', 'C07'],
    'hgpl/errors.py': ['C15', 'C13', 'C11'],
    'hgaa/attcert.py': ['C16', 'C17', 'C18', 'C20', 'C21', 'C22', 'C19', 'C38', 'C43'], 'hgaa/services/aauth.py': ['C44', 'C23', 'C25', 'C24', 'C36', 'C33', 'C34', 'C35', 'C39', 'C29'],
    'hgaa/services/pauth.py': ['C41', 'C44', 'C26', 'C27', 'C33', 'C34', 'C36', 'C28', 'C39', 'C29'], 'hgaa/config.py': ['C30', 'C37', 'C33'], 'hgaa/database.py': ['C40', 'C31', 'C30', 'C34', 'C36'],
    'hgaa/log.py': ['C37'], 'hgaa/tools.py': ['C35', 'C31'], 'hgaa/clients/aauth.py': ['C32', 'C44', 'C36'], 'hgaa/clients/pauth.py': ['C32', 'C44', 'C36'], 'hgaa/handler.py': ['C37'],
    'hgaa/schema/aauth.py': ['C39', 'C23', 'C24', 'C31'], 'hgaa/schema/pauth.py': ['C39', 'C27', 'C26', 'C31', 'C33'], 'hgaa/schema/__init__.py': ['C31'], 'hgaa/services/__init__.py': ['C37'],
}
SWAP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'],
        ast.IsNot: ['is']}
SKIP = set(filter(None, os.environ.get('MUT_SKIP', '').split(',')))
DROP = {'lower', 'strip', 'upper', 'copy', 'publickey'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def quiet(node):
    """log records, error messages and printed text are not behaviour"""
    t = ast.unparse(node)
    return 'LOG.' in t[:60] or t.startswith('log.') or t.startswith('print(') or t.startswith('self._warn') or t.startswith('self._error')


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for ln in lines:
        off.append(off[-1] + len((ln + '\n').encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def put(n, text, what):
        a, b = span(n)
        out.append((n.lineno, what, (raw[:a] + text.encode() + raw[b:]).decode()))

    out = []

    def walk(n, silent):
        if isinstance(n, (ast.Expr, ast.Raise)) and (quiet(n) or isinstance(n, ast.Raise)):
            silent = True
        if isinstance(n, ast.FunctionDef) and n.name in ('__str__', '__repr__', '_print_tree'):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in SWAP.get(type(n.ops[0]), []):
                put(n, '(%s %s %s)' % (seg(src, n.left), o, seg(src, n.comparators[0])), 'cmp %s' % o)
        elif isinstance(n, ast.Compare):
            for i in range(len(n.ops)):
                parts = [n.left] + n.comparators
                for o in SWAP.get(type(n.ops[i]), []):
                    ops = [{ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '=='}.get(type(x), '==') for x in n.ops]
                    ops[i] = o
                    put(n, '(' + seg(src, parts[0]) + ''.join(' %s %s' % (ops[j], seg(src, parts[j + 1])) for j in range(len(ops))) + ')', 'chain %s' % o)
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + w.join('(%s)' % seg(src, v) for v in n.values) + ')', 'bool%s' % w)
            for i in range(len(n.values)):
                w2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(' + w2.join('(%s)' % seg(src, v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand %d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % seg(src, n.operand), 'drop not')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, 'True', 'cond True') if not isinstance(n, ast.While) else None
            put(n.test, 'False', 'cond False')
        elif isinstance(n, ast.BinOp) and not silent:
            o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '/', ast.BitAnd: '|', ast.BitOr: '&'}.get(type(n.op))
            if o:
                put(n, '(%s %s %s)' % (seg(src, n.left), o, seg(src, n.right)), 'arith %s' % o)
        elif isinstance(n, ast.Constant) and not silent:
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'not bool')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), '+1')
                put(n, '(%d)' % (n.value - 1), '-1')
            elif isinstance(n.value, str) and '\n' not in (seg(src, n) or '\n'):
                put(n, repr(n.value + 'X'), 'str')
            elif n.value is None:
                put(n, '0', 'None->0')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DROP and not n.args:
            put(n, seg(src, n.func.value), 'drop .%s()' % n.func.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None:
            put(n, seg(src, n.value), 'drop [:]') if isinstance(n.ctx, ast.Load) else None
        if isinstance(n, ast.Call) and not silent:
            for i, k in enumerate(n.keywords):
                a = [seg(src, x) for x in n.args] + ['%s=%s' % (x.arg, seg(src, x.value)) if x.arg else '**' + seg(src, x.value) for j, x in enumerate(n.keywords) if j != i]
                put(n, '%s(%s)' % (seg(src, n.func), ', '.join(a)), 'drop %s=' % k.arg)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                put(n, '%s(%s, %s)' % (seg(src, n.func), seg(src, n.args[1]), seg(src, n.args[0])), 'swap args')
            if n.args and not isinstance(n.args[-1], ast.Starred) and len(n.args) > 1:
                put(n, '%s(%s)' % (seg(src, n.func), ', '.join([seg(src, x) for x in n.args[:-1]] + ['%s=%s' % (x.arg, seg(src, x.value)) for x in n.keywords if x.arg])), 'drop last arg')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and (quiet(n) or isinstance(n.value, ast.Constant))):
            put(n, 'pass', 'drop statement')
        if isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', 'return None')
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            pass
        for c in ast.iter_child_nodes(n):
            walk(c, silent)

    for n in tree.body:
        walk(n, False)
    good = []
    for ln, what, text in out:
        try:
            if ast.dump(ast.parse(text)) != ast.dump(tree):
                good.append((ln, what, text))
        except SyntaxError:
            pass
    return good


FAST = '''
import Crypto.PublicKey.RSA as R
_g = R.generate
_pool = {}
def generate(bits, *a, **k):
    i = _n[0] = (_n[0] + 1) % 3
    if (bits, i) not in _pool:
        import os, pickle
        p = '/tmp/w/keypool-%d-%d.pem' % (bits, i)
        if not os.path.exists(p):
            open(p + '.%d' % os.getpid(), 'wb').write(_g(bits).export_key())
            os.rename(p + '.%d' % os.getpid(), p)
        _pool[(bits, i)] = R.import_key(open(p, 'rb').read())
    return _pool[(bits, i)]
_n = [0]
R.generate = generate
'''


def one(job):
    i, path, ln, what, text, crlf, checks = job
    wt = '/tmp/w/mut-%s-%d' % (path.replace('/', '_'), i)
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree(REPO, wt, symlinks=True, ignore=shutil.ignore_patterns('.git', 'papers', '__pycache__'))
    try:
        with open(os.path.join(wt, path), 'w', newline='') as f:
            f.write(text.replace('\n', '\r\n') if crlf else text)
        with open(os.path.join(wt, 'fastrsa.py'), 'w') as f:
            f.write(FAST)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=wt, VERIF_WORKERS='2', VERIF_EVIDENCE=wt + '/ev', PYTHONPATH=wt)
        os.makedirs(wt + '/hgaa/logs', exist_ok=True)
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'fastrsa', 'hgaa', 'hgpl'] if path.startswith('hgaa') else
                               [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'hgpl'], cwd=wt, env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return job, 'tests (timeout)'
        if r.returncode:
            return job, 'tests'
        os.unlink(wt + '/fastrsa.py')
        bad = []
        for c in checks:
            try:
                r = subprocess.run([PY, HERE + '/check.py', c], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                bad.append(c + ' TIMEOUT')
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return job, c + (' after ' + ','.join(bad) if bad else '')
            if r.returncode != 0:
                bad.append('%s rc=%d %s' % (c, r.returncode, (r.stderr or r.stdout)[-150:].replace('\n', ' ')))
        return job, 'SURVIVED ' + '; '.join(bad)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    args = sys.argv[1:]
    only = None
    if '--only' in args:
        k = args.index('--only')
        only = {int(x) for x in args[k + 1].split(',')}
        del args[k:k + 2]
    lst = '--list' in args
    args = [a for a in args if a != '--list']
    for path in args:
        s = open(os.path.join(REPO, path), newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        lines = s.split('\n')
        ms = mutants(s)
        print('==', path, len(ms), 'mutants', flush=True)
        checks = CHECKS[path]
        if path.startswith('hgpl'):
            checks = checks + [c for c in HGPL if c not in checks]
        jobs = [(i, path, ln, what, text, crlf, checks) for i, (ln, what, text) in enumerate(ms) if (only is None or i in only) and what not in SKIP]
        if lst:
            for j in jobs:
                print(j[0], j[2], j[3], lines[j[2] - 1].strip()[:100])
            continue
        count = {}
        with cf.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '4'))) as ex:
            for j, res in ex.map(one, jobs):
                count[res.split()[0]] = count.get(res.split()[0], 0) + 1
                if res.split()[0] not in ('tests',):
                    new = j[4].split('\n')[j[2] - 1].strip()[:150]
                    print('#%d line %d %-16s %-10s | %s' % (j[0], j[2], j[3], res, new), flush=True)
        print('--', path, count, flush=True)


main()
