"""C29 concurrent requests and evaluations do not influence each other: every schedule with a bounded number of preemptions."""
import os

from mc import ac, clock, core, hg, sched, svc
from mc.core import Violation, THOROUGH

FILES = (os.path.join(core.REPO, 'hgaa', ''), os.path.join(core.REPO, 'hgpl', ''))
NOW = ac.NOW
BOX = {}


# -- attribute authority ---------------------------------------------------------------------------------------------------------
REQS = {
    'dan': ('dan', 'a', [], b'dan-key', '10.0.0.1', ('ok', [('r', 'role', 'STRING', 'nurse'), ('s', 'age', 'INT', '7')])),
    'jess': ('jess', 'b', [], b'jess-key', '::2', ('ok', [('r', 'role', 'STRING', 'chief')])),
    'dan age': ('dan', 'a', ['age'], b'dan-key2', '10.0.0.3', ('ok', [('s', 'age', 'INT', '7')])),
    'jess age': ('jess', 'b', ['age'], b'jess-key', '10.0.0.4', ('err', 'ClientFault')),
    'dan wrong': ('dan', 'b', [], b'evil', '10.0.0.5', ('err', 'ClientFault')),
}
PAIRS = [('dan', 'jess'), ('dan', 'dan age'), ('jess age', 'dan age'), ('jess', 'dan wrong')]


def attributes():
    if 'aa' not in BOX:
        S = svc.sa
        aa = svc.Attributes(sqlite=os.path.join(svc.SCRATCH, 'c29a-%d-%d' % (os.getpid(), len(BOX))))
        aa.add(S.User(id=1, username='dan', password=svc.pw('a')), S.User(id=2, username='jess', password=svc.pw('b')),
               S.Attribute(id='r', name='role', type=ac.AT.STRING), S.Attribute(id='s', name='age', type=ac.AT.INT),
               S.AttributeAssignment(user_id=1, att_id='r', value='nurse'), S.AttributeAssignment(user_id=1, att_id='s', value='7'),
               S.AttributeAssignment(user_id=2, att_id='r', value='chief'))
        BOX['aa'] = aa
    return BOX['aa']


def aa_body(aa, name):
    user, password, names, key, addr, _ = REQS[name]
    return lambda: aa.ask(user, password, names=names, key=key, addr=addr)


def aa_one(ctx, case):
    pair, plan = case
    aa = attributes()
    clock.set(NOW)
    for f in aa.files():
        os.unlink(os.path.join(aa.dir, f))
    r = sched.Run([aa_body(aa, x) for x in pair], plan, FILES)
    out = r.run()
    ctx.step(r.steps)
    ctx.state((pair, plan))
    issued = 0
    for name, (kind, val) in zip(pair, out):
        user, password, names, key, addr, want = REQS[name]
        if want[0] == 'err':
            if kind != 'err':
                raise Violation('a request that has to be refused was granted during another one', requests=pair, request=name, preempted_at=plan)
            if type(val).__name__ != want[1]:
                raise Violation('another error during a concurrent request', requests=pair, request=name, preempted_at=plan, error=val)
            continue
        if kind == 'err':
            raise Violation('a request failed because of a concurrent one', requests=pair, request=name, preempted_at=plan, error=val)
        raw = val.data.read()
        val.data.close()
        cert = ac.A.AttributeCertificate.decode(bytearray(raw))
        issued += 1
        conn = {i: v for i, _, _, v in svc.conn_atts(cert)}
        got = (bytes(cert.holder.pub_key), cert.holder.uid, svc.user_atts(cert), conn['remote_addr'], conn['session_id'], cert.verify_signature())
        exp = (key, 'hgabac://aa/user/' + user, want[1], addr, str(cert.info.serial), True)
        if got != exp:
            raise Violation('two concurrent requests were mixed up', requests=pair, request=name, preempted_at=plan, got=got, expected=exp)
    if len(aa.files()) != issued:
        raise Violation('stored certificates do not match the issued ones', requests=pair, preempted_at=plan, files=aa.files(), issued=issued)
    del out, r


# -- policy authority ------------------------------------------------------------------------------------------------------------
def certs():
    if 'certs' not in BOX:
        def mk(serial, before, **kw):
            return bytes(svc.issue(serial=serial, before=before, **kw).encode())
        BOX['certs'] = {'x': (1, 1000, mk(1, 1000)), 'x2': (1, 2000, mk(1, 2000)), 'y': (2, 500, mk(2, 500)), 'z': (3, 90000, mk(3, 90000, uid='bb', key=1)),
                        'bad': (4, 1000, mk(4, 1000, key=1))}
    return BOX['certs']


PA_PAIRS = [('x', 'y'), ('x', 'x2'), ('x', 'x'), ('x+y', 'z'), ('y', 'bad'), ('x+y', 'y+x2')]


def policies():
    if 'pa' not in BOX:
        pa = svc.Policies(sqlite=os.path.join(svc.SCRATCH, 'c29p-%d-%d' % (os.getpid(), len(BOX))))
        BOX['pa'] = pa
    pa = BOX['pa']
    return pa


def pa_body(pa, spec):
    C = certs()
    raws = [(C[x][2], 0, 1) for x in spec.split('+')]
    return lambda: pa.start(raws, service='svc-' + spec, addr='addr-' + spec)


def pa_reset(pa):
    pa.wipe()
    pa.authority('aa', 0, 1)
    pa.authority('bb', 1, 1)
    clock.set(NOW)


def pa_one(ctx, case):
    pair, plan = case
    pa = policies()
    pa_reset(pa)
    C = certs()
    r = sched.Run([pa_body(pa, x) for x in pair], plan, FILES)
    out = r.run()
    ctx.step(r.steps)
    ctx.state((pair, plan))
    ok = [k == 'ok' for k, _ in out]
    replies = [v if k == 'ok' else None for k, v in out]
    errors = [None if k == 'ok' else '%s: %s' % (type(v).__name__, str(v)[:300]) for k, v in out]
    del out, r
    info = dict(requests=pair, preempted_at=plan, outcome=errors)
    acs, assigned, sessions = pa.dump()
    parts = [p.split('+') for p in pair]
    for i in (0, 1):
        if 'bad' in parts[i] and ok[i]:
            raise Violation('a session was started from a certificate that has to be refused', **info)
    serial = [{C[x][0] for x in p if x != 'bad'} for p in parts]
    for i in (0, 1):
        if 'bad' not in parts[i] and not ok[i] and (not serial[0] & serial[1] or not ok[1 - i]):
            raise Violation('a session was refused because of a concurrent request', **info)
    if len(sessions) != sum(ok):
        raise Violation('the recorded sessions are not the ones that were granted', sessions=len(sessions), **info)
    have = {a[0]: a[1] for a in acs}
    for i in (0, 1):
        if not ok[i]:
            continue
        sid = svc.serial64(replies[i].session_id)
        till = min([NOW + C[x][1] for x in parts[i]] + [NOW + 86400])
        rec = [s for s in sessions if s[0] == sid]
        want = (sid, NOW, min(NOW + C[x][1] for x in parts[i]), NOW, 'addr-' + pair[i], 'svc-' + pair[i], till)
        if rec != [want] or replies[i].valid_till != till:
            raise Violation('wrong session after concurrent requests', got=rec, expected=want, **info)
        if sorted(a[0] for a in assigned if a[1] == sid) != sorted(svc.serial64(C[x][0]) for x in parts[i]):
            raise Violation('a session has the certificates of another one', **info)
        for x in parts[i]:
            if have.get(svc.serial64(C[x][0])) != C[x][2]:
                raise Violation('a serial stands for two different certificates', certificate=x, **info)
    if len(acs) != len({x for i in (0, 1) if ok[i] for x in serial[i]}):
        raise Violation('certificates of a refused request were recorded', recorded=len(acs), **info)


# -- policies --------------------------------------------------------------------------------------------------------------------
POLICIES = [('user.a >= 5 AND object.s = "x" OR NOT env.b', {'user.a': ('INT', 7), 'object.s': ('STRING', 'y'), 'env.b': ('BOOL', False)}),
            ('user.r IN {"a", "b"} OR connect.n != NULL', {'user.r': ('STRING', 'b')}),
            ('user.a > "x" OR 1 = "2"', {'user.a': ('INT', 1)}), ('user.f = 1.5 AND object.t SUBSET {1, 2}', {'user.f': ('FLOAT', 1.5), 'object.t': ('SET', {1})}),
            ('(user.a = ', {})]


def evaluate(k):
    """everything that can be done with a policy, as one value"""
    def body():
        text, env = POLICIES[k]
        try:
            lexer = hg.lexing.Lexer(text)
            node = hg.parsing.Parser(lexer).parse()
            tree = hg.to_tree(node)
            tc = hg.semantics.TypeChecker(node, text)
            issues = [(i.type.name, i.pos) for i in tc.check()]
            enc = bytes(hg.ast.ASTEncoder.encode(node))
            again = hg.ast.ASTEncoder.decode(enc)
            st = hg.table(env)
            its = hg.interpreting.Interpreter(node), hg.interpreting.Interpreter(again)
            got = hg.run(its[0], st), hg.run(its[1], st)
            warns = [[(w.pos, w.message) for w in it.get_warnings()] for it in its]
            types = str(tc.get_symbol_table())
            return tree, issues, enc, got, warns, types, [hg.tok(t) for t in lexer.att_list()], [hg.tok(t) for t in lexer.toke_list()]
        except Exception as e:
            return type(e).__name__, str(e)
    return body


def hg_one(ctx, case):
    (a, b), plan, opcodes = case
    want = BOX.setdefault(('hg', a), evaluate(a)()), BOX.setdefault(('hg', b), evaluate(b)())
    r = sched.Run([evaluate(a), evaluate(b)], plan, FILES, opcodes)
    out = r.run()
    ctx.step(r.steps)
    ctx.state(case)
    for i in (0, 1):
        if out[i] != ('ok', want[i]):
            raise Violation('a concurrent evaluation changed the outcome', policies=(POLICIES[a][0], POLICIES[b][0]), preempted_at=plan, which=i, got=out[i], expected=want[i])


# -- certificates ------------------------------------------------------------------------------------------------------------------
def certificate(k):
    """everything that is done with a certificate, as one value"""
    def body():
        A = ac.A
        try:
            c = ac.base(k, issuer=A.ACIssuer(ac.PUB[k], 'RSA', 'issuer%d' % k, 'name%d' % k, 'u%d' % k), info=A.ACInformation(1, 1000 + k, NOW + k),
                        att_set=[A.ACAttribute('id%d-%d' % (k, i), ac.AT.INT, str(k * 10 + i), 'n%d' % k) for i in range(k + 1)],
                        rev_rules=A.ACRevocationRules(NOW - 10, NOW + 10 * k, 'r%d' % k), extensions=[A.ACExtensions('e%d' % k, b'x%d' % k)])
            c.sign(ac.KEYS[k])
            enc = bytes(c.encode())
            again = A.AttributeCertificate.decode(bytearray(enc))
            out = [ac.content(again), again.verify_signature(), again.check_time() if hasattr(again, 'check_time') else None, again == c]
            exp = again.export_ac(ac.EF.BASE64)
            back = A.AttributeCertificate.import_ac(exp, ac.EF.BASE64)
            out += [bytes(exp), ac.content(back), back.verify_signature()]
            again.info.serial += 1
            out.append(again.verify_signature())
            return enc, out
        except Exception as e:
            return type(e).__name__, str(e)
    return body


def cert_one(ctx, case):
    (a, b), plan = case
    clock.set(NOW)
    want = BOX.setdefault(('cert', a), certificate(a)()), BOX.setdefault(('cert', b), certificate(b)())
    r = sched.Run([certificate(a), certificate(b)], plan, FILES)
    out = r.run()
    ctx.step(r.steps)
    ctx.state(case)
    for i in (0, 1):
        if out[i] != ('ok', want[i]):
            raise Violation('certificates handled at the same time were mixed up', certificates=(a, b), preempted_at=plan, which=i, got=str(out[i])[:500], expected=str(want[i])[:500])


CERT_ALL = [(0, 1), (1, 2)] + ([(2, 0), (1, 1)] if THOROUGH else [])


# -- questions to the authorities, first use after a start --------------------------------------------------------------------------
def listing(pa):
    return sorted(map(plain, pa.service.trusted_attribute_authorities(REMOTE_ADDR='q').attribute_authorities))


def plain(x):
    """the fields of an answer, without the identity of the objects"""
    if isinstance(x, (list, tuple)):
        return str([plain(v) for v in x])
    if hasattr(x, '__dict__') and not isinstance(x, type):
        return str(sorted((k, plain(v)) for k, v in vars(x).items()))
    return repr(x)


MIX = [('pa', 'list', 'x'), ('pa', 'x', 'list'), ('pa', 'list', 'list'), ('pa', 'info', 'x'), ('pa', 'list', 'y+bad'), ('aa', 'info', 'dan'), ('aa', 'dan', 'info'), ('aa', 'info', 'info'),
       ('cold', 'dan', 'jess'), ('cold', 'x', 'z'), ('cold', 'list', 'x')]


def mix_prepare(kind, pair):
    """(service, the two bodies, what each answers alone)"""
    clock.set(NOW)
    on_pa = any(p in ('list', 'x', 'y+bad', 'z') for p in pair) or kind == 'pa'
    if on_pa:
        pa = policies()
        pa_reset(pa)
        if kind == 'cold':
            svc.drop_engines()

        def body(p):
            if p == 'list':
                return lambda: listing(pa)
            if p == 'info':
                return lambda: plain(pa.service.info(REMOTE_ADDR='q'))
            return pa_body(pa, p)
        return pa, [body(p) for p in pair]
    aa = attributes()
    for f in aa.files():
        os.unlink(os.path.join(aa.dir, f))
    if kind == 'cold':
        svc.drop_engines()
    return aa, [(lambda: plain(aa.service.info(REMOTE_ADDR='q'))) if p == 'info' else aa_body(aa, p) for p in pair]


def mix_one(ctx, case):
    kind, pair, plan = case
    service, bodies = mix_prepare(kind, pair)
    r = sched.Run(bodies, plan, FILES)
    out = r.run()
    ctx.step(r.steps)
    ctx.state(case)
    info = dict(requests=pair, preempted_at=plan)
    for p, b, (k, v) in zip(pair, bodies, out):
        if p in ('list', 'info'):
            want = BOX['alone', kind, p]
            if k != 'ok' or v != want:
                raise Violation('an answer depends on a concurrent request', question=p, got=v, expected=want, **info)
        elif p in REQS:
            if k == 'err':
                raise Violation('a request failed because of a concurrent one', request=p, error=v, **info)
            raw = v.data.read()
            v.data.close()
            cert = ac.A.AttributeCertificate.decode(bytearray(raw))
            if svc.user_atts(cert) != REQS[p][5][1] or not cert.verify_signature():
                raise Violation('two concurrent requests were mixed up', request=p, **info)
        elif (k == 'ok') == ('bad' in p):
            raise Violation('a session was granted or refused because of a concurrent request', request=p, error=None if k == 'ok' else v, **info)
    n = sum(1 for p, (k, v) in zip(pair, out) if k == 'ok' and p not in ('list', 'info'))
    del out, r
    have = len(service.files()) if service is BOX.get('aa') else len(service.dump()[2])
    if have != n:
        raise Violation('the records do not match what was granted', recorded=have, granted=n, **info)


AA_ALL = PAIRS + [p[::-1] for p in PAIRS] if THOROUGH else [('dan', 'jess'), ('jess age', 'dan age'), ('jess', 'dan wrong')]
PA_ALL = PA_PAIRS + [p[::-1] for p in PA_PAIRS] if THOROUGH else PA_PAIRS
HG_ALL = [(a, b) for a in range(len(POLICIES)) for b in range(len(POLICIES))] if THOROUGH else [(0, 1), (2, 3), (4, 0)]


def run(chk):
    bound = 2 if THOROUGH else 1
    chk.bounds = {'threads': 2, 'preemptions': bound, 'preemption_points': 'before every line of hgaa and hgpl', 'requests': len(REQS)}
    chk.assumptions = ['preemption within one line of the code is not explored, except for policies in the thorough tier', 'sqlite in a file as the database']

    def aa_gen():
        for pair in AA_ALL:
            n = BOX['n', pair]
            for plan in sched.plans(n, 1):
                yield (pair, plan)
            if THOROUGH and pair[0] == 'dan':
                for plan in sched.plans(n, 2, 9):
                    yield (pair, plan)

    def pa_gen():
        for pair in PA_ALL:
            n = BOX['n', pair]
            for plan in sched.plans(n, 1):
                yield (pair, plan)
            if THOROUGH:
                for plan in sched.plans(n, 2, 9):
                    yield (pair, plan)

    def hg_gen():
        for a, b in HG_ALL:
            n = BOX['n', 'hg', a, b]
            for plan in sched.plans(n, 1):
                yield ((a, b), plan, False)
            if THOROUGH and a <= 1:
                for plan in sched.plans(BOX['n', 'hgo', a, b], 1):
                    yield ((a, b), plan, True)
                for plan in sched.plans(n, 2, 29):
                    yield ((a, b), plan, False)

    def cert_gen():
        for pair in CERT_ALL:
            for plan in sched.plans(BOX['n', 'cert', pair], 1):
                yield (pair, plan)

    def mix_gen():
        for m in MIX:
            for plan in sched.plans(BOX['n', m], 1):
                yield (m[0], m[1:], plan)

    def warm(ctx):
        clock.set(NOW)
        aa = attributes()
        for pair in AA_ALL:
            BOX['n', pair] = sched.length([aa_body(aa, q) for q in pair], FILES)
        svc.drop_engines()
        BOX.pop('aa')
        pa = policies()
        for pair in PA_ALL:
            pa_reset(pa)
            BOX['n', pair] = sched.length([pa_body(pa, q) for q in pair], FILES)
        svc.drop_engines()
        BOX.pop('pa')
        for m in MIX:
            service, bodies = mix_prepare(m[0], m[1:])
            for p, b in zip(m[1:], bodies):
                if p in ('list', 'info'):
                    BOX['alone', m[0], p] = b()
            BOX['n', m] = sched.length(bodies, FILES)
        svc.drop_engines()
        BOX.pop('aa')
        BOX.pop('pa')
        for a, b in CERT_ALL:
            BOX['n', 'cert', (a, b)] = sched.length([certificate(a), certificate(b)], FILES)
        for a, b in HG_ALL:
            BOX['n', 'hg', a, b] = sched.length([evaluate(a), evaluate(b)], FILES)
            if THOROUGH and a <= 1:
                BOX['n', 'hgo', a, b] = sched.length([evaluate(a), evaluate(b)], FILES, True)
        ctx.traces += 1
        chk.bounds['steps'] = {str(k[1:]): v for k, v in BOX.items() if k[0] == 'n'}
    chk.one('number of steps of every pair', warm)
    chk.explore('two requests to the attribute authority', aa_gen, aa_one)
    chk.explore('two sessions at the policy authority', pa_gen, pa_one)
    chk.explore('two certificates', cert_gen, cert_one)
    chk.explore('questions and first requests', mix_gen, mix_one)
    chk.explore('two policy evaluations', hg_gen, hg_one)
