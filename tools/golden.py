"""Writes mc/golden.json with the code of an earlier commit: golden.py <directory of that commit>. Run once; the result is committed."""
import base64
import json
import os
import sqlite3
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['VERIF_REPO'] = sys.argv[1]
sys.path.insert(0, HERE)
from mc import core  # noqa: E402

core.setup_path()
from mc import hg, ac, svc  # noqa: E402

TEXTS = ['user.a = 1', 'TRUE', 'FALSE AND UNDEF', 'NOT user.b', 'user.role IN {"doctor", "nurse"} AND object.ward = user.ward', 'env.hour >= 9 AND env.hour < 17 OR admin.override',
         'connect.ip_v4 AND NOT (user.age < 18 OR user.name = NULL)', '{1, 2, NULL, "x"} SUBSET object.tags', 'user.score > 2.5 AND user.score <= -0.25', '"" != user.s OR {} = {}',
         'user.a = 2147483647 OR user.a = -2147483648', 'user.a = user.b AND object.a = object.b AND env.a = env.b AND admin.a = admin.b AND connect.a = connect.b']
out = {'policies': [], 'certificates': [], 'ddl': {}}
for t in TEXTS:
    node = hg.must_parse(t)
    out['policies'].append([t, bytes(hg.ast.ASTEncoder.encode(node)).hex(), base64.b64encode(bytes(hg.ast.ASTEncoder.encode(node))).decode()])
A = ac.A
certs = [ac.base(), ac.base(1, del_rules=A.ACDelegationRules(b'rules')), ac.base(att_set=[A.ACAttribute('user.t%d' % i, t, 'v%d' % i, 'n%d' % i, bytes([i])) for i, t in enumerate(A.AttributeType)]),
         ac.base(extensions=[A.ACExtensions('e1', b'1'), A.ACExtensions('e2', b'22')], info=A.ACInformation(1, 2 ** 159 + 7, ac.NOW))]
for c in certs:
    k = 1 if c.issuer.pub_key == ac.PUB[1] else 0
    c.sign(ac.KEYS[k])
    out['certificates'].append([bytes(c.encode()).hex(), c.export_ac(A.ExportFormat.BASE64FULL)])
for name in ('aauth', 'pauth'):
    path = os.path.join(svc.SCRATCH, name)
    svc.configure(name.upper(), DB_TYPE='SQLITE', DB_NAME=path)
    svc.drop_engines()
    svc.schema.ServiceBases[name].metadata.create_all(svc.database.get_engine(name.upper()))
    db = sqlite3.connect(path + '.db')
    out['ddl'][name] = [r[0] for r in db.execute("select sql from sqlite_master where sql is not null order by rootpage")]
json.dump(out, open(os.path.join(HERE, 'mc', 'golden.json'), 'w'), indent=1)
