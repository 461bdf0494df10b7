"""Stored formats (policies and certificates), written down independently of the code under test."""
import base64
import hashlib
import struct

# -- policies ----------------------------------------------------------------------------------------------------------------------
TOKEN = {'OP': 1, 'BOOL_OP': 2, 'NOT_OP': 3, 'USR_ATT': 4, 'OBJ_ATT': 5, 'ENV_ATT': 6, 'ADM_ATT': 7, 'CON_ATT': 8, 'NULL': 11, 'BOOL': 12, 'INT': 13,
         'FLOAT': 14, 'STRING': 15, 'LSET': 16}
NODE = {'op': 11, 'and': 12, 'or': 12, 'not': 13, 'bool': 21, 'int': 31, 'float': 32, 'str': 33, 'null': 35, 'set': 41, 'user': 51, 'object': 52, 'admin': 53,
        'connect': 54, 'env': 55}
ATT = {'user': 'USR_ATT', 'object': 'OBJ_ATT', 'env': 'ENV_ATT', 'admin': 'ADM_ATT', 'connect': 'CON_ATT'}


def fields(t):
    """tree of mc.ref -> (node kind, token type, position, value, children)"""
    k = t[0]
    if k in ('and', 'or'):
        return NODE[k], 'BOOL_OP', t[1], k.upper(), t[2:]
    if k == 'not':
        return NODE[k], 'NOT_OP', t[1], 'NOT', t[2:]
    if k == 'op':
        return NODE[k], 'OP', t[1], t[2], t[3:]
    if k == 'set':
        return NODE[k], 'LSET', t[1], None, t[2]
    if k == 'att':
        return NODE[t[2]], ATT[t[2]], t[1], t[3], ()
    return NODE[k], {'bool': 'BOOL', 'int': 'INT', 'float': 'FLOAT', 'str': 'STRING', 'null': 'NULL'}[k], t[1], t[2] if len(t) > 2 else 'NULL', ()


def value_bytes(ty, v, small=False):
    if ty == 'INT':
        n = 4
        while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
            n += 1
        return v.to_bytes(n, 'little', signed=True)
    if ty == 'FLOAT':
        return struct.pack('<f' if small else '<d', v)
    if v is None:
        return b''
    return v.encode('utf-8')


def write_policy(tree, first=0, stride=1, order=None, small=False):
    """first, stride: numbering of the nodes; order: function that rearranges the node records; small: numbers as four bytes"""
    nodes = []

    def add(t):
        kind, ty, pos, v, ch = fields(t)
        me = len(nodes)
        nodes.append(None)
        kids = [add(c) for c in ch]
        raw = value_bytes(ty, v, small)
        num = lambda i: first + stride * i  # noqa: E731
        nodes[me] = struct.pack('<HBBHHH', num(me), kind, TOKEN[ty], pos, len(raw), len(kids)) + raw + b''.join(struct.pack('<H', num(c)) for c in kids)
        return me

    add(tree)
    body = order(nodes) if order else nodes
    return struct.pack('<BHH', 1, len(nodes), first) + b''.join(body)


class Malformed(Exception):
    pass


def read_policy(data):
    """bytes -> nested (node kind, token name, position, raw value, children); only records reachable once each are allowed"""
    def take(fmt):
        nonlocal at
        n = struct.calcsize(fmt)
        if at + n > len(data):
            raise Malformed('record cut off')
        out = struct.unpack(fmt, data[at:at + n])
        at += n
        return out

    data = bytes(data)
    at = 0
    version, count, root = take('<BHH')
    if version != 1:
        raise Malformed('version %d' % version)
    names = {v: k for k, v in TOKEN.items()}
    recs = {}
    for _ in range(count):
        nid, kind, ty, pos, size, kids = take('<HBBHHH')
        raw, = take('<%ds' % size)
        if ty not in names or nid in recs:
            raise Malformed('token type %d, node %d' % (ty, nid))
        recs[nid] = (kind, names[ty], pos, raw, take('<%dH' % kids))
    if at != len(data):
        raise Malformed('bytes left over')
    used = set()

    def build(nid):
        if nid not in recs or nid in used:
            raise Malformed('bad reference to node %d' % nid)
        used.add(nid)
        kind, ty, pos, raw, kids = recs[nid]
        return (kind, ty, pos, raw, tuple(build(c) for c in kids))

    out = build(root)
    if len(used) != count:
        raise Malformed('unused records')
    return out


def policy_records(tree):
    """what read_policy has to find for a tree"""
    kind, ty, pos, v, ch = fields(tree)
    return (kind, ty, pos, v, tuple(policy_records(c) for c in ch))


def same_records(got, want):
    """numbers may be stored at any size that holds them"""
    if got[:3] != want[:3] or len(got[4]) != len(want[4]) or not all(map(same_records, got[4], want[4])):
        return False
    raw, v = got[3], want[3]
    if want[1] == 'INT':
        return len(raw) >= 4 and int.from_bytes(raw, 'little', signed=True) == v
    if want[1] == 'FLOAT':
        return len(raw) == 8 and repr(struct.unpack('<d', raw)[0]) == repr(float(v))
    return raw == value_bytes(want[1], v)


# -- certificates ------------------------------------------------------------------------------------------------------------------
ATYPE = {'NULL': 0, 'INT': 1, 'FLOAT': 2, 'STRING': 3, 'BOOL': 4, 'SET': 5}
FORMAT = {'BYTES': 0, 'TEXT': 1, 'XML': 2, 'BASE64': 3, 'BASE64FULL': 4}
DEFAULT_ALGO = 'RSASSA-PKCS1-v1_5:SHA256'


def _b(x):
    return b'' if x is None else bytes(x) if isinstance(x, (bytes, bytearray)) else x.encode('utf-8')


def _sized(*parts):
    raw = [_b(p) for p in parts]
    return b''.join(struct.pack('<H', len(r)) for r in raw), b''.join(raw)


def part_bytes(kind, c):
    """c: content tuple as mc.ac.part gives it"""
    if kind in ('issuer', 'holder'):
        h, b = _sized(*c)
        return h + b
    if kind == 'info':
        return bytes((c[0], 20)) + c[1].to_bytes(20, 'little') + struct.pack('<I', c[2])
    if kind == 'att':
        aid, ty, val, name, extra = c
        h, b = _sized(aid, val, name, extra)
        return h + bytes((ATYPE[ty],)) + b
    if kind == 'rev':
        h, b = _sized(c[2], c[3])
        return h + struct.pack('<II', c[0], c[1]) + b
    if kind == 'del':
        return b'\x00\x00' if c is None else b''.join(_sized(*c))
    if kind == 'ext':
        return b''.join(_sized(*c))
    if kind == 'sig':
        return b'\x00\x00\x00\x00' if c is None else b''.join(_sized(*c))
    raise KeyError(kind)


def body_bytes(c):
    issuer, holder, info, atts, rev, dele, exts = c[:7]
    return b''.join((part_bytes('issuer', issuer), part_bytes('holder', holder), part_bytes('info', info), struct.pack('<H', len(atts)),
                     b''.join(part_bytes('att', a) for a in atts), part_bytes('rev', rev), part_bytes('del', dele), struct.pack('<H', len(exts)),
                     b''.join(part_bytes('ext', e) for e in exts)))


_PREFIX = bytes.fromhex('3031300d060960864801650304020105000420')


def rsa_padded(key, message):
    """PKCS#1 v1.5 padding of the SHA-256 hash, as a number"""
    k = (key.n.bit_length() + 7) // 8
    t = _PREFIX + hashlib.sha256(message).digest()
    return int.from_bytes(b'\x00\x01' + b'\xff' * (k - len(t) - 3) + b'\x00' + t, 'big'), k


def rsa_sign(key, message):
    m, k = rsa_padded(key, message)
    return pow(m, int(key.d), int(key.n)).to_bytes(k, 'big')


def rsa_good(key, message, signature):
    m, k = rsa_padded(key, message)
    return len(signature) == k and pow(int.from_bytes(signature, 'big'), int(key.e), int(key.n)) == m


def write_certificate(c, key=None, algo=DEFAULT_ALGO):
    body = body_bytes(c)
    sig = c[7] if len(c) > 7 else None
    if key is not None:
        sig = (algo, rsa_sign(key, body))
    return body + part_bytes('sig', sig)


def envelope(raw, version):
    return '---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: BASE64\nVERSION: %d\n%s\n---- END ATTRIBUTE CERTIFICATE ----' % (version, base64.b64encode(raw).decode())
