"""C12 inferred attribute types and consistency warnings: all short policies over few attributes."""
from itertools import product

from mc import ref, hg
from mc.core import Violation, THOROUGH
from mc.checks.c11 import check_issues

ATTS = ['user.a', 'USER.A', 'user.b', 'object.a']
CONST = ['1', '2.5', '"s"', 'NULL', '{1}', '{}']
OPS = ['=', '<', 'IN', 'SUBSET', '!=', '>=']


def comps(atts, consts, ops):
    out = []
    for op in ops:
        for a in atts:
            for c in consts:
                out.append(a + ' ' + op + ' ' + c)
                out.append(c + ' ' + op + ' ' + a)
        for a, b in product(atts, repeat=2):
            out.append(a + ' ' + op + ' ' + b)
    return out


def pair_gen():
    cs = comps(ATTS, CONST, OPS if THOROUGH else OPS[:4])
    for a, b in product(cs, repeat=2):
        yield a + ' AND ' + b


def triple_gen():
    cs = comps(['user.a', 'user.b', 'object.a'], ['1', '2.5', '"s"', 'NULL', '{1}'], ['=']) if THOROUGH else \
        comps(['user.a', 'user.b'], ['1', '2.5', '"s"', 'NULL', '{1}'], ['=']) + ['user.a < user.b', 'user.a IN {1}', 'user.b > 1', 'user.a', 'object.a = user.a']
    for k, p in enumerate(product(cs, repeat=3)):
        yield ('%s AND %s AND %s', '%s OR NOT (%s) AND (%s)', '(%s) AND (%s OR %s)')[k % 3] % p


def quad_gen():
    cs = ['user.a = 1', 'user.b = "s"', 'user.a = user.b', 'object.c = user.a', 'user.b = object.c', 'user.a = 2.5', 'NULL = object.c', 'user.b != {1}',
          'user.a IN user.b', 'object.c']
    n = 5 if THOROUGH else 4
    for p in product(cs, repeat=n):
        yield ' AND '.join(p)


def many_gen():
    """long policies: many warnings, many attributes, long names"""
    for n in list(range(1, 12)) + [31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 140]:
        yield ' AND '.join('user.a%d = %s' % (i % (n // 2 + 1), '1' if i % 2 else '"s"') for i in range(n))
        yield ' AND '.join(['user.a = 1'] + ['user.a = "s"'] * n)
        yield ' OR '.join('"s" = user.x%d' % i for i in range(n)) + ' OR user.x%d = 1' % (n - 1)
        yield 'user.a = 1' + ' AND user.b = user.a' * n + ' AND user.b = "s"'
        for name in ('n' * n, 'n' * n + '_1', 'a' + '9' * n):
            yield 'user.%s = 1 AND user.%s = "s"' % (name, name)
            yield 'user.%s = 1 AND user.%sx = "s" AND user.%sy = user.%sx' % (name, name, name, name)
            yield 'user.%s = 1 AND object.%s = "s" AND user.%s = 2.5' % (name, name, name.upper())


def bare_gen():
    """attributes that are conditions themselves"""
    pieces = ['user.a', 'object.b', 'USER.A', 'user.a = 1', '"s" != object.b', 'env.c IN {1}', 'TRUE']
    for n in (1, 2, 3):
        for p in product(pieces, repeat=n):
            for c in (' AND ', ' OR '):
                yield c.join(p)
                yield 'NOT (%s)' % c.join(p)
    for a in ('user.a', 'object.b', 'env.c', 'admin.d', 'connect.e'):
        yield a
        yield 'NOT ' + a
        yield '((%s))' % a
        yield 'NOT (NOT %s)' % a


def one(ctx, text):
    check_issues(ctx, text)


def run(chk):
    chk.bounds = {'attributes': 3, 'comparisons_per_policy': 5 if THOROUGH else 4}
    chk.assumptions = ['inference is left to right in one pass, as documented in the code (chains of attributes are not solved)']
    chk.explore('attributes as conditions', bare_gen, one)
    chk.explore('many and long', many_gen, one)
    chk.explore('pairs', pair_gen, one)
    chk.explore('triples', triple_gen, one)
    chk.explore('longer chains', quad_gen, one)
