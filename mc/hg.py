"""Adapters from the public API of hgpl to the plain tuples of mc.ref."""
from mc.core import call, Violation
from mc import ref

import hgpl.lexing as lexing
import hgpl.parsing as parsing
import hgpl.ast as ast
import hgpl.symbols as symbols
import hgpl.semantics as semantics
import hgpl.interpreting as interpreting
import hgpl.errors as errors

TT = lexing.TokenType
ST = symbols.SymbolType
R = ast.ASTResult
LETTER = {'T': R.TRUE, 'F': R.FALSE, 'U': R.UNDEF}
NULLVAL = ast.ASTNullVal()

KIND = {'BoolOpNode': ('and', 'or'), 'NotNode': ('not',), 'OpNode': ('op',), 'BoolValNode': ('bool',),
        'IntValNode': ('int',), 'FloatValNode': ('float',), 'StringValNode': ('str',), 'NullValNode': ('null',),
        'SetNode': ('set',), 'UsrAttNode': ('att',), 'ObjAttNode': ('att',), 'AdmAttNode': ('att',),
        'ConAttNode': ('att',), 'EnvAttNode': ('att',)}
ATTCLASS = {'UsrAttNode': 'user', 'ObjAttNode': 'object', 'AdmAttNode': 'admin', 'ConAttNode': 'connect',
            'EnvAttNode': 'env'}


def tok(t):
    return (t.type.name, t.pos, t.value)


def lex(text):
    """('ok', tokens, attributes) | ('lexerr', exception) | ('crash', exception)"""
    lx = None
    try:
        lx = lexing.Lexer(text)
        lx.tokenize()
        return 'ok', [tok(t) for t in lx.toke_list()], [tok(t) for t in lx.att_list()]
    except errors.LexerError as e:
        return 'lexerr', e, lx
    except Exception as e:
        return 'crash', e, lx


def same_value(a, b):
    return type(a) is type(b) and a == b


def to_tree(node):
    """The real tree as a tuple of mc.ref; raises Violation on nodes that contradict themselves."""
    ty = node.ttype().name
    pos = node.tpos()
    v = node.tvalue()
    cls = type(node).__name__
    ch = [to_tree(c) for c in node.children()]
    if ty == 'BOOL_OP' and v in ('AND', 'OR') and len(ch) == 2:
        out = (v.lower(), pos, ch[0], ch[1])
    elif ty == 'NOT_OP' and len(ch) == 1:
        out = ('not', pos, ch[0])
    elif ty == 'OP' and len(ch) == 2:
        out = ('op', pos, v, ch[0], ch[1])
    elif ty == 'LSET':
        out = ('set', pos, tuple(ch))
    elif not ch and ref.leaf((ty, pos, v)) is not None:
        out = ref.leaf((ty, pos, v))
    else:
        raise Violation('tree has an impossible node', node=(cls, ty, pos, v, len(ch)))
    if cls in KIND and out[0] not in KIND[cls] or (cls in ATTCLASS and out[2] != ATTCLASS[cls]):
        raise Violation('node class contradicts its token', node=(cls, ty, pos, v))
    return out


def typed(t):
    """Tuple with value types made explicit (1 and 1.0 and True compare equal in Python)."""
    if isinstance(t, tuple):
        return tuple(map(typed, t))
    return (type(t).__name__, repr(t))


def parse(text):
    """('ok', node) | ('hgpl', e) | ('crash', e)"""
    try:
        return 'ok', parsing.Parser(lexing.Lexer(text)).parse()
    except errors.HGPLError as e:
        return 'hgpl', e
    except Exception as e:
        return 'crash', e


def must_parse(text):
    k, n = parse(text)
    if k != 'ok':
        raise Violation('valid policy rejected', policy=text, error=n)
    return n


def sym_value(v):
    """A reference value as the Python value a caller hands to a symbol table."""
    if v is ref.NULL:
        return NULLVAL
    if isinstance(v, (set, frozenset)):
        return {sym_value(x) for x in v}
    if isinstance(v, list):
        return [sym_value(x) for x in v]
    return v


def symbol(name, tv):
    prefix, att = name.split('.', 1)
    return symbols.Symbol(att, TT[ref.ATT_PREFIX[prefix.lower()]], ST[tv[0]], sym_value(tv[1]))


def table(env):
    """Real symbol table of {'user.x': (type, value)}"""
    st = symbols.SymbolTable()
    for name, tv in env.items():
        st.define(symbol(name, tv))
    return st


def result_letter(r):
    for k, v in LETTER.items():
        if r is v:
            return k
    return None


def ref_eval(tree, env):
    """'T','F','U' or 'E' (interpreter error)"""
    try:
        return ref.evaluate(tree, env)
    except ref.NotBoolean:
        return 'E'


def run(interp, st, *level):
    """'T','F','U','E' or raises Violation"""
    try:
        r = interp.evaluate(st, *level)
    except errors.InterpreterError as e:
        return 'E'
    except Exception as e:
        raise Violation('evaluation raised %s: %s' % (type(e).__name__, e))
    k = result_letter(r)
    if k is None:
        raise Violation('evaluation returned something that is not a decision', got=r)
    if bool(r) != (k == 'T'):
        raise Violation('truth value of a decision is wrong', got=r)
    return k


def decide(text_or_node, env, st=None):
    node = must_parse(text_or_node) if isinstance(text_or_node, str) else text_or_node
    return run(interpreting.Interpreter(node), st if st is not None else table(env))
