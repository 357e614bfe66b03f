"""Hash-consed terms: the nodes of the value graph.

A term is an operator and a tuple of arguments; arguments are terms or plain
Python constants (str, int, float, bool, None, bytes, Fraction).  Equal terms
are the same object, so equality of values that were computed by the same
operations from the same sources is identity, however the program names,
orders or factors the statements that compute them.
"""
from fractions import Fraction

_TABLE = {}


class T(object):
    __slots__ = ('op', 'args', '_h', '_fv', '__weakref__')

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, tuple((a, type(a)) if not isinstance(a, T) else a
                     for a in args))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._h = hash(key)
        t._fv = None
        _TABLE[key] = t
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == 'const' and isinstance(
        t.args[0], (int, float, Fraction)) and not isinstance(
            t.args[0], bool)


def opaque(why, *args):
    return mk('opaque', why, *args)


def subterms(t, seen=None):
    """Every distinct subterm of t, t included."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def contains(t, pred):
    for s in subterms(t):
        if pred(s):
            return True
    return False


def has_opaque(t):
    return contains(t, lambda s: s.op == 'opaque')


# operators whose last argument is the index symbol they bind
BINDERS = frozenset(('sumf', 'prodf', 'extf', 'map', 'fmap', 'flatmap',
                     'joinmap', 'dictmap', 'forall', 'exists', 'fold',
                     'firstwhere', 'lastof'))


def subst(t, mapping, memo=None):
    """Replace subterms according to mapping (term -> term)."""
    if memo is None:
        memo = {}
    return _subst(t, mapping, memo)


def _subst(t, mapping, memo):
    r = mapping.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS and t.args[-1] in mapping:
        inner = {k: v for k, v in mapping.items() if k is not t.args[-1]}
        r = t
        if inner:
            r = rebuild(t.op, [_subst(a, inner, {}) if isinstance(a, T)
                               else a for a in t.args])
        memo[t] = r
        return r
    changed = False
    args = []
    for a in t.args:
        if isinstance(a, T):
            b = _subst(a, mapping, memo)
            if b is not a:
                changed = True
            args.append(b)
        else:
            args.append(a)
    r = rebuild(t.op, args) if changed else t
    memo[t] = r
    return r


# smart constructors register themselves here so that substitution
# re-normalises
SMART = {}


def rebuild(op, args):
    f = SMART.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 12:
        return '...'
    op = t.op
    if op == 'const':
        return repr(t.args[0])
    if op == 'param':
        return str(t.args[0])
    if op in ('attr', 'late'):
        return '%s.%s%s' % (show(t.args[0], depth + 1), t.args[1],
                            '@build' if op == 'late' else '')
    if op == 'obj':
        return '<%s#%s>' % (str(t.args[1]).split('.')[-1], t.args[0])
    if op == 'idx':
        return str(t.args[0])
    if op == 'elem':
        return '%s[%s]' % (show(t.args[0], depth + 1), show(
            t.args[1], depth + 1))
    if op == 'tup':
        return '(' + ', '.join(show(a, depth + 1) for a in t.args) + ')'
    if op == 'ext':
        return t.args[0]
    return '%s(%s)' % (op, ', '.join(show(a, depth + 1) for a in t.args))


_KEY = {}


def key(t):
    """A deterministic sort key (independent of hash seeds)."""
    k = _KEY.get(t)
    if k is None:
        parts = []
        for a in t.args:
            if isinstance(a, T):
                parts.append(key(a))
            else:
                parts.append('%s:%r' % (type(a).__name__, a))
        k = t.op + '(' + ','.join(parts) + ')'
        if len(k) > 400:
            import hashlib
            k = t.op + '#' + hashlib.sha1(k.encode()).hexdigest()
        _KEY[t] = k
    return k
