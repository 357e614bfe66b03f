"""Smart constructors: booleans, joins, comparisons, sequences."""
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, is_num,
                    SMART, subst, key, subterms)

# ---------------------------------------------------------------- kinds

NUMKINDS = ('int', 'float', 'number', 'bool')

# callbacks installed by the interpreter: class qualname queries
CLASS_OF = {}          # obj term -> Class


def kind_of(t):
    """A coarse dynamic type, or None when unknown."""
    op = t.op
    if op == 'const':
        v = t.args[0]
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'float'
        if isinstance(v, str):
            return 'str'
        return None
    if op == 'param':
        k = t.args[1]
        return None if k == 'any' else k
    if op == 'obj':
        return 'obj'
    if op in ('tup', 'vars'):
        return 'tuple'
    if op in ('cell',):
        return t.args[1]
    if op in ('attr', 'late'):
        if t.args[1] == 'shape':
            return 'tuple'
        b = kind_of(t.args[0])
        if b == 'Variable' or b == 'obj':
            if t.args[1] == 'name':
                return 'str'
        return None
    if op == 'item':
        b = t.args[0]
        if b.op == 'param' and b.args[1] == 'vars':
            return 'Variable'
        if kind_of(b) == 'tuple' and b.op in ('attr',):
            return 'int'
        if b.op == 'param' and b.args[1] == 'shape':
            return 'int'
        return None
    if op == 'slice':
        return kind_of(t.args[0])
    if op == 'idx' or op == 'len':
        return 'int'
    if op == 'clo' or op == 'bound':
        return 'function'
    if op == 'map':
        return 'list'
    if op == 'ite':
        a, b = kind_of(t.args[1]), kind_of(t.args[2])
        return a if a == b else None
    if op in ('add', 'mul', 'neg', 'sub'):
        ks = [kind_of(a) for a in t.args]
        if all(k in NUMKINDS for k in ks):
            return 'number' if 'int' not in ks or len(set(ks)) > 1 else 'int'
        if op == 'add' and len(set(ks)) == 1 and ks[0] in ('str', 'list',
                                                            'tuple'):
            return ks[0]
        return None
    if op == 'item' and t.args[0].op == 'call' and \
            t.args[0].args[0] == 'numpy.unravel_index':
        return 'ndarray'
    if op in ('eq', 'lt', 'not', 'and', 'or', 'isinst', 'in'):
        return 'bool'
    if op == 'fmt':
        return 'str'
    if op == 'call':
        f = t.args[0]
        if f in ('numpy.prod',):
            return 'number'
        if f.startswith('numpy.') and f.split('.')[-1] in (
                'arange', 'ones', 'zeros', 'array', 'ravel', 'reshape',
                'repeat', 'tile', 'transpose', 'full', 'eye', 'asarray',
                'delete', 'append', 'concatenate', 'flatten', 'einsum',
                'tensordot', 'outer', 'cross', 'where', 'zeros_like',
                'ones_like', 'full_like', 'sort', 'argsort', 'hstack',
                'vstack', 'stack', 'broadcast_to', 'ravel_multi_index',
                'atleast_1d', 'atleast_2d', 'atleast_3d', 'expand_dims',
                'squeeze', 'copy', 'ascontiguousarray', 'asfortranarray',
                'empty', 'empty_like', 'identity', 'linspace', 'diag',
                'flip', 'roll', 'moveaxis', 'swapaxes', 'unique', 'kron',
                'argwhere', 'asanyarray', 'fromiter'):
            return 'ndarray'
        return None
    return None


# ------------------------------------------------------------- booleans

def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'const':
        return const(not a.args[0])
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return mk('not', a)


def and_(*xs):
    out = []
    for x in xs:
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x in res:
            continue
        if not_(x) in res:
            return FALSE
        res.append(x)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    res.sort(key=key)
    return mk('and', *res)


def or_(*xs):
    out = []
    for x in xs:
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x in res:
            continue
        if not_(x) in res:
            return TRUE
        res.append(x)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    res.sort(key=key)
    return mk('or', *res)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_boolish(a) and is_boolish(b):
        return or_(and_(c, a), and_(not_(c), b))
    a = assume1(a, c, True)
    b = assume1(b, c, False)
    if a is b:
        return a
    return mk('ite', c, a, b)


def is_boolish(t):
    return t is TRUE or t is FALSE or t.op in (
        'eq', 'lt', 'not', 'and', 'or', 'isinst', 'in')


def truth(t):
    """The truth value of t as a condition term."""
    if t.op == 'const':
        return const(bool(t.args[0]))
    if is_boolish(t):
        return t
    if t.op in ('tup', 'dict'):
        return const(len(t.args) > 0)
    if t.op in ('obj', 'dset', 'clo', 'bound', 'cls', 'ext'):
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return mk('truth', t)


_BASE_DISJOINT = {
    'Variable': 'Variable', 'obj': None, 'number': 'num', 'int': 'num',
    'float': 'num', 'bool': 'num', 'ndarray': 'ndarray', 'str': 'str',
    'tuple': 'tuple', 'list': 'list', 'dict': 'dict', 'none': 'none',
    'function': 'function', 'slice': 'slice', 'other': 'other',
    'vars': 'tuple', 'shape': 'tuple', 'set': 'set', 'ints': 'tuple',
}


def _distinct(a, b):
    """a and b certainly differ."""
    if a.op == 'const' and b.op == 'const':
        try:
            return a.args[0] != b.args[0]
        except Exception:
            return False
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        return False
    if ka == 'none' or kb == 'none':
        return ka != kb
    fa, fb = _BASE_DISJOINT.get(ka), _BASE_DISJOINT.get(kb)
    if fa and fb and fa != fb and 'ndarray' not in (fa, fb):
        return True
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return True
        return any(_distinct(x, y) for x, y in zip(a.args, b.args))
    if a.op == 'obj' and b.op == 'obj':
        return True
    # names of distinct operands are distinct
    if (a.op == b.op == 'late' and a.args[1] == b.args[1] == 'name'):
        return _distinct_exprs(a.args[0], b.args[0])
    if a.op == 'obj' or b.op == 'obj':
        return _distinct_exprs(a, b)
    return False


def _distinct_exprs(a, b):
    if a is b:
        return False
    if a.op == 'obj' or b.op == 'obj':
        return a.op in ('obj', 'param', 'item') and b.op in ('obj', 'param',
                                                             'item')
    if a.op == 'param' and b.op == 'param':
        return True
    if a.op == 'item' and b.op == 'item' and a.args[0] is b.args[0]:
        x, y = a.args[1], b.args[1]
        if is_const(x) and is_const(y):
            return cval(x) != cval(y)
    return False


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'len' and x.args[0].op == 'param' and is_num(y) and \
                len(x.args[0].args) > 2 and cval(y) < x.args[0].args[2]:
            return FALSE
    if _distinct(a, b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and (is_const(y) or y.op in ('tup', )):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if is_const(b) and isinstance(b.args[0], bool) and is_boolish(a):
        return a if b.args[0] else not_(a)
    if is_const(a) and isinstance(a.args[0], bool) and is_boolish(b):
        return b if a.args[0] else not_(b)
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if key(b) < key(a):
        a, b = b, a
    return mk('eq', a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if is_num(a) and is_num(b):
        return const(cval(a) < cval(b))
    if a.op == 'ite' and is_const(b):
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    # lengths are integers >= 0: normalise  k < len  (k const) to not len < k+1
    if is_num(a) and _intlike(b):
        return not_(lt(b, const(int(cval(a)) + 1)))
    if _intlike(a) and is_num(b) and cval(b) <= 0 and a.op == 'len':
        return FALSE
    if (a.op == 'len' and a.args[0].op == 'param' and is_num(b)
            and len(a.args[0].args) > 2
            and cval(b) <= a.args[0].args[2]):
        return FALSE
    return mk('lt', a, b)


def _intlike(t):
    return t.op == 'len' or t.op == 'idx' or kind_of(t) == 'int'


def length(t):
    if t.op == 'tup':
        if any(isinstance(a, T) and a.op == 'star' for a in t.args):
            return mk('len', t)
        return const(len(t.args))
    if t.op == 'const' and isinstance(t.args[0], str):
        return const(len(t.args[0]))
    if t.op == 'dict' and all(is_const(k) for k in t.args[::2]):
        return const(len(set(t.args[::2])))
    if t.op == 'map':
        return length(t.args[1])
    if t.op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == 'add' and all(x.op == 'tup' for x in t.args):
        return const(sum(len(x.args) for x in t.args))
    if t.op == 'reversed':
        return length(t.args[0])
    if t.op == 'setof' and t.args[0].op == 'tup' and all(
            is_const(a) for a in t.args[0].args):
        return const(len(set(a.args[0] for a in t.args[0].args)))
    return mk('len', t)


# ------------------------------------------------------------- sequences

def item(x, i):
    if x.op == 'tup' and is_const(i) and isinstance(cval(i), int):
        n = len(x.args)
        if -n <= cval(i) < n:
            return x.args[cval(i)]
    if x.op == 'const' and isinstance(x.args[0], str) and is_const(i):
        try:
            return const(x.args[0][cval(i)])
        except Exception:
            pass
    if x.op == 'ite':
        return ite(x.args[0], item(x.args[1], i), item(x.args[2], i))
    if x.op == 'map':
        # map(body, domain, idx): element i
        body, dom, ix = x.args
        return subst(body, {ix: reindex(dom, i)})
    if x.op == 'rng' and x.args[0] is const(0) and x.args[2] is const(1) \
            and i.op == 'idx':
        return i
    if x.op == 'slice' and x.args[1].op == 'const' and x.args[2] is NONE \
            and x.args[3] is NONE:
        a = x.args[1].args[0] or 0
        if (is_const(i) and isinstance(cval(i), int) and cval(i) >= 0
                and a >= 0):
            return item(x.args[0], const(cval(i) + a))
    if x.op == 'add' and x.args[0].op == 'tup' and is_const(i) and \
            isinstance(cval(i), int) and 0 <= cval(i) < len(x.args[0].args):
        return x.args[0].args[cval(i)]
    return mk('item', x, i)


def reindex(dom, i):
    return i


def slice_(x, a, b, c):
    if c is not NONE and is_const(c) and cval(c) == 1:
        c = NONE
    if a.op == 'const' and a.args[0] == 0 and not isinstance(a.args[0], bool):
        a = NONE
    if a is NONE and b is NONE and c is NONE:
        return x
    if is_const(a) and is_const(b) and is_const(c):
        s = slice(cval(a), cval(b), cval(c))
        if x.op == 'tup':
            try:
                return mk('tup', *x.args[s])
            except Exception:
                pass
        if x.op == 'const' and isinstance(x.args[0], str):
            return const(x.args[0][s])
    if x.op == 'ite':
        return ite(x.args[0], slice_(x.args[1], a, b, c),
                   slice_(x.args[2], a, b, c))
    return mk('slice', x, a, b, c)


def add(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) + cval(b))
    ka, kb = kind_of(a), kind_of(b)
    if a.op == 'const' and b.op == 'const' and isinstance(a.args[0], str) \
            and isinstance(b.args[0], str):
        return const(a.args[0] + b.args[0])
    if a.op == 'tup' and b.op == 'tup':
        return mk('tup', *(a.args + b.args))
    if is_num(a) and cval(a) == 0 and ka == 'int' and kb in NUMKINDS:
        return b
    if is_num(b) and cval(b) == 0 and kb == 'int' and ka in NUMKINDS:
        return a
    return mk('add', a, b)


def mul(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) * cval(b))
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and isinstance(x.args[0], int) and y.op == 'tup' \
                and not isinstance(x.args[0], bool):
            return mk('tup', *(y.args * x.args[0]))
        if x.op == 'const' and isinstance(x.args[0], int) and \
                y.op == 'const' and isinstance(y.args[0], str):
            return const(y.args[0] * x.args[0])
    return mk('mul', a, b)


def sub(a, b):
    if is_num(a) and is_num(b):
        return const(cval(a) - cval(b))
    return mk('sub', a, b)


def div(a, b):
    return mk('div', a, b)


def neg(a):
    if is_num(a):
        return const(-cval(a))
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', a)


def attr(x, name):
    return mk('attr', x, name)


# ---------------------------------------------------------- assumptions

def assume1(t, c, val):
    return assume(t, ((c, val),))


def fact_map(facts):
    """facts: iterable of (cond, bool) -> mapping of condition terms."""
    m = {}
    todo = list(facts)
    while todo:
        c, v = todo.pop()
        if c.op == 'not':
            todo.append((c.args[0], not v))
            continue
        if c.op == 'and' and v:
            todo.extend((x, True) for x in c.args)
        if c.op == 'or' and not v:
            todo.extend((x, False) for x in c.args)
        if c.op == 'const':
            continue
        m[c] = TRUE if v else FALSE
        # len(x) == n decides comparisons of len(x)
        if c.op == 'eq' and v:
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if is_const(y) and x.op in ('len', 'param', 'attr', 'item'):
                    m[x] = y
    # disjunctions with all but one disjunct false
    changed = True
    while changed:
        changed = False
        for c in list(m):
            v = m[c]
            if v is TRUE and c.op == 'or':
                rest = [x for x in c.args if m.get(x) is not FALSE
                        and not (x.op == 'not' and m.get(x.args[0]) is TRUE)]
                if len(rest) == 1:
                    r, rv = rest[0], TRUE
                    if r.op == 'not':
                        r, rv = r.args[0], FALSE
                    if r not in m:
                        m[r] = rv
                        changed = True
            if v is FALSE and c.op == 'and':
                rest = [x for x in c.args if m.get(x) is not TRUE
                        and not (x.op == 'not' and m.get(x.args[0]) is FALSE)]
                if len(rest) == 1:
                    r, rv = rest[0], FALSE
                    if r.op == 'not':
                        r, rv = r.args[0], TRUE
                    if r not in m:
                        m[r] = rv
                        changed = True
    return m


def assume(t, facts):
    facts = tuple(facts)
    if not facts:
        return t
    m = fact_map(facts)
    if not m:
        return t
    prev = None
    n = 0
    while prev is not t and n < 4:
        prev = t
        t = subst(t, m)
        n += 1
    return t


SMART.update({
    'not': not_, 'and': and_, 'or': or_, 'ite': ite, 'eq': eq, 'lt': lt,
    'len': length, 'item': item, 'slice': slice_, 'add': add, 'mul': mul,
    'sub': sub, 'neg': neg, 'truth': truth,
})
