"""Meaning of scalar, shape and guard terms under an assignment of the free
symbols.  Only integers, tuples, strings and truth values: no array is ever
built and no code of the program runs.  Anything else is Unknown."""
import string
from .terms import T, mk, is_const, cval


class Unknown(Exception):
    pass


class Fails(Exception):
    """The operation raises (index out of range, type error...)."""


class Sym(object):
    """An operand object; only its shape is known."""

    def __init__(self, label):
        self.label = label


class Obj(Sym):
    """An object the analysed code created: no other object is this one."""


OBJS = {}


def e_obj(t, env):
    r = OBJS.get(t)
    if r is None:
        r = OBJS[t] = Obj(str(t))
    return r


def same_object(a, b):
    """Are a and b, one of which is an object, the same?"""
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        return False
    if isinstance(a, Sym) and isinstance(b, Sym):
        raise Unknown('object equality')
    if isinstance(a, Sym):
        a, b = b, a
    if isinstance(a, (int, float, str, tuple, bool)) or a is None:
        return False
    raise Unknown('object equality')


def rng_values(t, env):
    a, b, c = [ev(x, env) for x in t.args]
    try:
        return list(range(a, b, c))
    except (TypeError, ValueError):
        raise Unknown('range')


def domain(dom, env):
    """Values an index symbol of this domain ranges over."""
    if dom.op == 'rng':
        return rng_values(dom, env)
    if dom.op == 'tail':
        k = dom.args[1]
        k = ev(k, env) if isinstance(k, T) else k
        n = len(seq(ev(dom.args[0], env)))
        return list(range(k, n))
    if dom.op == 'whiledom':
        raise Unknown(dom.op)
    if dom.op == 'entries':
        d = ev(dom.args[0], env)
        if not isinstance(d, dict):
            raise Unknown('dictionary')
        return list(d)
    return list(range(len(seq(ev(dom, env)))))


def seq(v):
    if isinstance(v, (tuple, list, str)):
        return v
    raise Unknown('sequence')


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v
    if v is None:
        raise Fails('None is not a number')
    raise Unknown('number')


def ev(t, env):
    r = env.get(t, env)
    if r is not env:
        return r
    f = OPS.get(t.op)
    if f is None:
        raise Unknown(t.op)
    m = env.get('$memo')
    if m is None:
        return f(t, env)
    r = m.get(t, env)
    if r is env:
        r = m[t] = f(t, env)
    return r


def e_const(t, env):
    return t.args[0]


def e_tup(t, env):
    r = []
    for a in t.args:
        if a.op == 'star':
            r.extend(seq(ev(a.args[0], env)))
        else:
            r.append(ev(a, env))
    return tuple(r)


def e_item(t, env):
    s = ev(t.args[0], env)
    k = ev(t.args[1], env)
    if isinstance(s, Sym):
        raise Unknown('item')
    if s is None or isinstance(s, (int, float)):
        raise Fails('subscript')
    if isinstance(s, dict):
        try:
            return s[k]
        except (KeyError, TypeError):
            raise Fails('key')
    s = seq(s)
    if k is None:
        raise Fails('index None')
    if isinstance(k, bool) or not isinstance(k, int):
        raise Unknown('index')
    if not -len(s) <= k < len(s):
        raise Fails('index out of range')
    return s[k]


def e_slice(t, env):
    s = seq(ev(t.args[0], env))
    a = [ev(x, env) for x in t.args[1:4]]
    for x in a:
        if x is not None and not isinstance(x, int):
            raise Unknown('slice bound')
    try:
        return s[slice(*a)]
    except ValueError:
        raise Fails('slice')


def e_cat(t, env):
    r = None
    for a in t.args:
        v = seq(ev(a, env))
        if r is None:
            r = v
        elif isinstance(r, str) and isinstance(v, str):
            r = r + v
        else:
            r = tuple(r) + tuple(v)
    return r


def e_concat(t, env):
    r = ''
    for a in t.args:
        v = ev(a, env)
        if not isinstance(v, str):
            raise Unknown('concat')
        r += v
    return r


def e_add(t, env):
    a, b = ev(t.args[0], env), ev(t.args[1], env)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
        raise Unknown('mixed add')
    return num(a) + num(b)


def arith(f):
    def g(t, env):
        a, b = num(ev(t.args[0], env)), num(ev(t.args[1], env))
        try:
            return f(a, b)
        except (ZeroDivisionError, OverflowError):
            raise Fails('arithmetic')
    return g


def e_mul(t, env):
    a, b = ev(t.args[0], env), ev(t.args[1], env)
    if isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if isinstance(b, tuple) and isinstance(a, int):
        return b * a
    return num(a) * num(b)


def e_neg(t, env):
    return -num(ev(t.args[0], env))


def e_len(t, env):
    v = ev(t.args[0], env)
    if isinstance(v, (int, float)) or v is None:
        raise Fails('len')
    return len(seq(v))


def e_eq(t, env):
    a, b = ev(t.args[0], env), ev(t.args[1], env)
    for x in (a, b):
        if isinstance(x, Sym):
            return same_object(a, b)
    if isinstance(a, (tuple, list)) != isinstance(b, (tuple, list)):
        return False
    return a == b


def e_is(t, env):
    """Identity with True or False."""
    a = ev(t.args[0], env)
    if isinstance(a, bool) or a is None or isinstance(a, (
            int, float, str, tuple, Obj)):
        return a is t.args[1].args[0]
    raise Unknown('identity')


def e_lt(t, env):
    a, b = ev(t.args[0], env), ev(t.args[1], env)
    if a is None or b is None:
        raise Fails('comparison with None')
    return num(a) < num(b)


def truthv(v):
    if isinstance(v, Sym):
        raise Unknown('truth of an object')
    if v is None or isinstance(v, (bool, int, float, str, tuple, list)):
        return bool(v)
    raise Unknown('truth')


def e_not(t, env):
    return not truthv(ev(t.args[0], env))


def e_and(t, env):
    pend = None
    for a in t.args:
        try:
            if not truthv(ev(a, env)):
                return False
        except (Unknown, Fails) as e:
            pend = pend or e
    if pend is not None:
        raise pend
    return True


def e_or(t, env):
    pend = None
    for a in t.args:
        try:
            if truthv(ev(a, env)):
                return True
        except (Unknown, Fails) as e:
            pend = pend or e
    if pend is not None:
        raise pend
    return False


def e_ite(t, env):
    if truthv(ev(t.args[0], env)):
        return ev(t.args[1], env)
    return ev(t.args[2], env)


def e_truth(t, env):
    return truthv(ev(t.args[0], env))


def e_in(t, env):
    a, s = ev(t.args[0], env), ev(t.args[1], env)
    if isinstance(s, str):
        if not isinstance(a, str):
            raise Fails('in')
        return a in s
    if isinstance(s, dict):
        try:
            return a in s
        except TypeError:
            raise Fails('in')
    late = None
    for x in seq(s):
        try:
            if isinstance(x, Sym) or isinstance(a, Sym):
                if same_object(x, a):
                    return True
            elif x == a:
                return True
        except Unknown as e:
            late = e
    if late is not None:
        raise late
    return False


def bind(dom, idx, env):
    for v in domain(dom, env):
        e = dict(env)
        e[idx] = v
        if '$memo' in e:
            e['$memo'] = {}
        yield e


def e_forall(t, env):
    pend = None
    for e in bind(t.args[1], t.args[2], env):
        try:
            if not truthv(ev(t.args[0], e)):
                return False
        except Unknown as x:
            pend = x
    if pend:
        raise pend
    return True


def e_exists(t, env):
    pend = None
    for e in bind(t.args[1], t.args[2], env):
        try:
            if truthv(ev(t.args[0], e)):
                return True
        except Unknown as x:
            pend = x
    if pend:
        raise pend
    return False


def e_map(t, env):
    return tuple(ev(t.args[0], e) for e in bind(t.args[1], t.args[2], env))


def e_fmap(t, env):
    r = []
    body, c, dom, idx = t.args
    for e in bind(dom, idx, env):
        if truthv(ev(c, e)):
            r.extend(seq(ev(body, e)))
    return tuple(r)


def e_flatmap(t, env):
    r = []
    for e in bind(t.args[1], t.args[2], env):
        r.extend(seq(ev(t.args[0], e)))
    return tuple(r)


def e_joinmap(t, env):
    r = ''
    for e in bind(t.args[1], t.args[2], env):
        v = ev(t.args[0], e)
        if not isinstance(v, str):
            raise Unknown('joinmap')
        r += v
    return r


def e_sumf(t, env):
    return sum(num(ev(t.args[0], e))
               for e in bind(t.args[1], t.args[2], env))


def e_prodf(t, env):
    r = 1
    for e in bind(t.args[1], t.args[2], env):
        r *= num(ev(t.args[0], e))
    return r


def e_dedup(t, env):
    return tuple(dict.fromkeys(seq(ev(t.args[0], env))))


def e_same(t, env):
    return ev(t.args[0], env)


def e_tolist(t, env):
    v = ev(t.args[0], env)
    return tuple(seq(v))


def e_reversed(t, env):
    return seq(ev(t.args[0], env))[::-1]


def e_sorted(t, env):
    return tuple(sorted(seq(ev(t.args[0], env))))


def e_sortedby(t, env):
    x, k = seq(ev(t.args[0], env)), seq(ev(t.args[1], env))
    if len(x) != len(k):
        raise Unknown('sort keys')
    r = truthv(ev(t.args[2], env))
    try:
        o = sorted(range(len(x)), key=lambda i: k[i], reverse=r)
    except TypeError:
        raise Unknown('sort keys')
    return tuple(x[i] for i in o)


def position(t, env, default):
    s = seq(ev(t.args[0], env))
    i = ev(t.args[1], env) if len(t.args) > 1 else default
    if isinstance(i, bool) or not isinstance(i, int):
        raise Unknown('position')
    if not -len(s) <= i < len(s):
        raise Fails('position out of range')
    return s, i % len(s)


def e_lpop(t, env):
    s, i = position(t, env, -1)
    return s[i]


def e_lrest(t, env):
    s, i = position(t, env, -1)
    return tuple(s[:i]) + tuple(s[i + 1:])


def e_lremove(t, env):
    s, x = seq(ev(t.args[0], env)), ev(t.args[1], env)
    for i, y in enumerate(s):
        if same_object(x, y) if isinstance(x, Sym) or isinstance(
                y, Sym) else x == y:
            return tuple(s[:i]) + tuple(s[i + 1:])
    raise Fails('remove')


def e_linsert(t, env):
    s = list(seq(ev(t.args[0], env)))
    i = ev(t.args[1], env)
    if isinstance(i, bool) or not isinstance(i, int):
        raise Unknown('insert')
    s.insert(i, ev(t.args[2], env))
    return tuple(s)


def e_firstwhere(t, env):
    v, g, dom, idx = t.args
    for e in bind(dom, idx, env):
        if truthv(ev(g, e)):
            return ev(v, e)
    raise Fails('nothing found')


def e_star(t, env):
    return ev(t.args[0], env)


def e_rng(t, env):
    return tuple(rng_values(t, env))


def e_intof(t, env):
    return int(num(ev(t.args[0], env)))


def e_attr(t, env):
    b = ev(t.args[0], env)
    if isinstance(b, Sym):
        r = env.get((b, t.args[1]), env)
        if r is not env:
            return r
    raise Unknown('attribute ' + str(t.args[1]))


def e_isinst(t, env):
    """Objects have the names of all their classes in the environment."""
    x = ev(t.args[0], env)
    if x is None:
        return False
    names = env.get((x, 'classes')) if isinstance(x, Sym) else None
    if names is None:
        raise Unknown('class of an object')
    return t.args[1] in names


def e_ekey(t, env):
    return ev(t.args[1], env)


def e_eval(t, env):
    d = ev(t.args[0], env)
    if not isinstance(d, dict):
        raise Unknown('dictionary')
    return d[ev(t.args[1], env)]


def e_app(t, env):
    f = t.args[0]
    if f.op in ('extm', 'attr', 'late'):
        b = ev(f.args[0], env)
        if isinstance(b, Sym):
            r = env.get((b, f.args[1] + '()'), env)
            if r is not env:
                return r
    if f.op == 'extm':
        a = [ev(x, env) for x in t.args[1:] if isinstance(x, T)]
        return strcall(b, f.args[1], a)
    raise Unknown('app')


def strcall(b, name, a):
    if isinstance(b, str) and name in (
            'split', 'replace', 'index', 'find', 'isalpha', 'strip',
            'join', 'count', 'startswith', 'endswith', 'lower', 'upper',
            'isdigit', 'lstrip', 'rstrip', 'partition'):
        try:
            r = getattr(b, name)(*a)
        except (ValueError, TypeError):
            raise Fails('str.' + name)
        return tuple(r) if isinstance(r, list) else r
    if isinstance(b, tuple) and name in ('index', 'count'):
        try:
            return getattr(b, name)(*a)
        except ValueError:
            raise Fails('index')
    raise Unknown('method ' + name)


def e_strm(t, env):
    name = t.args[0]
    a = [ev(x, env) for x in t.args[1:]]
    return strcall(a[0], name, a[1:])


def e_indexof(t, env):
    s, v = ev(t.args[0], env), ev(t.args[1], env)
    try:
        return seq(s).index(v)
    except ValueError:
        raise Fails('index')


def e_call(t, env):
    f = CALLS.get(t.args[0])
    if f is None:
        raise Unknown(t.args[0])
    names = t.args[1].split(',') if t.args[1] else []
    args = {n: ev(a, env) for n, a in zip(names, t.args[2:])}
    return f(args)


def norm_axes(o, n):
    o = (o, ) if isinstance(o, int) else tuple(o)
    r = set()
    for a in o:
        if isinstance(a, bool) or not isinstance(a, int):
            raise Unknown('axis')
        if not -n <= a < n:
            raise Fails('axis out of range')
        r.add(a % n)
    return r


def c_delete(a):
    if set(a) - {'arr', 'obj'}:
        raise Unknown('delete axis')
    s, o = seq(a['arr']), a['obj']
    if o is None:
        raise Fails('delete None')
    drop = norm_axes(o, len(s))
    return tuple(x for i, x in enumerate(s) if i not in drop)


def c_prod(a):
    if set(a) - {'a'}:
        raise Unknown('prod')
    r = 1
    v = a['a']
    if isinstance(v, int):
        return v
    for x in seq(v):
        r *= num(x)
    return r


def c_sum(a):
    if set(a) - {'a'}:
        raise Unknown('sum')
    return sum(num(x) for x in seq(a['a']))


def c_append(a):
    if set(a) - {'arr', 'values'}:
        raise Unknown('append')
    def l(v):
        return tuple(v) if isinstance(v, (tuple, list)) else (v, )
    return l(a['arr']) + l(a['values'])


def c_array(a):
    v = a.get('object', a.get('a'))
    if isinstance(v, (tuple, list)):
        return tuple(v)
    raise Unknown('array')


def c_concatenate(a):
    r = ()
    for x in seq(a['arrays']):
        r += tuple(seq(x))
    return r


def c_any(a):
    v = a['a']
    if isinstance(v, (tuple, list)):
        return any(truthv(x) for x in v)
    return truthv(v)


def c_all(a):
    v = a['a']
    if isinstance(v, (tuple, list)):
        return all(truthv(x) for x in v)
    return truthv(v)


def c_extreme(f):
    def g(a):
        v = [a.get('#0'), a.get('#1')]
        if len(a) != 2 or not all(isinstance(x, (int, float)) for x in v):
            raise Unknown('extreme')
        return f(v)
    return g


def c_broadcast_shapes(a):
    shapes = [tuple(seq(a['#%d' % i])) for i in range(len(a))] if all(
        '#%d' % i in a for i in range(len(a))) else None
    if shapes is None or not all(
            isinstance(n, int) for x in shapes for n in x):
        raise Unknown('shapes')
    r = []
    for i in range(1, max([len(x) for x in shapes] + [0]) + 1):
        ns = set(x[-i] for x in shapes if len(x) >= i) - {1}
        if len(ns) > 1:
            raise Fails('shapes cannot be broadcast')
        r.insert(0, ns.pop() if ns else 1)
    return tuple(r)


CALLS = {
    'numpy.broadcast_shapes': c_broadcast_shapes,
    'numpy.maximum': c_extreme(max), 'numpy.minimum': c_extreme(min),
    'numpy.delete': c_delete, 'numpy.prod': c_prod, 'numpy.sum': c_sum,
    'numpy.append': c_append, 'numpy.array': c_array,
    'numpy.asarray': c_array, 'numpy.concatenate': c_concatenate,
    'numpy.any': c_any, 'numpy.all': c_all,
}

OPS = {
    'obj': e_obj, 'const': e_const, 'tup': e_tup, 'item': e_item, 'slice': e_slice,
    'cat': e_cat, 'concat': e_concat, 'add': e_add,
    'sub': arith(lambda a, b: a - b), 'mul': e_mul,
    'div': arith(lambda a, b: a / b), 'mod': arith(lambda a, b: a % b),
    'floordiv': arith(lambda a, b: a // b),
    'pow': arith(lambda a, b: a ** b), 'neg': e_neg, 'len': e_len,
    'eq': e_eq, 'is': e_is, 'lt': e_lt, 'not': e_not, 'and': e_and, 'or': e_or,
    'ite': e_ite, 'truth': e_truth, 'in': e_in, 'forall': e_forall,
    'exists': e_exists, 'map': e_map, 'fmap': e_fmap,
    'flatmap': e_flatmap, 'joinmap': e_joinmap, 'sumf': e_sumf,
    'prodf': e_prodf, 'dedup': e_dedup, 'tolist': e_tolist,
    'copy': e_same, 'fromkeys': e_dedup, 'reversed': e_reversed,
    'sorted': e_sorted, 'star': e_star, 'rng': e_rng, 'intof': e_intof,
    'attr': e_attr, 'late': e_attr, 'app': e_app, 'strm': e_strm,
    'sortedby': e_sortedby, 'lpop': e_lpop, 'lrest': e_lrest,
    'lremove': e_lremove, 'linsert': e_linsert, 'firstwhere': e_firstwhere,
    'indexof': e_indexof, 'call': e_call, 'elem': e_item,
    'isinst': e_isinst, 'ekey': e_ekey, 'eval': e_eval,
}


def holds(facts, env):
    """True/False/None: do all the (term, value) facts hold?"""
    unk = False
    for c, v in facts:
        try:
            if truthv(ev(c, env)) != v:
                return False
        except Unknown:
            unk = True
        except Fails:
            return False
    return None if unk else True
