"""Meaning of array terms of the value graph over the domain of algebraic
normal forms.

Entries of an array are exact integers and rationals, truth values, or
scalar.N expressions over the entries of the operands.  The shapes are
concrete.  Nothing of the analysed program is executed: the terms are the
value graph extracted from its source, and the functions below are the
definitions of the NumPy operations that occur in it.  An operation outside
of this list is Unknown; an operation that NumPy would reject is Fails."""
import itertools
from fractions import Fraction
from . import scalar as R
from .scalar import N, NotReal
from .terms import T, mk, is_const, cval
from . import evalu as V
from .evalu import Unknown, Fails, Sym, ev, seq


class Split(Exception):
    """The value depends on a condition on the entries."""

    def __init__(self, cond):
        Exception.__init__(self, str(cond))
        self.cond = cond


class Name(object):
    """The name of an operand or result."""

    def __init__(self, sym):
        self.sym = sym

    def __eq__(self, o):
        return isinstance(o, Name) and o.sym is self.sym

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(id(self.sym))

    def __repr__(self):
        return 'name of ' + str(self.sym.label)


class Set(tuple):
    """A set, in the order of insertion."""

    def __new__(cls, xs=()):
        return tuple.__new__(cls, dict.fromkeys(xs))

    def __eq__(self, o):
        return isinstance(o, tuple) and frozenset(self) == frozenset(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(self))


def elements(v):
    if isinstance(v, Arr):
        v = tolist(v)
    if isinstance(v, dict):
        v = tuple(v)
    if not isinstance(v, (tuple, list, str)):
        raise Fails('not iterable')
    for x in v:
        if isinstance(x, (N, Arr)):
            raise Unknown('set of symbols')
    return tuple(v)


SETOPS = {
    'setunion': lambda a, b: a + b,
    'setintersection': lambda a, b: tuple(x for x in a if x in b),
    'setdifference': lambda a, b: tuple(x for x in a if x not in b),
    'setsymmetric_difference': lambda a, b: tuple(
        x for x in a if x not in b) + tuple(x for x in b if x not in a),
}


def setop(f, vals):
    r = elements(vals[0])
    for v in vals[1:]:
        r = f(r, elements(v))
    return Set(r)


class Lst(tuple):
    """A tuple that stands for a list used as a subscript."""


def size(shape):
    r = 1
    for x in shape:
        r *= x
    return r


class Arr(object):
    __slots__ = ('shape', 'data', 'kind')

    def __init__(self, shape, data, kind=None):
        self.shape = tuple(shape)
        self.data = list(data)
        if size(self.shape) != len(self.data):
            raise Unknown('array size')
        if kind is None:
            kind = 'b' if self.data and all(isinstance(x, bool)
                                            for x in self.data) else (
                'i' if all(isinstance(x, int) for x in self.data) else 'f')
        self.kind = kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self.data)

    def __repr__(self):
        return 'Arr%s%s' % (self.shape, self.data)

    def like(self, data):
        return Arr(self.shape, data)

    def reshape(self, shape):
        return Arr(shape, self.data, self.kind)

    def at(self, idx):
        k = 0
        for i, n in zip(idx, self.shape):
            k = k * n + i
        return self.data[k]


MAXSIZE = 20000


def entry(v):
    """A scalar as an array entry."""
    if isinstance(v, (bool, int, Fraction, N)):
        if isinstance(v, N):
            c = v.const()
            if c is not None:
                return c
        return v
    if isinstance(v, float):
        try:
            return R.rat(v)
        except NotReal as e:
            raise Unknown(str(e))
    raise Unknown('entry')


def isnum(v):
    return isinstance(v, (bool, int, float, Fraction, N))


def arr(v):
    """v as an array."""
    if isinstance(v, Arr):
        return v
    if isnum(v):
        return Arr((), [entry(v)], 'b' if isinstance(v, bool) else
                   'i' if isinstance(v, int) else 'f')
    if isinstance(v, (tuple, list)):
        parts = [arr(x) for x in v]
        if not parts:
            return Arr((0, ), [], 'f')
        s = parts[0].shape
        if any(p.shape != s for p in parts):
            raise Fails('ragged array')
        return Arr((len(parts), ) + s, [x for p in parts for x in p.data])
    raise Unknown('array')


def out(a):
    """Zero-dimensional results are scalars."""
    if isinstance(a, Arr) and a.shape == ():
        x = a.data[0]
        if isinstance(x, Fraction) and x.denominator == 1 and \
                a.kind == 'i':
            return int(x)
        return x
    return a


def involved(v):
    return isinstance(v, (Arr, N, Fraction))


# ------------------------------------------------------- entry arithmetic
def guard(f):
    def g(*a):
        try:
            return f(*a)
        except NotReal as e:
            raise Unknown(str(e))
        except (ZeroDivisionError, OverflowError):
            raise Unknown('not finite')
    return g


def plain(*v):
    return all(isinstance(x, (bool, int, Fraction)) for x in v)


def un(v):
    """N constants become rationals."""
    if isinstance(v, N):
        c = v.const()
        if c is not None:
            return c
    return v


@guard
def x_add(a, b):
    if plain(a, b):
        return a + b
    return un(R.add(R.lift(a), R.lift(b)))


@guard
def x_sub(a, b):
    if plain(a, b):
        return a - b
    return un(R.lift(a) - R.lift(b))


@guard
def x_mul(a, b):
    if plain(a, b):
        return a * b
    return un(R.mul(R.lift(a), R.lift(b)))


@guard
def x_div(a, b):
    if plain(b):
        if b == 0:
            raise Unknown('division by zero')
        if plain(a):
            return Fraction(a) / Fraction(b)
        return un(R.scale(R.lift(a), 1 / Fraction(b)))
    return un(R.mul(R.lift(a), R.power(R.lift(b), Fraction(-1))))


@guard
def x_pow(a, b):
    if plain(a, b):
        if isinstance(b, int) or Fraction(b).denominator == 1:
            if a == 0 and b < 0:
                raise Unknown('division by zero')
            b = int(b)
            if b < 0:
                return Fraction(a) ** b
            return a ** b
        if a < 0:
            raise Unknown('root of a negative number')
    e = Fraction(b) if plain(b) else R.enorm(R.lift(b))
    return un(R.power(R.lift(a), e))


@guard
def x_neg(a):
    if plain(a):
        return -a
    return un(-a)


@guard
def x_mod(a, b):
    if plain(a, b):
        return a % b
    raise Unknown('mod')


@guard
def x_floordiv(a, b):
    if plain(a, b):
        return a // b
    raise Unknown('floordiv')


def sign_of(d):
    """Sign of an expression when it is evident."""
    d = un(d)
    if plain(d):
        return (d > 0) - (d < 0)
    return None


class Cond(object):
    """a < b, or a == b, on entries that are not constants."""
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def key(self):
        return (self.op, self.a, self.b)

    def __str__(self):
        return '%s %s %s' % (R.show(self.a), self.op, R.show(self.b))


ASSUME = []          # stack of [(Cond, bool)]


def decide(c):
    for d, v in (ASSUME[-1] if ASSUME else ()):
        if d.key() == c.key():
            return v
        if c.op == d.op == 'lt' and v and d.a == c.b and d.b == c.a:
            return False
        if c.op == 'eq' and d.op == 'lt' and v and {d.a, d.b} == {c.a, c.b}:
            return False
        if c.op == d.op == 'eq' and {d.a, d.b} == {c.a, c.b}:
            return v
    raise Split(c)


def x_lt(a, b):
    if plain(a, b):
        return a < b
    d = R.lift(a) - R.lift(b)
    s = sign_of(d)
    if s is not None:
        return s < 0
    return decide(Cond('lt', R.lift(a), R.lift(b)))


def x_eq(a, b):
    if plain(a, b):
        return a == b
    d = R.lift(a) - R.lift(b)
    s = sign_of(d)
    if s is not None:
        return s == 0
    return decide(Cond('eq', R.lift(a), R.lift(b)))


def x_truth(a):
    if plain(a):
        return bool(a)
    return not x_eq(a, 0)


@guard
def x_max(xs):
    xs = list(xs)
    if plain(*xs):
        return max(xs)
    return un(R.maximum([R.lift(x) for x in xs]))


@guard
def x_min(xs):
    xs = list(xs)
    if plain(*xs):
        return min(xs)
    return un(-R.maximum([-R.lift(x) for x in xs]))


EXPS = []          # lists that collect the arguments of exponentials


@guard
def x_fn(name, a):
    if EXPS and name in ('exp', 'expm1', 'exp2', 'cosh', 'sinh'):
        EXPS[-1].append((name, a))
    if plain(a):
        if name in ('abs', 'fabs', 'absolute'):
            return abs(a)
        if name == 'sign':
            return (a > 0) - (a < 0)
    if name == 'sign' or name == 'abs':
        pass
    return un(R.fn(name, R.lift(a)))


def x_sum(xs):
    xs = list(xs)
    if plain(*xs):
        return sum(xs)
    try:
        return un(R.addn([R.lift(x) for x in xs]))
    except NotReal as e:
        raise Unknown(str(e))


# ----------------------------------------------------------- array algebra
def strides(shape):
    s = []
    k = 1
    for n in reversed(shape):
        s.append(k)
        k *= n
    return tuple(reversed(s))


def indices(shape):
    return itertools.product(*[range(n) for n in shape])


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    r = [1] * n
    for s in shapes:
        for i, d in enumerate(s):
            k = n - len(s) + i
            if r[k] == 1:
                r[k] = d
            elif d not in (1, r[k]):
                raise Fails('operands with shapes %s cannot be broadcast'
                            % (', '.join(map(str, shapes)), ))
    return tuple(r)


def broadcast(a, shape):
    if a.shape == tuple(shape):
        return a
    if len(a.shape) > len(shape):
        raise Fails('broadcast %s to %s' % (a.shape, shape))
    off = len(shape) - len(a.shape)
    st = strides(a.shape)
    step = [0] * len(shape)
    for i, d in enumerate(a.shape):
        if d == shape[off + i]:
            step[off + i] = st[i] if d != 1 else 0
        elif d != 1:
            raise Fails('broadcast %s to %s' % (a.shape, tuple(shape)))
    if size(shape) > MAXSIZE:
        raise Unknown('too large')
    return Arr(shape, [a.data[sum(i * s for i, s in zip(ix, step))]
                       for ix in indices(shape)], a.kind)


def elementwise(f, *args):
    args = [arr(a) for a in args]
    s = bshape(*[a.shape for a in args])
    bs = [broadcast(a, s) for a in args]
    return Arr(s, [f(*x) for x in zip(*[b.data for b in bs])])


def typed(op, vals, r):
    """The result of an operation on arrays of unsigned integers (of eight
    bits) or truth values, which has the type of the operands."""
    kinds = set(v.kind for v in vals if isinstance(v, Arr))
    if not kinds & set('ub') or op in ('div', 'lt', 'eq'):
        return r
    rest = [v for v in vals if not isinstance(v, Arr)]
    if 'f' in kinds or any(not isinstance(v, (bool, int)) for v in rest):
        return r
    if 'i' in kinds:
        return r
    if 'u' in kinds:
        if any(not 0 <= v < 256 for v in rest):
            raise Fails('integer out of bounds')
        if not plain(*r.data):
            raise Unknown('unsigned')
        return Arr(r.shape, [int(x) % 256 for x in r.data], 'u')
    if all(isinstance(v, bool) for v in rest):
        if op in ('neg', 'sub'):
            raise Fails('%s of truth values' % op)
        if op in ('add', 'mul'):
            return Arr(r.shape, [x != 0 for x in r.data], 'b')
        raise Unknown(op + ' of truth values')
    return r


def axis_norm(ax, n):
    if isinstance(ax, Fraction) and ax.denominator == 1:
        ax = int(ax)
    if isinstance(ax, bool) or not isinstance(ax, int):
        raise Unknown('axis')
    if not -n <= ax < n:
        raise Fails('axis %d of an array with %d axes' % (ax, n))
    return ax % n


def axes_of(ax, n):
    if isinstance(ax, Arr):
        ax = tuple(ax.data)
    if isinstance(ax, (tuple, list)):
        r = [axis_norm(x, n) for x in ax]
        if len(set(r)) != len(r):
            raise Fails('repeated axis')
        return r
    return [axis_norm(ax, n)]


def reduce_(f, a, axis, keep=False):
    a = arr(a)
    ax = list(range(a.ndim)) if axis is None else axes_of(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in ax]
    shape = tuple(a.shape[i] for i in rest)
    cells = {}
    for k, ix in enumerate(indices(a.shape)):
        cells.setdefault(tuple(ix[i] for i in rest), []).append(a.data[k])
    data = []
    for ix in indices(shape):
        c = cells.get(ix, [])
        data.append(f(c))
    r = Arr(shape, data)
    if keep:
        r = r.reshape(tuple(1 if i in ax else a.shape[i]
                            for i in range(a.ndim)))
    return r


def transpose(a, axes=None):
    if axes is None:
        ax = list(range(a.ndim))[::-1]
    else:
        ax = axes_of(axes, a.ndim)
        if len(ax) != a.ndim:
            raise Fails('axes do not match array')
    shape = tuple(a.shape[i] for i in ax)
    inv = [0] * a.ndim
    for i, k in enumerate(ax):
        inv[k] = i
    return Arr(shape, [a.at(tuple(ix[inv[k]] for k in range(a.ndim)))
                       for ix in indices(shape)], a.kind)


def shape_arg(v):
    if isinstance(v, Arr):
        v = tuple(v.data) if v.ndim else v.data[0]
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    if isinstance(v, bool):
        raise Unknown('shape')
    if isinstance(v, int):
        v = (v, )
    if isinstance(v, (tuple, list)):
        r = []
        for x in v:
            if isinstance(x, Arr) and x.size == 1:
                x = x.data[0]
            if isinstance(x, Fraction):
                if x.denominator != 1:
                    raise Fails('shape')
                x = int(x)
            if isinstance(x, float):
                raise Fails('a float in a shape')
            if not isinstance(x, int):
                raise Unknown('shape')
            r.append(x)
        if size([abs(x) for x in r]) > MAXSIZE:
            raise Unknown('too large')
        return tuple(r)
    raise Unknown('shape')


def reshape(a, shape):
    shape = list(shape_arg(shape))
    if shape.count(-1) == 1:
        k = shape.index(-1)
        rest = size(shape[:k] + shape[k + 1:])
        if rest == 0 or a.size % rest:
            raise Fails('cannot reshape array of size %d' % a.size)
        shape[k] = a.size // rest
    if any(x < 0 for x in shape) or size(shape) != a.size:
        raise Fails('cannot reshape array of shape %s into %s'
                    % (a.shape, tuple(shape)))
    return a.reshape(tuple(shape))


def index(a, key):
    """a[key] -> (shape, flat positions)."""
    return select(a.shape, key)


def as_slice(k):
    if isinstance(k, slice):
        def f(x):
            if isinstance(x, Fraction) and x.denominator == 1:
                return int(x)
            if isinstance(x, Arr) and x.size == 1:
                x = x.data[0]
            if x is not None and not isinstance(x, int):
                raise Unknown('slice bound')
            return x
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def select(shape, key):
    """Shape and flat positions of the entries a subscript selects."""
    if not isinstance(key, tuple) or isinstance(key, Lst):
        key = (key, )
    ks = []
    for k in key:
        k = as_slice(k)
        if isinstance(k, (Lst, tuple, list)):
            k = arr(tuple(k))
            if k.kind == 'f' and k.size:
                raise Fails('index is not an integer')
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, float):
            raise Fails('index is not an integer')
        if isinstance(k, (N, str)) or isinstance(k, Fraction):
            raise Unknown('index')
        if isinstance(k, Arr) and k.kind == 'b' and k.shape:
            pos = [ix for ix, v in zip(indices(k.shape), k.data) if v]
            for d in range(k.ndim):
                ks.append(Arr((len(pos), ), [p[d] for p in pos], 'i'))
            continue
        if isinstance(k, bool):
            raise Unknown('bool index')
        if isinstance(k, Arr):
            if any(not isinstance(x, int) for x in k.data):
                if all(isinstance(x, Fraction) and x.denominator == 1
                       for x in k.data) and k.kind == 'i':
                    k = Arr(k.shape, [int(x) for x in k.data], 'i')
                elif plain(*k.data) and k.kind == 'f':
                    raise Fails('index is not an integer')
                else:
                    raise Unknown('index array')
        if isinstance(k, (Sym, Name)):
            raise Unknown('index')
        ks.append(k)
    nell = sum(1 for k in ks if k is Ellipsis)
    if nell > 1:
        raise Fails('two ellipses')
    used = sum(1 for k in ks if k is not None and k is not Ellipsis)
    if used > len(shape):
        raise Fails('too many indices')
    if nell == 0:
        ks.append(Ellipsis)
    i = ks.index(Ellipsis)
    ks[i:i + 1] = [slice(None)] * (len(shape) - used)
    st = strides(shape)
    dims = []       # per key: ('new',) | ('list', positions) | ('adv', arr)
    ax = 0
    for k in ks:
        if k is None:
            dims.append(('sl', [0]))
            continue
        n = shape[ax]
        if isinstance(k, slice):
            dims.append(('sl', [x * st[ax] for x in
                                range(*k.indices(n))]))
        elif isinstance(k, int):
            if not -n <= k < n:
                raise Fails('index %d out of range for axis of length %d'
                            % (k, n))
            dims.append(('int', (k % n) * st[ax]))
        elif isinstance(k, Arr):
            for x in k.data:
                if not -n <= x < n:
                    raise Fails('index out of range')
            dims.append(('adv', Arr(k.shape, [(x % n) * st[ax]
                                              for x in k.data], 'i')))
        else:
            raise Unknown('index')
        ax += 1
    adv = [i for i, d in enumerate(dims) if d[0] == 'adv']
    if not adv:
        rshape, pos = (), [0]
        for kind, p in dims:
            if kind == 'int':
                pos = [x + p for x in pos]
            else:
                pos = [x + q for x in pos for q in p]
                rshape += (len(p), )
        return rshape, pos
    # advanced: integers take part in the broadcasting
    both = [i for i, d in enumerate(dims) if d[0] in ('adv', 'int')]
    arrs = [dims[i][1] if dims[i][0] == 'adv' else Arr((), [dims[i][1]],
                                                       'i')
            for i in both]
    bs = bshape(*[a.shape for a in arrs])
    tot = [0] * size(bs)
    for a in arrs:
        tot = [x + y for x, y in zip(tot, broadcast(a, bs).data)]
    contiguous = both == list(range(both[0], both[-1] + 1))
    groups = []
    if contiguous:
        for i, d in enumerate(dims):
            if i == both[0]:
                groups.append((bs, tot))
            elif i not in both:
                groups.append(((len(d[1]), ), d[1]))
    else:
        groups.append((bs, tot))
        for i, d in enumerate(dims):
            if i not in both:
                groups.append(((len(d[1]), ), d[1]))
    rshape, pos = (), [0]
    for s, p in groups:
        pos = [x + q for x in pos for q in p]
        rshape += tuple(s)
    return rshape, pos


def getitem(a, key):
    s, pos = select(a.shape, key)
    return out(Arr(s, [a.data[p] for p in pos], a.kind))


def setitem(a, key, v):
    s, pos = select(a.shape, key)
    v = arr(v)
    while v.ndim > len(s) and v.shape and v.shape[0] == 1:
        v = v.reshape(v.shape[1:])
    v = broadcast(v, s)
    d = list(a.data)
    for p, x in zip(pos, v.data):
        d[p] = cast(x, a.kind)
    return Arr(a.shape, d, a.kind)


def cast(x, kind):
    if kind == 'i' and not isinstance(x, int):
        return trunc(x)
    if kind == 'b' and not isinstance(x, bool):
        return x_truth(x)
    return x


def trunc(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return int(x)
    return R.fn_atom('trunc', x)


EINSUM_LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def einsum(sub, ops):
    sub = sub.replace(' ', '')
    ops = [arr(o) for o in ops]
    if '->' in sub:
        ins, o = sub.split('->')
    else:
        ins, o = sub, None
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise Fails('einsum: %d subscripts for %d operands'
                    % (len(ins), len(ops)))
    for ch in sub:
        if ch not in EINSUM_LETTERS + ',.->':
            raise Fails('einsum: subscript %r' % ch)
    ell = 0
    for t, a in zip(ins, ops):
        if '...' in t:
            n = a.ndim - len(t.replace('...', ''))
            if n < 0:
                raise Fails('einsum: too many subscripts')
            ell = max(ell, n)
        elif len(t) != a.ndim:
            raise Fails('einsum: operand has %d axes, subscripts %s'
                        % (a.ndim, t))
    ename = ['.%d' % i for i in range(ell)]

    def parts(t, n=None):
        if '...' in t:
            l, r = t.split('...')
            k = ell if n is None else n - len(l) - len(r)
            return list(l) + ename[ell - k:] + list(r)
        return list(t)
    terms = [parts(t, a.ndim) for t, a in zip(ins, ops)]
    dim = {}
    for t, a in zip(terms, ops):
        for l, d in zip(t, a.shape):
            if l in dim and dim[l] != d:
                if l[0] == '.' and 1 in (d, dim[l]):
                    dim[l] = max(d, dim[l])
                    continue
                if d == 1 or dim[l] == 1:
                    dim[l] = max(d, dim[l])
                    continue
                raise Fails('einsum: axis %s has lengths %d and %d'
                            % (l, dim[l], d))
            dim[l] = d
    if o is None:
        cnt = {}
        for t in terms:
            for l in t:
                cnt[l] = cnt.get(l, 0) + 1
        outl = ename + sorted(l for l in cnt if cnt[l] == 1
                              and l[0] != '.')
    else:
        outl = parts(o)
        for l in outl:
            if l not in dim:
                raise Fails('einsum: output subscript %s' % l)
        if len(set(outl)) != len(outl):
            raise Fails('einsum: repeated output subscript')
    summed = [l for l in dim if l not in outl]
    total = size([dim[l] for l in dim])
    if total > 40000:
        raise Unknown('too large')
    oshape = tuple(dim[l] for l in outl)
    data = []
    for ix in indices(oshape):
        b = dict(zip(outl, ix))
        acc = []
        for jx in itertools.product(*[range(dim[l]) for l in summed]):
            b.update(zip(summed, jx))
            p = 1
            for t, a in zip(terms, ops):
                e = a.at(tuple(0 if d == 1 else b[l]
                               for l, d in zip(t, a.shape)))
                if plain(e) and e == 0:
                    p = 0
                    break
                p = x_mul(p, e) if not (plain(p) and p == 1) else e
            else:
                acc.append(p)
        data.append(x_sum(acc) if acc else 0)
    return out(Arr(oshape, data))


def letters(n, start=0):
    return EINSUM_LETTERS[start:start + n]


def dot(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return out(elementwise(x_mul, a, b))
    if b.ndim == 1:
        la, lb = letters(a.ndim), letters(a.ndim)[-1]
        if a.shape[-1] != b.shape[0]:
            raise Fails('shapes %s and %s not aligned' % (a.shape, b.shape))
        return einsum('%s,%s->%s' % (la, lb, la[:-1]), [a, b])
    if a.shape[-1] != b.shape[-2]:
        raise Fails('shapes %s and %s not aligned' % (a.shape, b.shape))
    la = letters(a.ndim)
    lb = list(letters(b.ndim, a.ndim))
    lb[-2] = la[-1]
    o = la[:-1] + ''.join(lb[:-2]) + lb[-1]
    return einsum('%s,%s->%s' % (la, ''.join(lb), o), [a, b])


def matmul(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise Fails('matmul of a scalar')
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if a.ndim == 1:
        r = matmul(a.reshape((1, ) + a.shape), b)
        return r.reshape(r.shape[:-2] + r.shape[-1:])
    if b.ndim == 1:
        r = matmul(a, b.reshape(b.shape + (1, )))
        return r.reshape(r.shape[:-1])
    if a.shape[-1] != b.shape[-2]:
        raise Fails('shapes %s and %s not aligned' % (a.shape, b.shape))
    return einsum('...ij,...jk->...ik', [a, b])


def tensordot(a, b, axes=2):
    a, b = arr(a), arr(b)
    if isinstance(axes, Arr):
        axes = tolist(axes)
    if isinstance(axes, int):
        ia = list(range(a.ndim - axes, a.ndim))
        ib = list(range(axes))
    else:
        if len(axes) != 2:
            raise Fails('tensordot axes')
        ia, ib = [axes_list(x, n) for x, n in zip(axes, (a.ndim, b.ndim))]
    if len(ia) != len(ib):
        raise Fails('shape-mismatch for sum')
    for x, y in zip(ia, ib):
        if a.shape[x] != b.shape[y]:
            raise Fails('shape-mismatch for sum')
    la = list(letters(a.ndim))
    lb = list(letters(b.ndim, a.ndim))
    for x, y in zip(ia, ib):
        lb[y] = la[x]
    o = [l for i, l in enumerate(la) if i not in ia] + [
        l for i, l in enumerate(lb) if i not in ib]
    return einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(o)),
                  [a, b])


def axes_list(x, n):
    if isinstance(x, Arr):
        x = tolist(x)
    if isinstance(x, (tuple, list)):
        return [axis_norm(y, n) for y in x]
    return [axis_norm(x, n)]


def tolist(a):
    if isinstance(a, Arr):
        if a.ndim == 0:
            return a.data[0]
        n = a.shape[0]
        k = a.size // n if n else 0
        return tuple(tolist(Arr(a.shape[1:], a.data[i * k:(i + 1) * k],
                                a.kind)) for i in range(n))
    return a


def moveaxis(a, src, dst):
    s, d = axes_of(src, a.ndim), axes_of(dst, a.ndim)
    if len(s) != len(d):
        raise Fails('moveaxis')
    order = [i for i in range(a.ndim) if i not in s]
    for x, y in sorted(zip(d, s)):
        order.insert(x, y)
    return transpose(a, tuple(order))


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = arr(a), arr(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = moveaxis(a, axis_norm(axisa, a.ndim), -1)
    b = moveaxis(b, axis_norm(axisb, b.ndim), -1)
    if a.shape[-1] not in (2, 3) or b.shape[-1] not in (2, 3):
        raise Fails('cross: dimension must be 2 or 3')
    if a.shape[-1] == 2 or b.shape[-1] == 2:
        raise Unknown('cross in two dimensions')
    s = bshape(a.shape[:-1], b.shape[:-1])
    a = broadcast(a, s + (3, ))
    b = broadcast(b, s + (3, ))
    d = []
    for i in range(size(s)):
        u, w = a.data[3 * i:3 * i + 3], b.data[3 * i:3 * i + 3]
        for k in range(3):
            p, q = (k + 1) % 3, (k + 2) % 3
            d.append(x_sub(x_mul(u[p], w[q]), x_mul(u[q], w[p])))
    r = Arr(s + (3, ), d)
    return moveaxis(r, -1, axis_norm(axisc, r.ndim))


class Infinity(object):
    """The number inf, known only as the order of a norm."""


INF = Infinity()


def norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    if axis is None:
        if ord is None:
            x = x.reshape((x.size, ))
            ord = 2
        elif x.ndim > 2:
            raise Fails('norm of an array with %d axes' % x.ndim)
        elif x.ndim != 1:
            raise Unknown('matrix norm')
        axis = 0
        if keepdims:
            raise Unknown('norm keepdims')
    if isinstance(axis, (tuple, list)):
        raise Unknown('norm axes')
    if ord is None:
        ord = 2
    if ord is INF:
        return out(reduce_(lambda c: x_max([x_fn('abs', v) for v in c]), x,
                           axis, bool(keepdims)))
    if isinstance(ord, float) or isinstance(ord, N) or isinstance(
            ord, str):
        if isinstance(ord, float) and ord == int(ord):
            ord = int(ord)
        else:
            raise Unknown('norm order')
    if isinstance(ord, Fraction):
        if ord.denominator != 1:
            raise Unknown('norm order')
        ord = int(ord)
    if ord <= 0:
        raise Unknown('norm order')

    def f(c):
        s = x_sum([x_pow(x_fn('abs', v), ord) for v in c])
        return x_pow(s, Fraction(1, ord))
    return out(reduce_(f, x, axis, bool(keepdims)))


def repeat(a, repeats, axis=None):
    a = arr(a)
    if axis is None:
        a = a.reshape((a.size, ))
        axis = 0
    axis = axis_norm(axis, a.ndim)
    if isinstance(repeats, Arr):
        repeats = tuple(repeats.data) if repeats.ndim else repeats.data[0]
    if isinstance(repeats, Fraction) and repeats.denominator == 1:
        repeats = int(repeats)
    n = a.shape[axis]
    if isinstance(repeats, int):
        ix = [i for i in range(n) for _ in range(repeats)]
    elif isinstance(repeats, (tuple, list)):
        if len(repeats) == 1:
            repeats = tuple(repeats) * n
        if len(repeats) != n:
            raise Fails('repeats')
        ix = [i for i, k in zip(range(n), repeats) for _ in range(k)]
    else:
        raise Unknown('repeats')
    if a.size // max(n, 1) * len(ix) > MAXSIZE:
        raise Unknown('too large')
    return getarr(a, (slice(None), ) * axis + (Arr((len(ix), ), ix, 'i'), ))


def getarr(a, key):
    s, pos = select(a.shape, key)
    return Arr(s, [a.data[p] for p in pos], a.kind)


def tile(a, reps):
    a = arr(a)
    reps = shape_arg(reps)
    n = max(len(reps), a.ndim)
    reps = (1, ) * (n - len(reps)) + tuple(reps)
    a = a.reshape((1, ) * (n - a.ndim) + a.shape)
    if a.size * size(reps) > MAXSIZE:
        raise Unknown('too large')
    for ax, r in enumerate(reps):
        ix = list(range(a.shape[ax])) * r
        a = getarr(a, (slice(None), ) * ax + (Arr((len(ix), ), ix, 'i'), ))
    return a


def concatenate(parts, axis=0):
    parts = [arr(p) for p in parts]
    if not parts:
        raise Fails('nothing to concatenate')
    if axis is None:
        parts = [p.reshape((p.size, )) for p in parts]
        axis = 0
    axis = axis_norm(axis, parts[0].ndim)
    s = parts[0].shape
    for p in parts:
        if p.ndim != len(s) or any(i != axis and p.shape[i] != s[i]
                                   for i in range(len(s))):
            raise Fails('concatenate: shapes %s and %s' % (s, p.shape))
    ms = [moveaxis(p, axis, 0) for p in parts]
    r = Arr((sum(p.shape[axis] for p in parts), ) + ms[0].shape[1:],
            [x for m in ms for x in m.data])
    return moveaxis(r, 0, axis)


def delete(a, obj, axis=None):
    if isinstance(a, str) or (isinstance(a, tuple) and a and all(
            isinstance(x, str) for x in a)):
        drop = V.norm_axes(tuple(obj.data) if isinstance(obj, Arr)
                           else obj, len(a))
        return tuple(x for i, x in enumerate(a) if i not in drop)
    a = arr(a)
    if axis is None:
        a = a.reshape((a.size, ))
        axis = 0
    axis = axis_norm(axis, a.ndim)
    n = a.shape[axis]
    if isinstance(obj, slice):
        drop = set(range(*as_slice(obj).indices(n)))
    else:
        if isinstance(obj, Arr) and obj.kind == 'b':
            raise Unknown('delete mask')
        drop = V.norm_axes(tuple(obj.data) if isinstance(obj, Arr)
                           else obj, n)
    ix = [i for i in range(n) if i not in drop]
    return getarr(a, (slice(None), ) * axis + (Arr((len(ix), ), ix, 'i'), ))


def meshgrid(vs, indexing='xy'):
    vs = [arr(v) for v in vs]
    vs = [v.reshape((v.size, )) for v in vs]
    n = len(vs)
    shape = tuple(v.size for v in vs)
    r = []
    for k, v in enumerate(vs):
        r.append(Arr(shape, [v.data[ix[k]] for ix in indices(shape)],
                     v.kind))
    if indexing == 'xy' and n >= 2:
        p = (1, 0) + tuple(range(2, n))
        r = [transpose(a, p) for a in r]
    return tuple(r)


def fill(shape, v, kind='f'):
    return Arr(shape, [v] * size(shape), kind)


def dtype_kind(d, default='f'):
    if d is None:
        return default
    if isinstance(d, T):
        d = d.args[0] if d.op == 'ext' else None
    if isinstance(d, str):
        n = d.split('.')[-1]
        if n.startswith(('int', 'uint')):
            return 'i'
        if n.startswith(('float', 'double', 'complex')):
            return 'f'
        if n.startswith('bool'):
            return 'b'
    raise Unknown('dtype')


def astype(a, kind):
    a = arr(a)
    return Arr(a.shape, [cast(x, kind) if kind != 'f' else (
        int(x) if isinstance(x, bool) else x) for x in a.data], kind)


_FRESH = [0]


GARBAGE = [False]


def undefined(shape):
    _FRESH[0] += 1
    if GARBAGE[0]:
        # any number at all may be there: one that nobody expects
        return Arr(shape, [Fraction(7919 * (_FRESH[0] + i) + 13, 17)
                           for i in range(size(shape))], 'f')
    return Arr(shape, [R.var('undefined', '', _FRESH[0], i)
                       for i in range(size(shape))], 'f')


# ------------------------------------------------------- numpy call table
NP = {}


def npf(*names):
    def g(f):
        for n in names:
            NP['numpy.' + n] = f
        return f
    return g


def only(a, *names):
    for k, v in a.items():
        if k not in names and v is not None:
            raise Unknown('argument ' + str(k))


ELEMENTARY = ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh',
              'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'exp',
              'log', 'log10', 'log2', 'log1p', 'expm1', 'sqrt', 'square',
              'reciprocal', 'cbrt', 'abs', 'absolute', 'fabs', 'sign',
              'negative', 'positive')


def make_unary(name):
    def f(a):
        xs = positional(a)
        if len(xs) != 1:
            raise Unknown(name + ' arguments')
        k = xs[0].kind if isinstance(xs[0], Arr) else 'f'
        if name == 'negative' and k in 'ub':
            return out(typed('neg', xs, elementwise(x_neg, xs[0])))
        if name == 'reciprocal' and (k in 'iu' or isinstance(xs[0], int)):
            # integers divide to integers
            v = arr(xs[0])
            if any(x == 0 for x in v.data):
                raise Unknown('reciprocal of 0')
            return out(Arr(v.shape, [x if abs(x) == 1 else 0
                                     for x in v.data], v.kind))
        return out(elementwise(lambda v: x_fn(name, v), xs[0]))
    return f


for _n in ELEMENTARY:
    NP['numpy.' + _n] = make_unary(_n)


def positional(a):
    r = []
    i = 0
    a = dict(a)
    while '#%d' % i in a:
        r.append(a.pop('#%d' % i))
        i += 1
    for k in list(a):
        if a[k] is not None:
            raise Unknown('argument ' + k)
    return r


def make_binary(f):
    def g(a):
        xs = positional(a) if '#0' in a else [
            a[k] for k in ('x1', 'x2') if k in a]
        if len(xs) != 2:
            raise Unknown('arguments')
        return out(elementwise(f, *xs))
    return g


for _n, _f in (('add', x_add), ('subtract', x_sub), ('multiply', x_mul),
               ('divide', x_div), ('true_divide', x_div),
               ('power', x_pow), ('float_power', x_pow), ('mod', x_mod),
               ('remainder', x_mod),
               ('floor_divide', x_floordiv), ('less', x_lt),
               ('greater', lambda x, y: x_lt(y, x)),
               ('less_equal', lambda x, y: not x_lt(y, x)),
               ('greater_equal', lambda x, y: not x_lt(x, y)),
               ('equal', x_eq), ('not_equal', lambda x, y: not x_eq(x, y)),
               ('maximum', lambda x, y: x_max([x, y])),
               ('minimum', lambda x, y: x_min([x, y])),
               ('fmax', lambda x, y: x_max([x, y])),
               ('fmin', lambda x, y: x_min([x, y])),
               ('logical_and', lambda x, y: x_truth(x) and x_truth(y)),
               ('logical_or', lambda x, y: x_truth(x) or x_truth(y)),
               ('logical_xor', lambda x, y: x_truth(x) != x_truth(y))):
    NP['numpy.' + _n] = make_binary(_f)


@npf('logical_not')
def _(a):
    x, = positional(a)
    return out(elementwise(lambda v: not x_truth(v), x))


def x_invert(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return -v - 1
    raise Unknown('complement')


@npf('invert', 'bitwise_not')
def _(a):
    x, = positional(a)
    return out(elementwise(x_invert, x))


def reducer(f, *extra):
    def g(a):
        only(a, 'a', 'axis', 'keepdims', *extra)
        return out(reduce_(f, a['a'], a.get('axis'),
                           bool(a.get('keepdims'))))
    return g


def x_prod(c):
    p = 1
    for x in c:
        p = x_mul(p, x)
    return p


def x_mean(c):
    if not c:
        raise Unknown('mean of nothing')
    return x_div(x_sum(c), len(c))


def nonempty(f):
    def g(c):
        if not c:
            raise Fails('reduction of an empty array')
        return f(c)
    return g


NP['numpy.sum'] = reducer(x_sum)
NP['numpy.prod'] = NP['numpy.product'] = reducer(x_prod)
NP['numpy.mean'] = reducer(x_mean)
NP['numpy.max'] = NP['numpy.amax'] = reducer(nonempty(x_max))
NP['numpy.min'] = NP['numpy.amin'] = reducer(nonempty(x_min))
NP['numpy.any'] = reducer(lambda c: any([x_truth(x) for x in c]))
NP['numpy.all'] = reducer(lambda c: all([x_truth(x) for x in c]))
NP['numpy.count_nonzero'] = reducer(lambda c: sum([x_truth(x) for x in c]))


@npf('average')
def _(a):
    only(a, 'a', 'axis', 'keepdims', 'weights')
    if a.get('weights') is not None:
        x, w = arr(a['a']), arr(a['weights'])
        if w.shape != x.shape:
            raise Unknown('weights')
        num = reduce_(x_sum, elementwise(x_mul, x, w), a.get('axis'))
        den = reduce_(x_sum, w, a.get('axis'))
        return out(elementwise(x_div, num, den))
    return out(reduce_(x_mean, a['a'], a.get('axis'),
                       bool(a.get('keepdims'))))


@npf('sum_squares')
def _(a):
    raise Unknown('sum_squares')


@npf('flatten', 'ravel')
def _(a):
    only(a, 'a', 'order')
    x = arr(a['a'])
    o = a.get('order')
    if o in (None, 'C'):
        return x.reshape((x.size, ))
    if o == 'F':
        return transpose(x).reshape((x.size, ))
    raise Unknown('order')


@npf('reshape')
def _(a):
    only(a, 'a', 'shape', 'order')
    x = arr(a['a'])
    o = a.get('order')
    if o in (None, 'C'):
        return reshape(x, a['shape'])
    if o == 'F':
        s = shape_arg(a['shape'])
        if -1 in s:
            s = reshape(x, s).shape
        if size(s) != x.size:
            raise Fails('reshape')
        return transpose(transpose(x).reshape(tuple(s)[::-1]))
    raise Unknown('order')


@npf('transpose')
def _(a):
    only(a, 'a', 'axes')
    return transpose(arr(a['a']), a.get('axes'))


@npf('swapaxes')
def _(a):
    x = arr(a['a'])
    i, j = axis_norm(a['axis1'], x.ndim), axis_norm(a['axis2'], x.ndim)
    p = list(range(x.ndim))
    p[i], p[j] = p[j], p[i]
    return transpose(x, tuple(p))


@npf('moveaxis')
def _(a):
    return moveaxis(arr(a['a']), a['source'], a['destination'])


@npf('squeeze')
def _(a):
    only(a, 'a', 'axis')
    x = arr(a['a'])
    if a.get('axis') is None:
        return out(x.reshape(tuple(n for n in x.shape if n != 1)))
    ax = axes_of(a['axis'], x.ndim)
    if any(x.shape[i] != 1 for i in ax):
        raise Fails('squeeze')
    return out(x.reshape(tuple(n for i, n in enumerate(x.shape)
                               if i not in ax)))


@npf('expand_dims')
def _(a):
    x = arr(a['a'])
    ax = a['axis'] if isinstance(a['axis'], tuple) else (a['axis'], )
    n = x.ndim + len(ax)
    ax = axes_of(ax, n)
    it = iter(x.shape)
    return x.reshape(tuple(1 if i in ax else next(it) for i in range(n)))


@npf('atleast_1d')
def _(a):
    x = arr(positional(a)[0])
    return x if x.ndim else x.reshape((1, ))


@npf('atleast_2d')
def _(a):
    x = arr(positional(a)[0])
    return x if x.ndim > 1 else x.reshape((1, x.size))


@npf('broadcast_to')
def _(a):
    return broadcast(arr(a['array']), shape_arg(a['shape']))


@npf('ones')
def _(a):
    only(a, 'shape', 'dtype')
    k = dtype_kind(a.get('dtype'))
    return fill(shape_arg(a['shape']), True if k == 'b' else 1, k)


@npf('zeros')
def _(a):
    only(a, 'shape', 'dtype')
    k = dtype_kind(a.get('dtype'))
    return fill(shape_arg(a['shape']), False if k == 'b' else 0, k)


@npf('empty')
def _(a):
    only(a, 'shape', 'dtype')
    dtype_kind(a.get('dtype'))
    return undefined(shape_arg(a['shape']))


@npf('full')
def _(a):
    only(a, 'shape', 'fill_value', 'dtype')
    s = shape_arg(a['shape'])
    v = arr(a['fill_value'])
    k = dtype_kind(a.get('dtype'), v.kind)
    b = broadcast(v, s)
    return Arr(s, [cast(x, k) for x in b.data], k)


@npf('ones_like')
def _(a):
    only(a, 'a', 'dtype')
    x = arr(a['a'])
    return fill(x.shape, 1, dtype_kind(a.get('dtype'), x.kind))


@npf('zeros_like')
def _(a):
    only(a, 'a', 'dtype')
    x = arr(a['a'])
    return fill(x.shape, 0, dtype_kind(a.get('dtype'), x.kind))


@npf('empty_like')
def _(a):
    xs = positional(a) if '#0' in a else [a['a']]
    return undefined(arr(xs[0]).shape)


@npf('full_like')
def _(a):
    only(a, 'a', 'fill_value', 'dtype')
    x = arr(a['a'])
    k = dtype_kind(a.get('dtype'), x.kind)
    return fill(x.shape, cast(entry(a['fill_value']), k), k)


@npf('eye', 'identity')
def _(a):
    a = dict(a)
    if '#0' in a:
        a['N'] = a.pop('#0')
    if 'n' in a:
        a['N'] = a.pop('n')
    only(a, 'N', 'M', 'k', 'dtype')
    n = shape_arg(a['N'])[0]
    m = n if a.get('M') is None else shape_arg(a['M'])[0]
    k = a.get('k') or 0
    return Arr((n, m), [1 if j - i == k else 0 for i in range(n)
                        for j in range(m)], dtype_kind(a.get('dtype')))


@npf('arange')
def _(a):
    only(a, 'start', 'stop', 'step', 'dtype')
    v = []
    for k, d in (('start', 0), ('stop', None), ('step', 1)):
        x = a.get(k)
        if x is None:
            x = d
        if isinstance(x, Arr) and x.size == 1:
            x = x.data[0]
        if isinstance(x, Fraction) and x.denominator == 1:
            x = int(x)
        if isinstance(x, float) and x == int(x):
            x = int(x)
        if not isinstance(x, int):
            raise Unknown('arange')
        v.append(x)
    r = range(*v)
    if len(r) > MAXSIZE:
        raise Unknown('too large')
    return Arr((len(r), ), list(r), dtype_kind(a.get('dtype'), 'i'))


@npf('array', 'asarray', 'ascontiguousarray')
def _(a):
    a = dict(a)
    if '#0' in a:
        a['object'] = a.pop('#0')
    if 'a' in a:
        a['object'] = a.pop('a')
    v = a.pop('object')
    d = a.pop('dtype', None)
    only(a, 'copy')
    if isinstance(v, (Sym, str)) or v is None:
        raise Unknown('array')
    r = arr(v)
    if d is not None:
        r = astype(r, dtype_kind(d))
    return r


@npf('copy')
def _(a):
    return a['a']


@npf('size')
def _(a):
    x = arr(a['a'])
    if a.get('axis') is not None:
        return x.shape[axis_norm(a['axis'], x.ndim)]
    return x.size


@npf('shape')
def _(a):
    v = a.get('a', a.get('#0'))
    return arr(v).shape


@npf('ndim')
def _(a):
    return arr(a.get('a', a.get('#0'))).ndim


@npf('einsum')
def _(a):
    a = {k: v for k, v in a.items() if k != 'optimize'}
    xs = positional(a)
    if not xs or not isinstance(xs[0], str):
        raise Unknown('einsum format')
    return einsum(xs[0], xs[1:])


@npf('dot')
def _(a):
    only(a, 'a', 'b')
    return dot(a['a'], a['b'])


@npf('vdot')
def _(a):
    x, y = [arr(v) for v in positional(a)]
    return dot(x.reshape((x.size, )), y.reshape((y.size, )))


@npf('inner')
def _(a):
    x, y = [arr(v) for v in (positional(a) if '#0' in a else
                             (a['a'], a['b']))]
    if x.ndim == 0 or y.ndim == 0:
        return out(elementwise(x_mul, x, y))
    return tensordot(x, y, ((-1, ), (-1, )))


@npf('matmul')
def _(a):
    x, y = positional(a)
    return matmul(x, y)


@npf('tensordot')
def _(a):
    only(a, 'a', 'b', 'axes')
    ax = a.get('axes')
    return tensordot(a['a'], a['b'], 2 if ax is None else ax)


@npf('outer')
def _(a):
    only(a, 'a', 'b')
    x, y = arr(a['a']), arr(a['b'])
    return Arr((x.size, y.size), [x_mul(u, w) for u in x.data
                                  for w in y.data])


@npf('kron')
def _(a):
    x, y = [arr(v) for v in positional(a)]
    n = max(x.ndim, y.ndim)
    x = x.reshape((1, ) * (n - x.ndim) + x.shape)
    y = y.reshape((1, ) * (n - y.ndim) + y.shape)
    s = tuple(p * q for p, q in zip(x.shape, y.shape))
    return Arr(s, [x_mul(x.at(tuple(i // q for i, q in zip(ix, y.shape))),
                         y.at(tuple(i % q for i, q in zip(ix, y.shape))))
                   for ix in indices(s)])


@npf('cross')
def _(a):
    only(a, 'a', 'b', 'axisa', 'axisb', 'axisc', 'axis')
    d = {k: a[k] for k in ('axisa', 'axisb', 'axisc', 'axis')
         if a.get(k) is not None}
    return cross(a['a'], a['b'], **d)


@npf('linalg.norm')
def _(a):
    only(a, 'x', 'ord', 'axis', 'keepdims')
    return norm(a['x'], a.get('ord'), a.get('axis'), a.get('keepdims'))


def exact(a):
    r = []
    for x in arr(a).data:
        x = entry(x)
        if isinstance(x, (bool, int)):
            x = Fraction(int(x))
        if not isinstance(x, Fraction):
            raise Unknown('linear system with symbolic entries')
        r.append(x)
    return r


def solve(a, b):
    """Solution of a regular linear system of exact numbers."""
    a, b = arr(a), arr(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        if a.ndim > 2:
            raise Unknown('stacked linear systems')
        raise Fails('linear system of shape %s' % (a.shape, ))
    n = a.shape[0]
    if b.ndim not in (1, 2) or b.shape[0] != n:
        raise Fails('right-hand side of shape %s for a matrix of shape %s'
                    % (b.shape, a.shape))
    m = 1 if b.ndim == 1 else b.shape[1]
    x, y = exact(a), exact(b)
    rows = [x[i * n:i * n + n] + y[i * m:i * m + m] for i in range(n)]
    for c in range(n):
        p = next((i for i in range(c, n) if rows[i][c] != 0), None)
        if p is None:
            raise Unknown('singular linear system')
        rows[c], rows[p] = rows[p], rows[c]
        d = rows[c][c]
        rows[c] = [v / d for v in rows[c]]
        for i in range(n):
            if i != c and rows[i][c] != 0:
                f = rows[i][c]
                rows[i] = [v - f * w for v, w in zip(rows[i], rows[c])]
    return Arr(b.shape, [v for r in rows for v in r[n:]], 'f')


@npf('linalg.solve')
def _(a):
    only(a, 'a', 'b', '#0', '#1')
    return solve(*[a.get(k, a.get(p)) for k, p in (('a', '#0'),
                                                   ('b', '#1'))])


@npf('linalg.inv')
def _(a):
    only(a, 'a', '#0')
    m = arr(a.get('a', a.get('#0')))
    if m.ndim != 2:
        raise Unknown('inverse of a stack')
    n = m.shape[0]
    return solve(m, Arr((n, n), [int(i == j) for i in range(n)
                                 for j in range(n)]))


@npf('block')
def _(a):
    only(a, 'arrays', '#0')

    def depth(v):
        return 1 + max([depth(x) for x in v] or [0]) if isinstance(
            v, (tuple, list)) else 0

    def join(v, axis, nd):
        if axis == 0:
            if isinstance(v, (tuple, list)):
                raise Fails('block: lists of different depths')
            v = arr(v)
            return v.reshape((1, ) * (nd - v.ndim) + v.shape)
        if not isinstance(v, (tuple, list)):
            raise Fails('block: lists of different depths')
        return concatenate([join(x, axis - 1, nd) for x in v], -axis)

    def dims(v):
        return max([dims(x) for x in v] or [0]) if isinstance(
            v, (tuple, list)) else arr(v).ndim
    v = a.get('arrays', a.get('#0'))
    d = depth(v)
    return join(v, d, max(d, dims(v)))


@npf('repeat')
def _(a):
    only(a, 'a', 'repeats', 'axis')
    return repeat(a['a'], a['repeats'], a.get('axis'))


@npf('tile')
def _(a):
    only(a, 'A', 'reps')
    return tile(a['A'], a['reps'])


@npf('concatenate')
def _(a):
    only(a, 'arrays', 'axis')
    return concatenate(items(a['arrays']), a.get('axis', 0))


def items(v):
    if isinstance(v, Arr):
        return [Arr(v.shape[1:], getarr(v, i).data, v.kind)
                for i in range(v.shape[0])]
    return list(seq(v))


@npf('stack')
def _(a):
    only(a, 'arrays', 'axis')
    ps = [arr(p) for p in items(a['arrays'])]
    if len(set(p.shape for p in ps)) != 1:
        raise Fails('stack')
    ax = axis_norm(a.get('axis') or 0, ps[0].ndim + 1)
    return moveaxis(arr(tuple(ps)), 0, ax)


@npf('hstack')
def _(a):
    ps = [arr(p) for p in items(positional(a)[0])]
    ps = [p if p.ndim else p.reshape((1, )) for p in ps]
    return concatenate(ps, 0 if ps[0].ndim == 1 else 1)


@npf('vstack')
def _(a):
    ps = [arr(p) for p in items(positional(a)[0])]
    ps = [p if p.ndim > 1 else p.reshape((1, p.size)) for p in ps]
    return concatenate(ps, 0)


@npf('append')
def _(a):
    only(a, 'arr', 'values', 'axis')
    return concatenate([a['arr'] if isinstance(a['arr'], Arr) else
                        arr(a['arr']), a['values']], a.get('axis'))


@npf('delete')
def _(a):
    only(a, 'arr', 'obj', 'axis')
    return delete(a['arr'], a['obj'], a.get('axis'))


@npf('insert')
def _(a):
    xs = positional(a)
    x, i, v = xs[:3]
    x = arr(x)
    if x.ndim != 1 or not isinstance(i, int) or len(xs) != 3:
        raise Unknown('insert')
    d = list(x.data)
    d.insert(i, entry(v))
    return Arr((len(d), ), d)


@npf('take')
def _(a):
    only(a, 'a', 'indices', 'axis')
    x = arr(a['a'])
    ix = a['indices']
    if isinstance(ix, tuple):
        ix = arr(ix)
    if a.get('axis') is None:
        return getitem(x.reshape((x.size, )), ix)
    ax = axis_norm(a['axis'], x.ndim)
    return getitem(x, (slice(None), ) * ax + (ix, ))


@npf('unravel_index')
def _(a):
    only(a, 'indices', 'shape')
    s = shape_arg(a['shape'])
    x = arr(a['indices'])
    n = size(s)
    st = strides(s)
    res = []
    for k in range(len(s)):
        d = []
        for v in x.data:
            if not isinstance(v, int):
                raise Unknown('index')
            if not 0 <= v < n:
                raise Fails('index out of bounds')
            d.append(v // st[k] % s[k])
        res.append(out(Arr(x.shape, d, 'i')))
    return tuple(res)


@npf('ravel_multi_index')
def _(a):
    only(a, 'multi_index', 'dims')
    s = shape_arg(a['dims'])
    m = a['multi_index']
    if isinstance(m, Arr):
        m = items(m)
    m = [arr(x) for x in m]
    if len(m) != len(s):
        raise Fails('parameter multi_index must be a sequence of length %d'
                    % len(s))
    bs = bshape(*[x.shape for x in m])
    m = [broadcast(x, bs) for x in m]
    st = strides(s)
    d = [0] * size(bs)
    for x, n, w in zip(m, s, st):
        for i, v in enumerate(x.data):
            if not isinstance(v, int):
                raise Unknown('index')
            if not 0 <= v < n:
                raise Fails('invalid entry in coordinates array')
            d[i] += v * w
    return out(Arr(bs, d, 'i'))


@npf('indices')
def _(a):
    s = shape_arg(a.get('#0', a.get('dimensions')))
    return Arr((len(s), ) + s, [ix[k] for k in range(len(s))
                                for ix in indices(s)], 'i')


@npf('ndindex')
def _(a):
    xs = positional(a)
    if len(xs) == 1 and isinstance(xs[0], (tuple, list)):
        xs = xs[0]
    s = shape_arg(tuple(xs))
    return tuple(indices(s))


@npf('meshgrid')
def _(a):
    a = dict(a)
    ind = a.pop('indexing', None) or 'xy'
    return meshgrid(positional(a), ind)


@npf('ix_')
def _(a):
    vs = [arr(v) for v in positional(a)]
    n = len(vs)
    return tuple(v.reshape((1, ) * k + (v.size, ) + (1, ) * (n - 1 - k))
                 for k, v in enumerate(vs))


@npf('diag')
def _(a):
    x = arr(positional(a)[0] if '#0' in a else a['v'])
    if x.ndim == 1:
        n = x.size
        return Arr((n, n), [x.data[i] if i == j else 0 for i in range(n)
                            for j in range(n)])
    if x.ndim == 2:
        return Arr((min(x.shape), ), [x.at((i, i))
                                      for i in range(min(x.shape))])
    raise Fails('diag')


@npf('diagflat')
def _(a):
    x = arr(positional(a)[0])
    n = x.size
    return Arr((n, n), [x.data[i] if i == j else 0 for i in range(n)
                        for j in range(n)])


@npf('trace')
def _(a):
    x = arr(positional(a)[0])
    if x.ndim != 2:
        raise Unknown('trace')
    return x_sum([x.at((i, i)) for i in range(min(x.shape))])


@npf('flip')
def _(a):
    xs = positional({k: v for k, v in a.items() if k != 'axis'})
    x = arr(xs[0])
    ax = a.get('axis', xs[1] if len(xs) > 1 else None)
    ax = range(x.ndim) if ax is None else axes_of(ax, x.ndim)
    return getarr(x, tuple(slice(None, None, -1) if i in ax else
                           slice(None) for i in range(x.ndim)))


@npf('roll')
def _(a):
    xs = positional({k: v for k, v in a.items() if k != 'axis'})
    x, sh = arr(xs[0]), xs[1]
    ax = a.get('axis', xs[2] if len(xs) > 2 else None)
    if not isinstance(sh, int):
        raise Unknown('roll')
    if ax is None:
        n = x.size
        return Arr(x.shape, [x.data[(i - sh) % n] for i in range(n)],
                   x.kind)
    ax = axis_norm(ax, x.ndim)
    n = x.shape[ax]
    ix = Arr((n, ), [(i - sh) % n for i in range(n)], 'i')
    return getarr(x, (slice(None), ) * ax + (ix, ))


@npf('cumsum', 'cumprod')
def _(a):
    raise Unknown('cumsum')


@npf('argsort')
def _(a):
    x = arr(positional(a)[0] if '#0' in a else a['a'])
    if x.ndim != 1 or not plain(*x.data):
        raise Unknown('argsort')
    return Arr(x.shape, sorted(range(x.size), key=lambda i: x.data[i]),
               'i')


@npf('sort')
def _(a):
    x = arr(positional(a)[0] if '#0' in a else a['a'])
    if x.ndim != 1 or not plain(*x.data):
        raise Unknown('sort')
    return Arr(x.shape, sorted(x.data), x.kind)


@npf('unique')
def _(a):
    a = dict(a)
    ax = a.pop('axis', None)
    xs = positional(a)
    x = arr(xs[0])
    if not plain(*x.data):
        raise Unknown('unique')
    if ax is None:
        d = sorted(set(x.data))
        return Arr((len(d), ), d, x.kind)
    ax = axis_norm(ax, x.ndim)
    m = moveaxis(x, ax, 0)
    rows = sorted(set(tuple(p.data) for p in items(m)))
    r = Arr((len(rows), ) + m.shape[1:], [v for p in rows for v in p],
            x.kind)
    return moveaxis(r, 0, ax)


@npf('clip')
def _(a):
    xs = positional(a)
    if len(xs) != 3:
        raise Unknown('clip')
    return out(elementwise(lambda v, lo, hi: x_min([x_max([v, lo]), hi]),
                           *xs))


@npf('heaviside')
def _(a):
    x, h = positional(a)

    def f(v, w):
        if x_lt(v, 0):
            return 0
        return 1 if x_lt(0, v) else w
    return out(elementwise(f, x, h))


@npf('array_equal')
def _(a):
    x, y = [arr(v) for v in positional(a)]
    return x.shape == y.shape and all(x_eq(p, q) for p, q in zip(
        x.data, y.data))


def close(a):
    only(a, 'a', 'b', 'rtol', 'atol', '#0', '#1', '#2', '#3')
    x, y, r, t = [a.get(k, a.get('#%d' % i, d)) for i, (k, d) in enumerate((
        ('a', None), ('b', None), ('rtol', Fraction(1, 10**5)),
        ('atol', Fraction(1, 10**8))))]
    r, t = entry(r), entry(t)

    def mag(v):
        return -v if x_lt(v, 0) else v

    def f(p, q):
        if not isinstance(p, (int, Fraction)) or not isinstance(
                q, (int, Fraction)):
            raise Unknown('closeness of symbols')
        return mag(p - q) <= t + r * mag(q)
    return elementwise(f, arr(x), arr(y))


@npf('isclose')
def _(a):
    return out(close(a))


@npf('allclose')
def _(a):
    return all(bool(x) for x in close(a).data)


@npf('isscalar')
def _(a):
    return isnum(positional(a)[0])


@npf('result_type')
def _(a):
    raise Unknown('result_type')


# ------------------------------------------------------- term evaluation
def install():
    O = V.OPS

    def wrap(op, f, n=2):
        base = O.get(op)

        def g(t, env):
            vals = [ev(a, env) for a in t.args[:n]]
            if any(involved(v) for v in vals):
                if any(isinstance(v, (Sym, str)) or v is None
                       for v in vals):
                    raise Unknown('operands of ' + op)
                if any(isinstance(v, tuple) for v in vals) and not (
                        op in ('eq', 'lt')):
                    if any(isinstance(v, tuple) and not v for v in vals):
                        raise Unknown('empty')
                    if op == 'add':
                        raise Unknown('sum of an array and a sequence')
                    if op == 'mul' and any(isinstance(v, (Fraction, N))
                                           for v in vals):
                        raise Fails('sequence times a real number')
                    if not any(isinstance(v, Arr) for v in vals):
                        raise Unknown('sequence operand')
                return out(typed(op, vals, elementwise(f, *vals)))
            if base is None:
                raise Unknown(op)
            return base(t, env)
        O[op] = g
    wrap('add', x_add)
    wrap('sub', x_sub)
    wrap('mul', x_mul)
    wrap('div', x_div)
    wrap('mod', x_mod)
    wrap('floordiv', x_floordiv)
    wrap('neg', x_neg, 1)
    wrap('lt', x_lt)

    pbase = O['pow']

    def e_pow(t, env):
        a, b = ev(t.args[0], env), ev(t.args[1], env)
        if involved(a) or involved(b):
            for v in (a, b):
                if isinstance(v, (Sym, str)) or v is None:
                    raise Unknown('pow')
            x, y = arr(a), arr(b)
            if x.kind == 'i' and isinstance(a, Arr) and y.kind == 'i' and \
                    plain(*y.data) and any(v < 0 for v in y.data):
                raise Fails('integer to a negative power')
            return out(elementwise(x_pow, a, b))
        return pbase(t, env)
    O['pow'] = e_pow

    ebase = O['eq']

    def e_eq(t, env):
        a, b = ev(t.args[0], env), ev(t.args[1], env)
        if isinstance(a, Name) or isinstance(b, Name):
            if isinstance(a, Name) and isinstance(b, Name):
                return a == b
            raise Unknown('name comparison')
        if involved(a) or involved(b):
            if a is None or b is None or isinstance(a, str) or isinstance(
                    b, str):
                return False
            if isinstance(a, Sym) or isinstance(b, Sym):
                raise Unknown('eq')
            x, y = arr(a), arr(b)
            try:
                return out(elementwise(x_eq, x, y))
            except Fails:
                return False
        return ebase(t, env)
    O['eq'] = e_eq

    nbase = O['not']

    def e_not(t, env):
        a = ev(t.args[0], env)
        if isinstance(a, Arr):
            return out(elementwise(lambda x: not x_truth(x), a))
        if isinstance(a, N):
            return not x_truth(a)
        return nbase(t, env)
    O['not'] = e_not

    def logic(op, f):
        base = O[op]

        def g(t, env):
            try:
                return base(t, env)
            except ArrTruth:
                vals = [ev(a, env) for a in t.args]
                r = vals[0]
                for v in vals[1:]:
                    r = out(elementwise(f, r, v))
                return r
        O[op] = g
    logic('and', lambda x, y: x_truth(x) and x_truth(y))
    logic('or', lambda x, y: x_truth(x) or x_truth(y))

    def e_truth(t, env):
        v = ev(t.args[0], env)
        if isinstance(v, Arr):
            if v.size == 1:
                return x_truth(v.data[0])
            return out(elementwise(x_truth, v))
        return V.truthv(v)
    O['truth'] = e_truth

    def e_ite(t, env):
        c = ev(t.args[0], env)
        if isinstance(c, Arr) and c.size != 1:
            a, b = ev(t.args[1], env), ev(t.args[2], env)
            return out(elementwise(
                lambda p, x, y: x if x_truth(p) else y, c, a, b))
        if isinstance(c, Arr):
            a = ev(t.args[1], env) if x_truth(c.data[0]) else ev(
                t.args[2], env)
            return a
        if V.truthv(c):
            return ev(t.args[1], env)
        return ev(t.args[2], env)
    O['ite'] = e_ite

    lbase = O['len']

    def e_len(t, env):
        v = ev(t.args[0], env)
        if isinstance(v, Arr):
            if not v.shape:
                raise Fails('len of a scalar')
            return v.shape[0]
        if isinstance(v, dict):
            return len(v)
        return lbase(t, env)
    O['len'] = e_len

    ibase = O['item']

    def e_item(t, env):
        s = ev(t.args[0], env)
        if isinstance(s, Arr):
            k = ev(t.args[1], env)
            return getitem(s, k)
        if isinstance(s, dict):
            k = ev(t.args[1], env)
            if k not in s:
                raise Fails('key')
            return s[k]
        if isinstance(s, (N, Fraction)):
            k = ev(t.args[1], env)
            if k == () or k is Ellipsis:
                return s
            raise Fails('subscript of a number')
        k = ev(t.args[1], env)
        if isinstance(k, Arr) and k.size == 1 and k.ndim == 0:
            k = k.data[0]
        if isinstance(s, (tuple, str)) and isinstance(k, slice):
            try:
                return s[as_slice(k)]
            except ValueError:
                raise Fails('slice')
        if isinstance(s, tuple) and isinstance(k, (Lst, tuple, Arr)):
            if isinstance(k, Arr):
                raise Fails('tuple index')
            raise Fails('tuple indices must be integers')
        return ibase(t, env)
    O['item'] = e_item
    O['elem'] = e_item

    sbase = O['slice']

    def e_slice(t, env):
        s = ev(t.args[0], env)
        if isinstance(s, Arr):
            a = [ev(x, env) for x in t.args[1:4]]
            return getitem(s, slice(*a))
        return sbase(t, env)
    O['slice'] = e_slice

    def e_sl(t, env):
        a = []
        for x in t.args:
            v = ev(x, env)
            if v is not None and not isinstance(v, (int, Arr, Fraction)):
                raise Unknown('slice bound')
            a.append(v)
        return as_slice(slice(*a))
    O['sl'] = e_sl
    O['ellipsis'] = lambda t, env: Ellipsis
    O['aslist'] = lambda t, env: aslist(ev(t.args[0], env))
    O['ext'] = e_ext
    O['input'] = e_input
    O['initial'] = e_initial
    O['inslot'] = e_inslot
    O['reslot'] = e_reslot
    O['relike'] = lambda t, env: reshape(arr(ev(t.args[1], env)), arr(
        ev(t.args[0], env)).shape)
    O['store'] = e_store
    O['matmul'] = lambda t, env: matmul(need(ev(t.args[0], env)), need(
        ev(t.args[1], env)))
    O['astype'] = e_astype
    O['extf'] = e_extf
    O['sumf'] = e_sumf
    O['prodf'] = e_prodf
    O['fold'] = e_fold
    O['mfold'] = e_mfold
    O['carry'] = e_unbound
    O['seqrep'] = e_seqrep
    O['lastof'] = e_lastof
    O['dict'] = e_dict
    O['dset'] = e_dset
    O['dget'] = e_dget
    O['dictmap'] = e_dictmap
    O['keys'] = lambda t, env: tuple(asdict(ev(t.args[0], env)))
    O['values'] = lambda t, env: tuple(asdict(ev(t.args[0], env)).values())
    O['items'] = lambda t, env: tuple(asdict(ev(t.args[0], env)).items())
    O['join'] = e_join
    O['fmt'] = e_fmt
    O['strof'] = e_strof
    O['bitand'] = lambda t, env: out(elementwise(
        lambda x, y: x_truth(x) and x_truth(y), ev(t.args[0], env),
        ev(t.args[1], env)))
    O['bitor'] = lambda t, env: out(elementwise(
        lambda x, y: x_truth(x) or x_truth(y), ev(t.args[0], env),
        ev(t.args[1], env)))
    O['invert'] = lambda t, env: out(elementwise(
        x_invert, ev(t.args[0], env)))
    O['isinst'] = e_isinst
    O['zip'] = lambda t, env: tuple(zip(*[
        items(ev(a, env)) for a in t.args]))
    O['setof'] = lambda t, env: Set(elements(ev(t.args[0], env)))
    O['setadd'] = lambda t, env: Set(elements(ev(t.args[0], env)) + (
        ev(t.args[1], env), ))
    O['setdrop'] = lambda t, env: Set(
        (lambda v: [x for x in elements(ev(t.args[0], env)) if x != v])(
            ev(t.args[1], env)))
    for _n, _f in SETOPS.items():
        O[_n] = (lambda f: lambda t, env: setop(f, [
            ev(x, env) for x in t.args]))(_f)
    for _n, _f in (('bitand', 'setintersection'), ('bitor', 'setunion'),
                   ('sub', 'setdifference'),
                   ('bitxor', 'setsymmetric_difference')):
        O[_n] = (lambda b, f: lambda t, env: setop(f, [
            ev(x, env) for x in t.args]) if any(isinstance(ev(
                x, env), Set) for x in t.args) else b(t, env))(
                    O.get(_n, e_unbound), SETOPS[_f])
    O['enum'] = lambda t, env: tuple(enumerate(
        items(ev(t.args[0], env)), *([ev(t.args[1], env)] if len(
            t.args) > 1 else [])))
    tbase = O['tolist']

    def e_tolist(t, env):
        v = ev(t.args[0], env)
        if isinstance(v, Arr):
            return tolist(v)
        return tbase(t, env)
    O['tolist'] = e_tolist
    fbase = O['intof']

    def e_intof(t, env):
        v = ev(t.args[0], env)
        if isinstance(v, Arr) and v.size == 1:
            v = v.data[0]
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, N):
            return trunc(v)
        if isinstance(v, Arr):
            raise Fails('int of an array')
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise Fails('int')
        return fbase(t, env)
    O['intof'] = e_intof
    abase = O['attr']

    def e_attr(t, env):
        b = ev(t.args[0], env)
        n = t.args[1]
        if isinstance(b, (list, tuple, range)) and env.get('$arrays') and \
                n in ('shape', 'size', 'ndim'):
            b = arr(tuple(b))
        if isinstance(b, Sym) and n == 'name':
            r = env.get((b, 'name'))
            if r is not None:
                return r
            return Name(b)
        if isinstance(b, Arr):
            if n == 'shape':
                return b.shape
            if n == 'size':
                return b.size
            if n == 'ndim':
                return b.ndim
            if n == 'T':
                return transpose(b)
            if n in ('real', ):
                return b
            raise Unknown('attribute ' + n)
        return abase(t, env)
    O['attr'] = e_attr
    O['late'] = e_attr
    rbase = O['reversed']

    def e_reversed(t, env):
        v = ev(t.args[0], env)
        if isinstance(v, Arr):
            return getitem(v, slice(None, None, -1))
        return rbase(t, env)
    O['reversed'] = e_reversed

    cbase = O['call']

    def e_call(t, env):
        f = t.args[0]
        names = t.args[1].split(',') if t.args[1] else []
        args = {}
        for n, a in zip(names, t.args[2:]):
            args[n] = a
        if any(k.startswith('#') and isinstance(a, T) and a.op == 'star'
               for k, a in args.items()):
            flat = []
            i = 0
            while '#%d' % i in args:
                a = args.pop('#%d' % i)
                if a.op == 'star':
                    flat.extend(seq(ev(a.args[0], env)))
                else:
                    flat.append(ev(a, env))
                i += 1
            vals = {'#%d' % k: v for k, v in enumerate(flat)}
        else:
            vals = {}
        for k, a in args.items():
            vals[k] = a if k == 'dtype' else ev(a, env)
            if k == 'dtype' and a.op == 'const':
                vals[k] = cval(a)
        arrs = any(involved(v) or (isinstance(v, tuple) and any(
            involved(x) for x in v)) for v in vals.values())
        g = V.CALLS.get(f)
        if g is not None and not arrs and 'dtype' not in vals and not (
                f in ('numpy.array', 'numpy.asarray', 'numpy.append',
                      'numpy.concatenate', 'numpy.delete')
                and env.get('$arrays')):
            return g(vals)
        if f == 'numpy.sqrt' and not arrs:
            pass
        h = NP.get(f)
        if h is None:
            raise Unknown(f)
        if any(isinstance(v, Sym) for v in vals.values()):
            raise Unknown('operand object in ' + f)
        try:
            return h(vals)
        except KeyError as e:
            raise Unknown('%s argument %s' % (f, e))
        except NotReal as e:
            raise Unknown(str(e))
        except RecursionError:
            raise Unknown('recursion')
    O['call'] = e_call

    appbase = O['app']

    def e_app(t, env):
        f = t.args[0]
        if f.op == 'extm':
            b = ev(f.args[0], env)
            if isinstance(b, Arr):
                a = [ev(x, env) for x in t.args[1:] if isinstance(x, T)]
                n = f.args[1]
                if n == 'item' and not a and b.size == 1:
                    return b.data[0]
                if n in ('flatten', 'ravel') and not a:
                    return Arr((b.size, ), b.data, b.kind)
                if n == 'copy' and not a:
                    return b
                if n == 'trace':
                    return NP['numpy.trace']({'#0': b})
                raise Unknown('method ' + n)
        return appbase(t, env)
    O['app'] = e_app


def need(v):
    if isinstance(v, Arr) or isnum(v) or isinstance(v, tuple):
        return v
    raise Unknown('array operand')


def aslist(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, tuple):
        return Lst(v)
    raise Unknown('list')


class ArrTruth(Unknown):
    pass


def e_unbound(t, env):
    raise Unknown('carry')


PI = ('numpy.pi', 'math.pi')


def e_ext(t, env):
    n = t.args[0]
    if n in PI:
        return R.var('pi', '', '+')
    if n in ('numpy.e', 'math.e'):
        return R.exp(R.ONE)
    if n == 'numpy.newaxis':
        return None
    if n in ('numpy.inf', 'math.inf'):
        return INF
    raise Unknown(n)


def e_input(t, env):
    n = ev(t.args[0], env)
    if not isinstance(n, Name):
        raise Unknown('input name')
    s = n.sym
    a = env.get((s, 'value'))
    if a is None:
        raise Unknown('input ' + str(s.label))
    return a


def slot(env, vec, key, loose=False):
    """(shape, initial value) of a slot of the outputs or the partials."""
    k = ev(key, env)
    which = vec.args[0]
    f = env.get(('$slot', which))
    if f is None:
        raise Unknown('slot')
    return f(k)


def e_initial(t, env):
    return slot(env, t.args[0], t.args[1])


def e_inslot(t, env):
    cur = ev(t.args[2], env)
    s = slot(env, t.args[0], t.args[1])
    v = fit(cur, s.shape)
    return Arr(v.shape, v.data, s.kind)


def e_reslot(t, env):
    new = arr(ev(t.args[2], env))
    s = slot(env, t.args[0], t.args[1])
    return reshape(new, s.shape)


def fit(v, shape):
    """The array a variable of this shape holds after v is assigned."""
    v = arr(v)
    if v.shape == tuple(shape):
        return v
    if v.size == size(shape):
        return v.reshape(shape)
    while v.ndim > len(shape) and v.shape and v.shape[0] == 1:
        v = v.reshape(v.shape[1:])
    return broadcast(v, shape)


def e_store(t, env):
    b = ev(t.args[0], env)
    k = ev(t.args[1], env)
    v = ev(t.args[2], env)
    if isinstance(b, Arr):
        return setitem(b, k, v)
    if isinstance(b, tuple):
        if isinstance(k, int):
            if not -len(b) <= k < len(b):
                raise Fails('list assignment index out of range')
            l = list(b)
            l[k] = v
            return tuple(l)
        if isinstance(k, slice) and isinstance(v, (tuple, Arr)):
            l = list(b)
            try:
                l[k] = list(v if isinstance(v, tuple) else tolist(v))
            except ValueError:
                raise Fails('slice assignment')
            return tuple(l)
    if isinstance(b, dict):
        d = dict(b)
        d[hashable(k)] = v
        return d
    raise Unknown('store')


def e_astype(t, env):
    d = t.args[1]
    v = ev(t.args[0], env)
    k = dtype_kind(cval(d) if d.op == 'const' else d)
    if isnum(v):
        return cast(entry(v), k)
    return astype(v, k)


def vadd(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, (Arr, N, Fraction)) or isinstance(b, (Arr, N,
                                                           Fraction)):
        return out(elementwise(x_add, need(a), need(b)))
    return V.num(a) + V.num(b)


def vmul(a, b):
    if isinstance(a, (Arr, N, Fraction)) or isinstance(b, (Arr, N,
                                                           Fraction)):
        return out(elementwise(x_mul, need(a), need(b)))
    return V.num(a) * V.num(b)


def e_sumf(t, env):
    r = 0
    for e in V.bind(t.args[1], t.args[2], env):
        r = vadd(r, ev(t.args[0], e))
    return r


def e_prodf(t, env):
    r = 1
    for e in V.bind(t.args[1], t.args[2], env):
        r = vmul(r, ev(t.args[0], e))
    return r


def e_extf(t, env):
    name, init, body, dom, idx = t.args
    f = x_max if name.endswith('maximum') else x_min
    r = ev(init, env)
    for e in V.bind(dom, idx, env):
        r = out(elementwise(lambda x, y: f([x, y]), r, ev(body, e)))
    return r


def e_fold(t, env):
    v, c, init, dom, idx = t.args
    r = ev(init, env)
    n = 0
    for e in V.bind(dom, idx, env):
        e[c] = r
        r = ev(v, e)
        n += 1
        if n > 400:
            raise Unknown('long loop')
    return r


def e_mfold(t, env):
    """One of several values a loop carries:
    mfold(k, nexts, carries, inits, stop, dom, idx)."""
    k, nexts, carries, inits, stop, dom, idx = t.args
    memo = env.get('$memo')
    key = ('mfold', ) + t.args[1:]
    if memo is not None and key in memo:
        return memo[key][k]
    cur = [None] * len(inits.args)
    for i, a in enumerate(inits.args):
        try:
            cur[i] = ev(a, env)
        except Unknown as x:
            cur[i] = x
    n = 0
    for e in V.bind(dom, idx, env):
        for c, v in zip(carries.args, cur):
            e[c] = v
        st = V.truthv(ev(stop, e))
        new = []
        for a in nexts.args:
            try:
                new.append(ev(a, e))
            except Unknown as x:
                new.append(x)
        cur = new
        n += 1
        if n > 400:
            raise Unknown('long loop')
        if st:
            break
    if memo is not None:
        memo[key] = cur
    if isinstance(cur[k], Unknown):
        raise cur[k]
    return cur[k]


def e_seqrep(t, env):
    a, n = ev(t.args[0], env), ev(t.args[1], env)
    if isinstance(n, tuple) and isinstance(a, int):
        a, n = n, a
    if not isinstance(n, int):
        raise Unknown('seqrep')
    if isinstance(a, (tuple, str)):
        return a * n
    raise Unknown('seqrep')


def e_lastof(t, env):
    r = None
    hit = False
    for e in V.bind(t.args[1], t.args[2], env):
        r = e
        hit = True
    if not hit:
        raise Unknown('lastof nothing')
    return ev(t.args[0], r)


def hashable(k):
    try:
        hash(k)
    except TypeError:
        raise Unknown('key')
    if isinstance(k, Arr):
        raise Unknown('key')
    return k


def asdict(v):
    if isinstance(v, dict):
        return v
    raise Unknown('dict')


def e_dict(t, env):
    d = {}
    for k, v in zip(t.args[::2], t.args[1::2]):
        d[hashable(ev(k, env))] = ev(v, env)
    return d


def e_dset(t, env):
    d = dict(asdict(ev(t.args[0], env)))
    d[hashable(ev(t.args[1], env))] = ev(t.args[2], env)
    return d


def e_dget(t, env):
    d = asdict(ev(t.args[0], env))
    k = hashable(ev(t.args[1], env))
    if k not in d:
        raise Fails('KeyError')
    return d[k]


def e_dictmap(t, env):
    base, kb, vb, dom, idx = t.args
    d = dict(asdict(ev(base, env)))
    for e in V.bind(dom, idx, env):
        d[hashable(ev(kb, e))] = ev(vb, e)
    return d


def e_join(t, env):
    s, x = ev(t.args[0], env), ev(t.args[1], env)
    if isinstance(s, str) and isinstance(x, tuple) and all(
            isinstance(y, str) for y in x):
        return s.join(x)
    if isinstance(s, str) and isinstance(x, str):
        return s.join(x)
    raise Unknown('join')


def e_fmt(t, env):
    a = [ev(x, env) for x in t.args]
    if all(isinstance(x, (str, int)) for x in a) and isinstance(a[0], str):
        try:
            return a[0].format(*a[1:])
        except (IndexError, KeyError, ValueError):
            raise Fails('format')
    raise Unknown('fmt')


def e_strof(t, env):
    v = ev(t.args[0], env)
    if isinstance(v, (int, str)):
        return str(v)
    raise Unknown('str')


def e_isinst(t, env):
    v = ev(t.args[0], env)
    w = t.args[1]
    if w in ('int', 'float', 'str', 'tuple', 'number', 'ndarray', 'bool'):
        if isinstance(v, Arr):
            return w == 'ndarray'
        if isinstance(v, bool):
            return w in ('bool', 'int', 'number')
        if isinstance(v, int):
            return w in ('int', 'number')
        if isinstance(v, str):
            return w == 'str'
        if isinstance(v, (float, Fraction, N)):
            return w in ('float', 'number')
    return V.e_isinst(t, env)


def truthv(v):
    if isinstance(v, (N, Fraction)):
        return x_truth(v)
    if isinstance(v, Arr):
        if v.size == 1:
            return x_truth(v.data[0])
        raise ArrTruth('truth of an array')
    return _truthv(v)


_truthv = V.truthv
V.truthv = truthv

_domain = V.domain


def domain(dom, env):
    if dom.op in ('rng', 'tail', 'whiledom'):
        return _domain(dom, env)
    if dom.op == 'entries':
        return list(asdict(ev(dom.args[0], env)))
    v = ev(dom, env)
    if isinstance(v, Arr):
        if not v.shape:
            raise Fails('iteration over a scalar')
        return list(range(v.shape[0]))
    if isinstance(v, dict):
        return list(v)
    if dom.op in ('setof', 'sorted', 'fromkeys') and False:
        return list(v)
    return list(range(len(seq(v))))


V.domain = domain
install()


# ------------------------------------------------------- conditions driver
MAXSPLIT = 64


def cases(f):
    """[(assumptions, value or exception)] of f() under every combination of
    the conditions on the entries that it meets.  Measure-zero cases (two
    entries exactly equal) are left out."""
    res = []
    todo = [[]]
    while todo:
        a = todo.pop()
        ASSUME.append(a)
        try:
            v = f()
            res.append((a, v))
        except Split as s:
            if len(a) >= 7 or len(res) + len(todo) > MAXSPLIT:
                raise Unknown('too many conditions')
            if s.cond.op == 'eq':
                todo.append(a + [(s.cond, False)])
            else:
                todo.append(a + [(s.cond, False)])
                todo.append(a + [(s.cond, True)])
        except (Unknown, Fails) as e:
            res.append((a, e))
        finally:
            ASSUME.pop()
    return res
