"""C32: whole models compute what their expressions say.

Programs that mix the operators and functions are built abstractly, as a
user's setup would, and every component that the wrapped setup adds is
elaborated.  The value graphs of the components are composed by the names
they are promoted under and evaluated, in the order they are added, at
rational inputs; the reference evaluates the program itself."""
import random
import time
import zlib
from fractions import Fraction
from .common import *
from .. import arrays as A
from .. import scalar as R
from ..arrays import Arr, Name, size
from ..evalu import Unknown, Fails, Sym, ev, truthv
from ..history import OVERWRITTEN, History, overwrite, wrapped
from ..om import Model
from ..interp import Dead
from ..program import AnalysisError, Endless
from ..sites import P
from ..report import Report
from ..terms import T, mk, const, is_const, cval, subterms, NONE
from .implicit import Elaborating
from .contraction import contract
from .indexing import Part
from .numeric import NUM, compare, given, single_atom, symbols
from .traversal import api_class, must

MAXSIZE = 12


def tup(s):
    return mk('tup', *[const(n) for n in s])


def number(*tag):
    h = zlib.crc32(repr(tag).encode())
    return Fraction(h % 397 + 100, 499) * (1 if h % 5 else -1)


# inputs with special entries, by the beginning of their name
SPECIAL = {
    'pos_': lambda i, v: abs(v),
    'unit_': lambda i, v: v / 2,
    'big_': lambda i, v: v * 40,
    'tiny_': lambda i, v: v / 4096,
    'dust_': lambda i, v: v / 2 ** 60,
    'zero_': lambda i, v: Fraction(0),
    'mixed_': lambda i, v: v if i % 2 else Fraction(0),
    'tie_': lambda i, v: Fraction(3, 4),
    'whole_': lambda i, v: Fraction(i % 3 + 1),
}


def array(shape, *tag):
    d = [number(i, *tag) for i in range(size(shape))]
    for k, f in SPECIAL.items():
        if tag and isinstance(tag[0], str) and tag[0].startswith(k):
            d = [f(i, v) for i, v in enumerate(d)]
    return Arr(shape, d)


class Op(object):
    """An operation: how it is called, and the value of the result."""

    def __init__(self, text, call, shape, value):
        self.text, self.call, self.shape, self.value = (text, call, shape,
                                                        value)


def func(api, spec, names, extra=(), kw=None, params=None, result=None):
    """A function of omtools.api: operands named as in the reference,
    further positional constants, keyword constants."""
    kw, params = dict(kw or {}), dict(params or {})

    def term(v):
        if isinstance(v, tuple):
            return mk('tup', *[term(x) for x in v])
        if isinstance(v, list):
            return mk('list', *[term(x) for x in v])
        return const(v)

    def call(m, xs):
        f = m.w.p.lookup(m.w.api, api)
        if f is None:
            raise AnalysisError('omtools.api.%s not found' % api)
        return m.h.run(lambda: m.it.call_value(
            m.it.binding(f, m.h.st), list(xs) + [term(e) for e in extra],
            {k: term(v) for k, v in kw.items()}, m.h.st, m.h.node))

    def value(vs):
        ins = dict(params)
        if names == '*':
            ins['xs'] = list(vs)
        else:
            ins.update(zip(names, vs))
        a = {k: (v.shape if isinstance(v, Arr) else v)
             for k, v in ins.items()}
        return NUM[spec](a, ins)
    t = api + '(%s' + ''.join(', %s' % (e, ) for e in extra) + ''.join(
        ', %s=%s' % kv for kv in sorted(kw.items())) + ')'
    return Op(t, call, result, value)


def oper(name, spec, k=None, text=None):
    """A special method of the expression."""
    def call(m, xs):
        a = list(xs[1:]) + ([] if k is None else [const(k)])
        return m.h.call(xs[0], name, *a)

    def value(vs):
        ins = {'x': vs[0]}
        if len(vs) > 1:
            ins['y'] = vs[1]
        if k is not None:
            ins['k'] = A.entry(k)
        return NUM[spec]({}, ins)
    return Op(text, call, None, value)


def einsum(sub, k, fmt, new):
    """Contraction of k operands."""
    def lit(v):
        return mk('tup', *[lit(x) for x in v]) if isinstance(
            v, (tuple, list)) else const(v)
    kw = {'operation': lit([tuple(l) for l in sub.replace(
        '->', ',').split(',') if l])} if new else {'subscripts': const(sub)}
    kw['partial_format'] = const(fmt)
    api = 'einsum_new_api' if new else 'einsum'

    def call(m, xs):
        f = m.w.p.lookup(m.w.api, api)
        if f is None:
            raise AnalysisError('omtools.api.%s not found' % api)
        return m.h.run(lambda: m.it.call_value(
            m.it.binding(f, m.h.st), list(xs), dict(kw), m.h.st, m.h.node))
    return Op('%s(%%s, %s, %s)' % (api, sub, fmt), call, None,
              lambda vs: contract(sub, vs))


def constant(name, sym, shape, tag, w=None, again=False):
    """An operation with a constant array; again: the one that was
    overwritten last."""
    sp = '__%s__[array]' % name
    v = array(shape, 'constant', tag)
    if w is None:
        w = Arr(v.shape, [R.value(R.lift(x), 0, {}) for x in v.data], 'f')
        w = Arr(v.shape, [Fraction(round(x * 64), 64) for x in w.data], 'f')

    def call(m, xs):
        t = m.array('constant%d' % len(m.env), w) if not (
            again and m.reuse) else m.array(None, w, m.again)
        return m.h.call(xs[0], '__%s__' % name, t)
    return Op('%%s %s constant%s' % (sym, tag), call, None,
              lambda vs: NUM[sp]({}, {'x': vs[0], 'k': w}))


def item(key):
    """x[key]; key: integers and (start, stop, step)."""
    ks = [const(k) if isinstance(k, int) else mk(
        'sl', *[NONE if v is None else const(v) for v in k])
        for k in key]
    t = ks[0] if len(ks) == 1 else mk('tup', *ks)
    txt = ', '.join(str(k) if isinstance(k, int) else ':'.join(
        '' if v is None else str(v) for v in k) for k in key)
    py = tuple(slice(k, k + 1 or None) if isinstance(k, int) else slice(*k)
               for k in key)

    def value(vs):
        return A.getitem(vs[0], py if len(py) > 1 else py[0])
    return Op('%s[' + txt + ']', lambda m, xs: m.h.getitem(xs[0], t), None,
              value)


ELEMENTWISE = ('sin', 'cos', 'tan', 'arctan', 'tanh', 'sec')


def choices(rng, pool, more=False):
    """A random applicable (operation, operands, shape of the result)."""
    x = rng.choice(sorted(pool))
    r = applicable(rng, pool, x)
    if more:
        same = [y for y in sorted(pool) if y != x and pool[y] == pool[x]]
        c = [y for y in sorted(pool) if pool[y] == (1, ) and y != x]
        if c and same:
            c = rng.choice(c)
            same = [y for y in same if y != c]
            if same:
                r.append((5, func('if_else', 'if_else', 'ctf'),
                          (c, x, rng.choice(same)), pool[x]))
        if len(same) > 2:
            ys = tuple(rng.sample(same, rng.choice((2, 3))))
            for f in ('sum', 'average'):
                r.append((2, func(f, f + '[n]', '*'), (x, ) + ys, pool[x]))
            for f in ('max', 'min'):
                r.append((1, func(f, f + '[n]', '*', (), {'rho': 2},
                                  {'rho': 2}), (x, ) + ys, pool[x]))
        if size(pool[x]) <= 6:
            for y in sorted(pool):
                if y != x and size(pool[x]) * size(pool[y]) <= MAXSIZE:
                    r.append((1, func('outer', 'outer', 'ab'), (x, y),
                              pool[x] + pool[y]))
    return rng.choices(r, [a[0] for a in r])[0][1:]


def applicable(rng, pool, x):
    """Operations on expression x and others: (weight, operation, operands,
    shape of the result)."""
    s = pool[x]
    same = [y for y in sorted(pool) if y != x and pool[y] == s]
    r = []

    def add(op, xs, shape, weight=2):
        if size(shape) <= MAXSIZE:
            r.append((weight, op, xs, shape))
    for f in rng.sample(ELEMENTWISE, 2):
        add(func(f, f, 'x'), [x], s, 1)
    add(oper('__neg__', '__neg__', None, '-%s'), [x], s, 1)
    k = rng.choice((2, 3, 0.5, -1.5))
    o, sym = rng.choice((('add', '+'), ('sub', '-'), ('mul', '*'),
                         ('truediv', '/')))
    kd = type(k).__name__
    if rng.random() < 0.5:
        add(oper('__%s__' % o, '__%s__[%s]' % (o, kd), k,
                 '%%s %s %s' % (sym, k)), [x], s, 1)
    else:
        add(oper('__r%s__' % o, '__r%s__[%s]' % (o, kd), k,
                 '%s %s %%s' % (k, sym)), [x], s, 1)
    add(oper('__pow__', '__pow__[int]', 2, '%s ** 2'), [x], s, 1)
    if same:
        y = rng.choice(same)
        o, sym = rng.choice((('add', '+'), ('sub', '-'), ('mul', '*'),
                             ('truediv', '/')))
        add(oper('__%s__' % o, '__%s__[expr]' % o, None,
                 '%%s %s %%s' % sym), [x, y], s, 6)
        add(func('sum', 'sum[n]', '*'), [x, y], s)
        add(func('average', 'average[n]', '*'), [x, y], s)
        if len(s) == 2:
            k = rng.randrange(2)
            add(func('inner', 'inner[axes]', 'ab', (), {
                'axes': ((k, ), (k, ))}, {'axes': ((k, ), (k, ))}), [x, y],
                (s[1 - k], s[1 - k]), 3)
        if len(s) == 1:
            add(func('inner', 'inner', 'ab'), [x, y], (1, ))
            add(func('dot', 'dot', 'ab'), [x, y], (1, ))
            add(func('outer', 'outer', 'ab'), [x, y], s + s)
        if s == (3, ):
            add(func('cross', 'cross', 'ab', (0, ), None, {'axis': 0}),
                [x, y], s)
        if s == (3, 3) or s == (2, 2):
            add(func('matmat', 'matmat', 'AB'), [x, y], s)
        if len(s) == 2:
            k = rng.randrange(2)
            if s[k] > 1:
                for f in ('sum', 'average'):
                    add(func(f, f + '[n,axes]', '*', (), {'axes': (k, )},
                             {'axes': (k, )}), [x, y], (s[1 - k], ), 1)
            if s[k] == 3:
                add(func('dot', 'dot[axis]', 'ab', (), {'axis': k},
                         {'axis': k}), [x, y], (s[1 - k], ))
                add(func('cross', 'cross', 'ab', (k, ), None, {'axis': k}),
                    [x, y], s)
        f = rng.choice(('max', 'min'))
        add(func(f, f + '[n]', '*', (), {'rho': 2}, {'rho': 2}), [x, y], s)
    k = rng.choice(('add', 'sub', 'mul', 'truediv'))
    add(constant(k, {'add': '+', 'sub': '-', 'mul': '*',
                     'truediv': '/'}[k], s, rng.randrange(9)), [x],
        s, 1)
    fmt = rng.choice(('dense', 'sparse'))
    new = rng.random() < 0.5
    if len(s) <= 2:
        one = 'i' if len(s) == 1 else 'ij'
        z = rng.choice(sorted(pool))
        t = pool[z]
        if z != x and len(t) <= 2:
            if t == s:
                add(einsum('%s,%s->%s' % (one, one, one[::-1]), 2, fmt, new),
                    [x, z], s[::-1])
            two = 'k' if len(t) == 1 else 'kl'
            out = rng.choice((one + two, one, two, two + one))
            n = dict(zip(one + two, s + t))
            add(einsum('%s,%s->%s' % (one, two, out), 2, fmt, new), [x, z],
                tuple(n[c] for c in out))
            if t[0] == s[-1]:
                two = one[-1] + ('l' if len(t) == 2 else '')
                out = ''.join(rng.sample(sorted(set(one) ^ set(two)), len(
                    set(one) ^ set(two))))
                n = dict(zip(one + two, s + t))
                add(einsum('%s,%s->%s' % (one, two, out), 2, fmt, new),
                    [x, z], tuple(n[c] for c in out) or (1, ))
        out = rng.choice((one, one[::-1], one[:1], ''))
        n = dict(zip(one, s))
        add(einsum('%s->%s' % (one, out), 1, fmt, new), [x],
            tuple(n[c] for c in out) or (1, ), 1)
    add(func('sum', 'sum[1]', 'x'), [x], (1, ))
    add(func('average', 'average[1]', 'x'), [x], (1, ))
    add(func('pnorm', 'pnorm', 'x', (), {'pnorm_type': 2}, {'p': 2}), [x],
        (1, ))
    f = rng.choice(('max', 'min'))
    add(func(f, f + '[1]', 'x', (), {'rho': 2}, {'rho': 2}), [x], (1, ))
    n = size(s)
    for t in ((n, ), (n, 1), (2, n // 2), (n // 2, 2)):
        if size(t) == n and t != s and rng.random() < 0.4:
            add(func('reshape', 'reshape', 'x', (t, ), None,
                     {'new_shape': t}), [x], t)
    if s == (1, ):
        t = rng.choice(((2, ), (3, ), (2, 3)))
        add(func('expand', 'expand', 'x', (t, ), None, {'new_shape': t}),
            [x], t)
        for ax in 'xyz':
            add(func('rotmat', 'rotmat[%s]' % ax, ('angle', ), (ax, )),
                [x], (3, 3))
    if len(s) == 1 and s != (1, ):
        i = rng.randrange(s[0])
        add(item([i]), [x], (1, ), 3)
        i = rng.randrange(s[0])
        j = rng.randrange(i + 1, s[0] + 1)
        add(item([(i, j, None)]), [x], (j - i, ), 3)
        t = s + (2, )
        add(func('expand', 'expand[indices]', 'x', (t, 'i->ij'), None,
                 {'new_shape': t, 'indices': 'i->ij'}), [x], t)
    if len(s) == 2:
        add(func('transpose', 'transpose', 'A'), [x], s[::-1])
        i, j = rng.sample('ijkl', 2)
        for t in (i + j, j + i):
            o = '%s->%s' % (i + j, t)
            add(func('reorder_axes', 'reorder_axes', 'A', (o, ), None,
                     {'operation': o}), [x], s if t[0] == i else s[::-1], 1)
        ax = rng.randrange(2)
        add(func('sum', 'sum[1,axes]', 'x', (), {'axes': (ax, )},
                 {'axes': (ax, )}), [x], (s[1 - ax], ))
        add(func('average', 'average[1,axes]', 'x', (), {'axes': (ax, )},
                 {'axes': (ax, )}), [x], (s[1 - ax], ))
        f = rng.choice(('max', 'min'))
        add(func(f, f + '[1,axis]', 'x', (), {'axis': ax, 'rho': 2},
                 {'axis': ax, 'rho': 2}), [x], (s[1 - ax], ))
        add(func('pnorm', 'pnorm[axis]', 'x', (), {
            'axis': ax, 'pnorm_type': 2}, {'axis': ax, 'p': 2}), [x],
            (s[1 - ax], ))
        i, j = [rng.randrange(n) for n in s]
        add(item([i, j]), [x], (1, 1), 2)
        add(item([(None, None, None), (j, j + 1, None)]), [x], (s[0], 1), 2)
        vs = [y for y in sorted(pool) if pool[y] == (s[1], )]
        if vs:
            add(func('matvec', 'matvec', 'Ax'), [x, rng.choice(vs)],
                (s[0], ), 4)
        ms = [y for y in sorted(pool) if len(pool[y]) == 2 and pool[y][0]
              == s[1] and y != x]
        if ms:
            y = rng.choice(ms)
            add(func('matmat', 'matmat', 'AB'), [x, y],
                (s[0], pool[y][1]), 4)
    if len(s) > 2:
        tensors(rng, pool, x, same, add)
    return r


def tensors(rng, pool, x, same, add):
    """Operations on an expression with three or more axes."""
    s = pool[x]
    n = len(s)

    def rest(axes, s=s):
        return tuple(k for i, k in enumerate(s) if i not in axes)
    add(func('transpose', 'transpose', 'A'), [x], s[::-1])
    one = ''.join(rng.sample('ijklmn', n))
    for _ in range(2):
        t = ''.join(rng.sample(one, n))
        o = '%s->%s' % (one, t)
        add(func('reorder_axes', 'reorder_axes', 'A', (o, ), None,
                 {'operation': o}), [x],
            tuple(s[one.index(c)] for c in t), 2)
    k = rng.randrange(n)
    two = tuple(rng.sample(range(n), 2))
    # pairs of axes too: not all of them
    for axes in ((k, ), two) if n > 2 else ((k, ), ):
        for f in ('sum', 'average'):
            add(func(f, f + '[1,axes]', 'x', (), {'axes': axes},
                     {'axes': axes}), [x], rest(axes))
        ax = axes[0] if len(axes) == 1 else axes
        add(func('pnorm', 'pnorm[axes]', 'x', (), {
            'axis': ax, 'pnorm_type': 2}, {'axes': axes, 'p': 2}), [x],
            rest(axes))
        if same:
            y = rng.choice(same)
            for f in ('sum', 'average'):
                add(func(f, f + '[n,axes]', '*', (), {'axes': axes},
                         {'axes': axes}), [x, y], rest(axes))
    f = rng.choice(('max', 'min'))
    add(func(f, f + '[1,axis]', 'x', (), {'axis': k, 'rho': 2},
             {'axis': k, 'rho': 2}), [x], rest((k, )), 3)
    if same and s[k] == 3:
        y = rng.choice(same)
        add(func('dot', 'dot[axis]', 'ab', (), {'axis': k}, {'axis': k}),
            [x, y], rest((k, )), 4)
        add(func('cross', 'cross', 'ab', (k, ), None, {'axis': k}), [x, y],
            s, 4)
    fmt = rng.choice(('dense', 'sparse'))
    new = rng.random() < 0.5
    for z in sorted(pool):
        t = pool[z]
        if z == x:
            continue
        pairs = [(i, j) for i in range(n) for j in range(len(t))
                 if s[i] == t[j]]
        if not pairs:
            continue
        i, j = rng.choice(pairs)
        axes = ((i, ), (j, ))
        more = [q for q in pairs if q[0] != i and q[1] != j]
        if more and rng.random() < 0.5:
            q = rng.choice(more)
            axes = ((i, q[0]), (j, q[1]))
        out = rest(axes[0]) + rest(axes[1], t)
        if out:
            add(func('inner', 'inner[axes]', 'ab', (), {'axes': axes},
                     {'axes': axes}), [x, z], out, 3)
        a = 'abcdefgh'[:n]
        b = 'pqrstuvw'[:len(t)]
        b = b[:j] + a[i] + b[j + 1:]
        keep = sorted(set(a) ^ set(b))
        out = ''.join(rng.sample(keep, min(len(keep), rng.choice((1, 2, 3)))))
        sizes = dict(zip(a + b, s + t))
        add(einsum('%s,%s->%s' % (a, b, out), 2, fmt, new), [x, z],
            tuple(sizes[c] for c in out) or (1, ), 2)
    a = 'abcdefgh'[:n]
    out = ''.join(rng.sample(a, rng.randint(0, n)))
    sizes = dict(zip(a, s))
    add(einsum('%s->%s' % (a, out), 1, fmt, new), [x],
        tuple(sizes[c] for c in out) or (1, ))
    key, t = [], []
    for m in s:
        i = rng.randrange(m)
        j = rng.randrange(i + 1, m + 1)
        key.append(rng.choice((i, (i, j, None), (None, None, None))))
        t.append(len(range(m)[slice(*key[-1])]) if isinstance(
            key[-1], tuple) else 1)
    if any(isinstance(c, tuple) for c in key):
        add(item(key), [x], tuple(t), 3)


class Program(object):
    """Statements of a setup: ('in'|'indep', x, shape), ('sub', x),
    ('op', x, Op, operands), ('reg', name, x), ('out', name, shape),
    ('def', name, x), ('set', name, (start, stop), x)."""

    def __init__(self):
        self.stmts = []
        self.shape = {}

    def __str__(self):
        r = []
        for s in self.stmts:
            if s[0] in ('in', 'indep', 'out'):
                r.append('%s = %s%s' % (s[1], {
                    'in': 'input', 'indep': 'independent',
                    'out': 'output'}[s[0]], s[2]))
            elif s[0] == 'op':
                t = s[2].text
                a = tuple(s[3]) if t.count('%s') > 1 else (
                    ', '.join(s[3]), )
                r.append('%s = %s' % (s[1], t % a))
            elif s[0] == 'reg':
                r.append('register %s as %s' % (s[2], s[1]))
            elif s[0] == 'def':
                r.append('%s := %s' % s[1:3])
            elif s[0] == 'set':
                r.append('%s[%d:%d] = %s' % (s[1], s[2][0], s[2][1], s[3]))
            elif s[0] == 'group':
                r.append('%s %s { %s }' % (s[2], s[1], s[3]))
            else:
                r.append('subsystem %s' % s[1])
        return '; '.join(r)

    def produced(self):
        """Names that the program computes or sets."""
        r = set()
        for s in self.stmts:
            if s[0] in ('indep', 'out', 'reg'):
                r.add(s[1])
            elif s[0] == 'group':
                r |= s[3].produced()
        return r

    def inputs(self):
        """Names and shapes of all inputs."""
        r = {}
        for s in self.stmts:
            if s[0] == 'in':
                r[s[1]] = s[2]
            elif s[0] == 'group':
                r.update(s[3].inputs())
        return r

    def values(self):
        """What the program means: name -> value."""
        world = {}
        self.run(world, self.produced())
        return {n: v for n, v in world.items() if n in self.produced()}

    def run(self, world, produced):
        v, blocks = {}, {}
        for s in self.stmts:
            k, x = s[:2]
            if k == 'in':
                if x not in world:
                    if x in produced:
                        raise AnalysisError('program')
                    world[x] = array(s[2], x)
                v[x] = world[x]
            elif k == 'indep':
                v[x] = world[x] = array(s[2], x)
            elif k == 'op':
                v[x] = s[2].value([v[y] for y in s[3]])
            elif k == 'def':
                v[x] = world[x] = v[s[2]]
            elif k == 'set':
                b = blocks.setdefault(x, [None] * size(self.shape[x]))
                n = size(self.shape[x][1:])
                b[s[2][0] * n:s[2][1] * n] = v[s[3]].data
                if None not in b:
                    v[x] = world[x] = Arr(self.shape[x], b)
            elif k == 'reg':
                world[x] = v[s[2]]
            elif k == 'group':
                s[3].run(world, produced)


NAMES = ('a0', 'lift', 'x1', 'yy', 'out', 'v_0', 'cl', 'total', 'w_', 'z2')
MORE = NAMES + ('drag', 'p_1', 'q', 'load', 'n_3', 'tip')
SHAPES = ((2, ), (3, ), (2, 3), (1, ), (2, 2), (3, 3))


TENSORS = ((2, 3, 2), (2, 2, 2), (3, 2), (2, 1, 3), (2, ), (1, 2, 3),
           (3, 2, 2), (2, 2))


def generate(rng, names=None, world=None, nested=False, shapes=SHAPES):
    """names: those that are left; world: name -> shape of what a child
    group may read; nested: whether there are child groups."""
    p = Program()
    pool = {}               # expression -> shape
    exprs, registered, used = [], set(), []
    child = world is not None
    world = {} if world is None else world
    if names is None:
        names = list(MORE if nested else NAMES)
        rng.shuffle(names)

    def declare(kind, x=None, s=None):
        x = names.pop() if x is None else x
        s = rng.choice(shapes) if s is None else s
        p.stmts.append((kind, x, s))
        p.shape[x] = pool[x] = world[x] = s
    if child:
        for x in rng.sample(sorted(world), min(2, len(world))):
            declare('in', x, world[x])
    else:
        declare('in')
        declare(rng.choice(('in', 'indep')))
        # two of one shape
        declare('in', None, pool[p.stmts[0][1]])
    n = rng.randint(1, 4) if child else rng.randint(4, 8)
    sub = child
    groups = 0
    while len(exprs) < n:
        c = rng.random()
        if c < 0.06 and len(names) > 3:
            declare('in')
        elif c < 0.09 and len(names) > 3:
            declare('indep')
        elif c < 0.12 and not sub and len(names) > 4:
            sub = True
            p.stmts.append(('sub', 'child'))
            declare('in')
        elif c < 0.22 and exprs and len(names) > 3:
            e = [x for x in exprs if x not in registered]
            if e:
                x = rng.choice(e)
                registered.add(x)
                world[names[-1]] = p.shape[x]
                p.stmts.append(('reg', names.pop(), x))
        elif c < 0.27 and exprs and len(names) > 3:
            x = rng.choice(exprs)
            o = names.pop()
            p.stmts.append(('out', o, p.shape[x]))
            p.stmts.append(('def', o, x))
            p.shape[o] = pool[o] = world[o] = p.shape[x]
        elif c < 0.33 and len(names) > 3:
            e = [x for x in exprs if len(p.shape[x]) == 1]
            if shapes is TENSORS and exprs:
                # blocks of rows
                t = p.shape[rng.choice(exprs)][1:]
                e = [x for x in exprs if p.shape[x][1:] == t]
            if len(e) > 1:
                a, b = rng.sample(e, 2)
                i, j = p.shape[a][0], p.shape[b][0]
                o = names.pop()
                p.shape[o] = pool[o] = world[o] = (i + j, ) + p.shape[a][1:]
                p.stmts.append(('out', o, p.shape[o]))
                p.stmts.append(('set', o, (0, i), a))
                p.stmts.append(('set', o, (i, i + j), b))
        elif c < 0.45 and nested and groups < 2 and len(names) > 6:
            groups += 1
            inner = dict(world)
            q = generate(rng, names, inner, False, shapes)
            p.stmts.append(('group', 'g%d_' % len(p.stmts), rng.choice((
                'with', 'class')), q))
            for x in sorted(q.produced()):
                if rng.random() < 0.7:
                    declare('in', x, inner[x])
        else:
            op, xs, shape = choices(rng, pool, shapes is TENSORS)
            if (op.text, xs) in used:
                continue        # blocks of one expression are shared
            used.append((op.text, xs))
            x = 'e%d' % len(p.stmts)
            p.stmts.append(('op', x, op, xs))
            p.shape[x] = pool[x] = shape
            exprs.append(x)
    for x in exprs[::-1]:
        if x not in registered and names:
            world[names[-1]] = p.shape[x]
            p.stmts.append(('reg', names.pop(), x))
            break
    return p


def several(tier, start=53):
    """Programs that use one operation up to three times, on expressions
    that are registered after that."""
    rng = random.Random(start)
    r, done = [], {}
    for turn in range(2 if tier == 'quick' else 6):
        for s in SHAPES:
            t = rng.choice([t for t in SHAPES if t != s and (
                len(t) == 1 or t[0] == s[-1])] or [(2, )])
            base = Program()
            names = list(MORE)
            rng.shuffle(names)
            pool = {}
            for x, sh, op in (
                    ('p1', s, oper('__neg__', '__neg__', None, '-%s')),
                    ('p2', s, oper('__mul__', '__mul__[int]', 2, '%s * 2')),
                    ('p3', t, func('tanh', 'tanh', 'x'))):
                n = names.pop()
                base.stmts += [('in', n, sh), ('op', x, op, [n])]
                base.shape[n] = base.shape[x] = pool[x] = sh
            kinds = {}
            for i in range(20 if tier == 'quick' else 60):
                for a in applicable(rng, pool, rng.choice(sorted(pool))):
                    k = a[1].text.split('(')[0].strip('0123456789.-')
                    l = kinds.setdefault(k, [])
                    if all((a[1].text, a[2]) != (b[1].text, b[2])
                           for b in l):
                        l.append(a)
            for k in sorted(kinds):
                if done.get((turn, k), 0) >= (1 if tier == 'quick' else 3):
                    continue
                done[turn, k] = done.get((turn, k), 0) + 1
                p = Program()
                p.stmts, p.shape = list(base.stmts), dict(base.shape)
                left, res = list(names), []
                l = kinds[k]
                for j, (w, op, xs, sh) in enumerate(rng.sample(
                        l, min(3, len(l)))):
                    p.stmts.append(('op', 'q%d' % j, op, xs))
                    p.shape['q%d' % j] = sh
                    res.append('q%d' % j)
                for x in rng.sample(sorted(pool), 2) + res:
                    p.stmts.append(('reg', left.pop(), x))
                r.append(p)
    return valid(r)


def valid(ps):
    r = []
    for p in ps:
        try:
            p.values()
        except (Unknown, Fails, R.NotReal, A.Split):
            continue            # no value at these inputs
        r.append(p)
    return r


def programs(tier, n=None, nested=False, start=11, shapes=SHAPES):
    rng = random.Random(start)
    r, n = [], n or (60 if tier == 'quick' else 600)
    while len(r) < n:
        p = generate(rng, nested=nested, shapes=shapes)
        try:
            p.values()
        except (Unknown, Fails, R.NotReal, A.Split):
            continue            # no value at these inputs
        r.append(p)
    return r


class Built(object):
    """A program, built as OpenMDAO does: the setup of a group adds its
    subsystems, whose setup is run after that.

    mode: when the statements of the model itself are executed: 'before' its
    setup or 'inside' it; times: how often the problem is set up; reuse:
    whether the user overwrites each array after the statement it is used
    in."""

    def __init__(self, w, p, mode='before', times=1, prefix=0, reuse=False,
                 watch=False):
        self.w, self.p = w, p
        self.watch, self.edges = watch, []
        self.mode, self.times, self.prefix = mode, times, prefix
        self.reuse, self.arrays = reuse, []
        self.h = h = History(w)
        self.it = it = h.it
        self.env = {'$arrays': True}
        self.failed = None
        self.programs = {}      # group -> program of its setup
        self.ranks = {}         # output -> how many axes it has
        self.objects = {}       # group -> {name: expression}
        self.kept = {}          # group -> subsystems that remain
        self.seen = 0           # effects looked at
        elab = w.el if hasattr(w, 'el') else w.elab
        with Elaborating(elab, Model()):
            saved = it.turns, it.nested, it.decide, dict(it.handlers)
            it.copies = reuse
            it.turns, it.nested, it.decide = 2000, 40, self.decide
            it.endless = True
            it.handlers['method'] = self.method
            it.handlers['unknown_call'] = self.user_setup
            try:
                self.build()
            finally:
                it.turns, it.nested, it.decide = saved[:3]
                it.copies = it.endless = False
                it.handlers.clear()
                it.handlers.update(saved[3])

    def decide(self, c):
        if c.op == 'eq' and all(isinstance(self.env.get(x), Arr) and
                                x.op == 'param' for x in c.args):
            return c.args[0] is c.args[1]
        try:
            return bool(truthv(ev(c, self.env)))
        except (Unknown, Fails, Wrong, A.Split, R.NotReal):
            return None

    def value(self, x, shape):
        return self.array('val_' + x, array(shape, x))

    def array(self, name, value, t=None):
        """An array of the user."""
        t = P(name, 'ndarray') if t is None else t
        self.env[t] = value
        self.env[mk('attr', t, 'shape')] = tuple(value.shape)
        self.h.st.set(t, 'shape', tup(value.shape))
        self.arrays.append(t)
        return t

    def overwrite(self):
        """The user overwrites the arrays used since the last call."""
        for t in self.arrays:
            self.again = overwrite(self.h, self.env, t)
        self.arrays = []

    # the setup that the metaclass puts around the user's
    def method(self, it, o, func, args, kwargs, st, node):
        if func is self.base_setup and o in self.kept:
            it.call_value(self.wrapper, [o], {}, st, node)
            return NONE
        return None

    def user_setup(self, it, f, args, kwargs, st, node):
        if f is not self.user:
            return None
        p = self.programs.get(args[0]) if args else None
        if p is not None:
            self.at(st, lambda: self.statements(args[0], p.stmts))
        return NONE

    def at(self, st, do):
        """Executes statements of the user in state st."""
        saved, self.h.st = self.h.st, st
        try:
            do()
        finally:
            self.h.st = saved
        if self.failed is not None:
            raise Dead()

    def group(self):
        g = must(self.h.new(self.cls), 'the constructor')
        self.objects[g] = {}
        self.kept[g] = []
        return g

    def build(self):
        h, p = self.h, self.p
        c = self.cls = api_class(self.w, 'Group')
        self.base_setup = c.find('setup')
        self.user, self.wrapper, self.where = wrapped(h, self.w, c)
        h.st.set(self.it.binding(self.w.variable, h.st), '_count', const(0))
        g = self.g = self.group()
        n = len(p.stmts) if self.mode == 'before' else self.prefix
        self.statements(g, p.stmts[:n])
        rest = Program()
        rest.stmts, rest.shape = p.stmts[n:], p.shape
        self.programs[g] = rest
        self.tree = None
        for i in range(self.times):
            if self.tree is not None:
                # the components of the last setup have run
                self.elaborated()
            if self.failed is None:
                self.tree = self.set_up(g)
        self.parts = None

    def set_up(self, g):
        """Runs the setup of a group and of the groups below it; the
        subsystems in order."""
        self.collect(None)
        st = self.h.run(lambda: self.it.call_value(
            self.wrapper, [g], {}, self.h.st, self.h.node))
        if st.dead:
            if self.failed is None:
                self.failed = None, st
            return []
        now = self.collect(g)
        r = []
        for name, t, kw in self.kept[g] + now:
            r.append((name, t, kw, self.set_up(t) if t in self.kept
                      else None))
            if self.failed is not None:
                return []
        return r

    def collect(self, g):
        """The subsystems added to g since the last call; those added to
        other groups remain when these are set up."""
        now = []
        effects = self.h.st.effects[self.seen:]
        self.seen += len(effects)
        for e in effects:
            if e.kind == 'recursion':
                raise AnalysisError('recursion')
            if e.kind != 'extcall' or not e.args[0].endswith(
                    'Group.add_subsystem'):
                continue
            if e.guard or e.loops:
                raise AnalysisError('conditional components')
            a, kw = e.args[1], dict(e.args[2])
            o = a[0] if a else None
            if o not in self.kept:
                raise AnalysisError('add_subsystem')
            (now if o is g else self.kept[o]).append((
                a[1] if len(a) > 1 else kw.get('name'),
                a[2] if len(a) > 2 else kw.get('subsys'), kw))
        return now

    def statements(self, g, stmts):
        h = self.h
        objs = self.objects[g]
        if not isinstance(stmts, list):
            raise AnalysisError('statements')
        for s in stmts:
            k, x = s[:2]
            if k in ('in', 'indep', 'out'):
                self.ranks[x] = len(s[2])
                a = {'in': 'declare_input', 'indep': 'create_indep_var',
                     'out': 'create_output'}[k]
                st = h.call(g, a, const(x), shape=tup(s[2]),
                            val=self.value(x, s[2]))
            elif k == 'op':
                st = s[2].call(self, [objs[y] for y in s[3]])
                if self.watch and not st.dead:
                    self.edges.append((s, st.value, self.reached(
                        st.value), {y: objs[y] for y in objs}))
            elif k == 'reg':
                st = h.call(g, 'register_output', const(x), objs[s[2]])
            elif k == 'def':
                st = h.call(objs[x], 'define', objs[s[2]])
            elif k == 'set':
                k = mk('sl', const(s[2][0]), const(s[2][1]), NONE)
                n = self.ranks[x]
                if n > 1:
                    k = mk('tup', k, *[mk('sl', NONE, NONE, NONE)] * (n - 1))
                st = h.setitem(objs[x], k, objs[s[3]])
            elif k == 'group' and s[2] == 'class':
                c = self.group()
                self.programs[c] = s[3]
                st = h.call(g, 'add_subsystem', const(x), c, promotes=mk(
                    'list', const('*')))
            elif k == 'group':
                st = self.with_block(g, x, s[3])
            else:
                st = h.call(g, 'add_subsystem', const(x), P(x, 'system'))
            if st.dead:
                if self.failed is None:
                    self.failed = s, st
                return
            if k in ('in', 'indep', 'out', 'op'):
                objs[x] = must(st, k)
            if self.reuse:
                self.overwrite()

    def dependencies(self, o):
        """What an expression depends on now: terms; None: not known."""
        s = self.h.attr(o, 'dependencies')
        v = None if s.dead or s.value is None else self.h.pure(s)
        if v is None or v.op not in ('list', 'tup') or any(
                x.op != 'obj' for x in v.args):
            return None
        return list(v.args)

    def reached(self, o):
        r, todo = [], [o]
        while todo:
            ds = self.dependencies(todo.pop())
            if ds is None:
                return None
            for d in ds:
                if d not in r:
                    r.append(d)
                    todo.append(d)
        return r

    def with_block(self, g, x, p):
        it = self.it
        blocks = []

        def block(c, st):
            c = it.simp(c, st)
            if blocks or c.op != 'obj':
                raise AnalysisError('with block')
            blocks.append(c)
            self.objects[c] = {}
            self.kept[c] = []
            saved = it.run_generators, it.on_yield
            it.run_generators, it.on_yield = False, None
            try:
                self.at(st, lambda: self.statements(c, p.stmts))
            finally:
                it.run_generators, it.on_yield = saved
        saved = it.run_generators, it.on_yield
        it.run_generators, it.on_yield = True, block
        try:
            st = self.h.call(g, 'create_group', const(x))
        finally:
            it.run_generators, it.on_yield = saved
        if not blocks and not st.dead:
            raise AnalysisError('with block')
        return st

    def components(self):
        """('component', Model, class name, rename), ('independent', term,
        None, rename) or ('system', term, None, rename) for everything that
        is added; rename: its names to those of the model."""
        if self.parts is None:
            self.parts = self.elaborated()
        return self.parts

    def flat(self, tree, rename):
        r = []
        for name, t, kw, below in tree:
            if t is None:
                raise Unknown('add_subsystem')
            if below is not None:
                r += self.flat(below, promoted(kw, name, rename))
            elif t.op == 'param':
                r.append(('system', t, None, rename))
            elif t.op == 'call' and t.args[0].endswith('IndepVarComp'):
                r.append(('independent', t, None, rename))
            elif t not in self.it.obj_class:
                raise Unknown('component')
            elif not everything(kw.get('promotes')):
                raise Unknown('promotes')
            else:
                r.append(('component', t, self.it.obj_class[t].name,
                          rename))
        return r

    def elaborated(self):
        r = self.flat(self.tree, lambda n: n)
        # every component is set up before any is run
        elab = self.w.el
        saved = self.it.turns, self.it.decide
        self.it.turns, self.it.decide = 2000, self.decide
        try:
            st, first = self.h.st, {}
            for k, t, what, ren in r:
                if k == 'component':
                    if t in first:
                        raise Unknown('a component is added twice')
                    m = first[t] = elab.elaborate(t, st, ('setup', ),
                                                  'call')
                    if not m.setup_ok:
                        return [(k, m, what, ren)]
                    st = m.setup_state
            for n, (k, t, what, ren) in enumerate(r):
                if k == 'component':
                    m = elab.elaborate(t, st, ('compute',
                                               'compute_partials'), 'call',
                                       first[t])
                    r[n] = k, m, what, ren
            self.h.st.heap = st.heap
        finally:
            self.it.turns, self.it.decide = saved
        return r


def promoted(kw, name, rename):
    """The names of a child group's variables in the model."""
    pr = kw.get('promotes')
    if everything(pr):
        return rename
    raise Unknown('promotes')


def everything(pr):
    return pr is not None and pr.op in ('tup', 'list') and len(
        pr.args) == 1 and is_const(pr.args[0]) and cval(pr.args[0]) == '*'


class Component(Part):
    """One component of a model; its variables have constant names."""

    def __init__(self, m, env):
        self.m = m
        self.env = env
        self._decls = {}
        self.name = None
        self.text = {}
        for d in m.decls:
            t = d.args.get('name')
            if t is not None and is_const(t) and isinstance(cval(t), str):
                if t not in env:
                    env[t] = Name(Sym(cval(t)))
                self.text[env[t]] = cval(t)
        for kind in ('add_input', 'add_output'):
            for d, e in self.decls(kind):
                if not isinstance(self.arg(d, e, 'name'), Name):
                    raise Unknown('name of a variable')

    def shape_of(self, n):
        s = self.env.get((n.sym, 'shape'))
        if s is None:
            raise Unknown('shape')
        return s

    def output_shapes(self):
        r = {}
        for d, e in self.decls('add_output'):
            n = self.arg(d, e, 'name')
            s = self.arg(d, e, 'shape')
            if s is None:
                v = self.arg(d, e, 'val')
                s = A.arr(v).shape if v is not None else (1, )
                s = s or (1, )
            if n in r:
                raise Fails('it adds an output twice')
            r[n] = A.shape_arg(s)
        return r

    def input_shapes(self):
        r = {}
        for d, e in self.decls('add_input'):
            n = self.arg(d, e, 'name')
            s = self.arg(d, e, 'shape')
            if s is None:
                v = self.arg(d, e, 'val')
                s = A.arr(v).shape if v is not None else (1, )
                s = s or (1, )
            if n in r:
                raise Fails('it adds an input twice')
            r[n] = A.shape_arg(s)
        return r


class Wrong(Exception):
    pass


def independent(t, env):
    """name and value of an IndepVarComp."""
    names = t.args[1].split(',') if isinstance(t.args[1], str) else []
    d = dict(zip(names, t.args[2:]))
    if not is_const(d.get('name', NONE)) or 'val' not in d:
        raise Unknown('independent variable')
    v = A.arr(ev(d['val'], env))
    s = d.get('shape')
    s = A.shape_arg(ev(s, env)) if s is not None else v.shape
    return cval(d['name']), A.fit(v, s)


class Composed(object):
    """The values of a built model."""

    def __init__(self, b):
        self.b = b
        self.values = {}
        made = b.p.produced()
        for x, s in b.p.inputs().items():
            if x not in made:
                self.values[x] = array(s, x)
        self.given = {}
        self.jobs = []          # (component, what it is)
        for kind, x, what, rename in b.components():
            if kind == 'independent':
                n, v = independent(x, b.env)
                self.produce(rename(n), v, 'an independent variable')
            elif kind == 'component':
                self.add(x, what, rename)

    def add(self, m, what, rename):
        if not m.setup_ok:
            raise Wrong('the setup of %s raises' % what)
        c = Component(m, dict(self.b.env))
        for n, s in c.input_shapes().items():
            x = rename(c.text[n])
            if x not in self.values:
                raise Wrong('%s reads %s, which nothing computes before it'
                            % (what, x))
            if self.values[x].shape != s:
                raise Wrong('%s reads %s with shape %s instead of %s' % (
                    what, x, s, self.values[x].shape))
            c.env[(n.sym, 'shape')] = s
            c.env[(n.sym, 'value')] = self.values[x]
        outs = c.output_shapes()
        for n, s in outs.items():
            c.env[(n.sym, 'shape')] = s
        for n, s in outs.items():
            self.produce(rename(c.text[n]), c.of(n).forward(), what)
        self.jobs.append((c, what))

    def produce(self, n, v, what):
        if n in self.values:
            raise Wrong('%s computes %s, which is %s already' % (
                what, n, 'an input' if n not in self.given else
                'computed by ' + self.given[n]))
        self.given[n] = what
        self.values[n] = v


def jacobians(c):
    """(text, got, want) of every derivative of component c."""
    ins = c.input_shapes()
    env = dict(c.env)
    env.pop('$memo', None)
    d = Component(c.m, env)
    for n, s in ins.items():
        env[(n.sym, 'value')] = symbols(c.text[n], s)
    for y in d.output_shapes():
        f = d.of(y).forward()
        for x in ins:
            j = d.of(y).jacobian(x)
            at = env[(x.sym, 'value')]
            ni = at.size
            want, got = [], []
            for o, u in enumerate(f.data):
                for i in range(ni):
                    want.append(A.un(R.diff(R.lift(u), single_atom(
                        at.data[i]))))
                    got.append(j.get((o, i), 0))
            yield ('the derivative of %s with respect to %s' % (
                c.text[y], c.text[x]), Arr((f.size, ni), got),
                Arr((f.size, ni), want))


def agree(x, y, assume):
    """Whether two arrays are the same; closed expressions that are not
    reduced to one form are evaluated."""
    k, msg = compare(x, y, assume, True)
    if k is None and x.size == y.size and all(
            R.equal(R.lift(u), R.lift(v), given(assume), True) is True or
            R.same_values(R.lift(u), R.lift(v), given(assume), True)
            for u, v in zip(x.data, y.data)):
        return True, ''
    return k, msg


def judge(run, what):
    """True, False or None, and why."""
    try:
        rs = A.cases(run)
    except (Unknown, R.NotReal) as e:
        return None, str(e)
    r = True, ''
    for assume, v in rs:
        if isinstance(v, Wrong):
            return False, str(v)
        if isinstance(v, Fails):
            return False, 'evaluating %s fails: %s' % (what, v)
        if isinstance(v, Unknown):
            r = None, str(v)
            continue
        for text, x, y in v:
            try:
                k, msg = agree(x, y, assume)
            except R.NotReal as e:
                k, msg = None, str(e)
            if k is False:
                return False, '%s: %s' % (text, msg)
            if k is None:
                r = None, msg
    return r


def later(m):
    """A variable declared with numbers an array got after its use."""
    for d in m.decls:
        v = d.args.get('val')
        if isinstance(v, T) and any(
                x.op == 'param' and str(x.args[0]).endswith(OVERWRITTEN)
                for x in subterms(v)):
            return 'numbers that array %s got later' % v
    return None


def decide_model(ctx, rep, rule, rule2, p, inst, **how):
    """Does the model of program p compute what the program says?"""
    if time.time() > ctx.deadline:
        rep.und(rule, inst, 'out of time')
        return
    try:
        b = Built(ctx.world, p, **how)
    except Endless as e:
        if e.conditional:
            rep.und(rule, inst, str(e))
        else:
            rep.bad(rule, e.where, inst, str(e))
        return
    except AnalysisError as e:
        rep.und(rule, inst, str(e))
        return
    if b.failed is not None:
        s, st = b.failed
        pre = set(st.pre)
        r = [(n, at) for facts, n, at, loops in st.raises
             if not loops and set(facts) <= pre]
        if r:
            rep.bad(rule, r[0][1], inst, '%s is raised%s' % (
                r[0][0], '' if s else ' when the model is built'))
        else:
            rep.und(rule, inst, 'a call does not return')
        return
    hold = []

    def run():
        del hold[:]
        try:
            if b.reuse:
                for kind, m, what, rename in b.components():
                    if kind == 'component' and later(m):
                        raise Wrong('%s is declared with %s' % (what, later(m)))
            c = Composed(b)
            hold.append(c)
            r = []
            for n, v in sorted(p.values().items()):
                if n not in c.values:
                    raise Wrong('nothing computes %s' % n)
                r.append((n, c.values[n], v))
            return r
        except Wrong as e:
            raise Fails(str(e))
    k, msg = judge(run, 'the model')
    rep.verdict(k, rule, b.where, inst, msg, msg)
    if k is not True or not hold or rule2 is None:
        return
    for c, what in hold[0].jobs:
        k, msg = judge(lambda: list(jacobians(c)), what)
        at = [d.where for d in c.m.decls if d.kind == 'declare_partials']
        rep.verdict(k, rule2, at[0] if at else b.where, '%s in %s' % (what, inst), msg, msg)


def decide_unchanged(ctx, rep, rule, p, inst, base, **how):
    """Is the model built under other circumstances the same?  What is wrong
    with it in any case is not reported here."""
    r = Report(rep.prop)
    decide_model(ctx, r, rule, None, p, inst, **dict(base, **how))
    for u in r.undecided:
        rep.und(rule, inst, u['why'])
    if not r.findings:
        if not r.undecided:
            rep.ok(rule, inst)
        return
    r0 = Report(rep.prop)
    decide_model(ctx, r0, rule, None, p, inst, **base)
    for f in r.findings:
        if r0.findings or r0.undecided:
            rep.und(rule, inst, 'the model is not the one of the program '
                    'in any case')
        else:
            rep.bad(rule, f.where, inst, f.msg)


def rule_values(ctx, rep):
    for p in programs(ctx.tier):
        decide_model(ctx, rep, 'values-of-programs',
                     'derivatives-in-programs', p, str(p))


def rule_nested(ctx, rep):
    n = 25 if ctx.tier == 'quick' else 250
    for i, p in enumerate(programs(ctx.tier, n, True, 23)):
        decide_model(ctx, rep, 'values-of-nested-programs', None, p, str(p),
                     mode='inside' if i % 3 else 'before')


def rule_tensors(ctx, rep):
    n = 30 if ctx.tier == 'quick' else 250
    for p in programs(ctx.tier, n, False, 37, TENSORS):
        decide_model(ctx, rep, 'values-of-tensor-programs',
                     'derivatives-in-programs', p, str(p))


def rule_several(ctx, rep):
    for p in several(ctx.tier):
        decide_model(ctx, rep, 'values-of-repeated-operations', None, p,
                     str(p))


def rule_initial(ctx, rep):
    """What the inputs of the components start from: the values of the
    inputs and independent variables the program declares."""
    rule = 'initial-values-in-programs'
    n = 40 if ctx.tier == 'quick' else 300
    for p in programs(ctx.tier, n, False, 61) + several(ctx.tier, 67)[
            ::3 if ctx.tier == 'quick' else 1] + programs(
                ctx.tier, n, False, 71, TENSORS):
        if time.time() > ctx.deadline:
            rep.und(rule, str(p), 'out of time')
            break
        try:
            b = Built(ctx.world, p)
        except AnalysisError as e:
            rep.und(rule, str(p), str(e))
            continue
        if b.failed is not None:
            rep.und(rule, str(p), 'a call does not return')
            continue
        shapes = {s[1]: s[2] for s in p.stmts if s[0] in ('in', 'indep')}

        def run():
            r = []
            for kind, m, what, rename in b.components():
                if kind != 'component':
                    continue
                c = Component(m, dict(b.env))
                for d, e in c.decls('add_input'):
                    x = rename(c.text[c.arg(d, e, 'name')])
                    if x not in shapes:
                        continue
                    v = c.arg(d, e, 'val')
                    v = Arr((1, ), [1]) if v is None else A.arr(v)
                    r.append(('the input %s of %s' % (x, what),
                              A.fit(v, shapes[x]), array(shapes[x], x)))
            return r
        k, msg = judge(run, 'the initial values')
        rep.verdict(k, rule, b.where, str(p), msg, msg)


def many(tier):
    """Programs with many operands, uses, blocks or elements."""
    r = []

    def program(*stmts):
        p = Program()
        for s in stmts:
            if s[0] in ('in', 'indep', 'out'):
                p.shape[s[1]] = s[2]
            elif s[0] == 'op':
                p.shape[s[1]] = s[4]
                s = s[:4]
            p.stmts.append(s)
        r.append(p)
    deep = tier != 'quick'
    for f in ('sum', 'average', 'max', 'min'):
        kw = {'rho': 2} if f in ('max', 'min') else {}
        for n in (9, 17) if deep else (9, ):
            xs = ['a%d' % i for i in range(n)]
            program(*([('in', x, (2, )) for x in xs] + [
                ('op', 'y', func(f, f + '[n]', '*', (), kw, kw), xs, (2, )),
                ('reg', 'r', 'y')]))
        if not kw:
            xs = ['a%d' % i for i in range(8)]
            program(*([('in', x, (2, 3)) for x in xs] + [
                ('op', 'y', func(f, f + '[n,axes]', '*', (), {'axes': (1, )},
                                 {'axes': (1, )}), xs, (2, )),
                ('reg', 'r', 'y')]))
    for sub, shapes, out in (
            ('i,j,k,l,m,n->njilkm', [(2, )] * 6, (2, ) * 6),
            ('ij,jk,kl,lm,mn,no->io', [(2, 1), (1, 2), (2, 2), (2, 1),
                                       (1, 2), (2, 3)], (2, 3)),
            ('i,i,i,i,i,i,i->i', [(2, )] * 7, (2, ))):
        for fmt in ('dense', 'sparse'):
            for new in (False, True):
                xs = ['b%d' % i for i in range(len(shapes))]
                program(*([('in', x, s) for x, s in zip(xs, shapes)] + [
                    ('op', 'y', einsum(sub, len(xs), fmt, new), xs, out),
                    ('reg', 'r', 'y')]))
    rng = random.Random(97)
    for s, keys in (((20, ), [[i] for i in (3, 0, 17, 19, 5)] + [
            [(0, 6, None)], [(2, 20, 3)], [(7, 8, None)], [(5, 13, None)],
            [(11, 19, None)], [(None, 4, None)], [(16, None, None)]]),
            ((7, 3), [[i, j] for i, j in ((0, 2), (6, 1), (3, 0))] + [
                [(0, 6, None), 1], [(2, 7, 2), (0, 2, None)],
                [5, (None, None, None)], [(4, 7, None), (1, 3, None)],
                [(None, None, None), 0], [(1, 5, None), 2]])):
        for kind in ('in', 'indep', 'op'):
            rng.shuffle(keys)
            st = [('in' if kind == 'op' else kind, 'x', s)]
            at = 'x'
            if kind == 'op':
                at = 'z'
                st.append(('op', 'z', func('sin', 'sin', 'x'), ['x'], s))
            for i, k in enumerate(keys):
                o = item(k)
                st += [('op', 'y%d' % i, o, [at], o.value(
                    [array(s, 'x')]).shape), ('reg', 'r%d' % i, 'y%d' % i)]
            program(*st)
    for s, cuts in (((16, ), (0, 1, 3, 4, 7, 9, 12, 13, 16)),
                    ((9, 2), (0, 1, 2, 4, 5, 6, 8, 9))):
        blocks = list(zip(cuts, cuts[1:]))
        for use in (False, True):
            rng.shuffle(blocks)
            st = []
            for i, (a, b) in enumerate(blocks):
                t = (b - a, ) + s[1:]
                st += [('in', 'a%d' % i, t), ('op', 'e%d' % i, oper(
                    '__mul__', '__mul__[int]', i + 2, '%%s * %d' % (i + 2)),
                    ['a%d' % i], t)]
            st.append(('out', 'y', s))
            st += [('set', 'y', b, 'e%d' % i) for i, b in enumerate(blocks)]
            if use:
                st += [('op', 'z', func('cos', 'cos', 'x'), ['y'], s),
                       ('reg', 'r', 'z')]
            program(*st)
    # arrays of many elements
    n, m = (40, ), (6, 7)
    for x, y, op, t in (
            (n, n, oper('__mul__', '__mul__[expr]', None, '%s * %s'), n),
            (n, n, func('dot', 'dot', 'ab'), (1, )),
            (n, None, func('sum', 'sum[1]', 'x'), (1, )),
            (n, None, func('average', 'average[1]', 'x'), (1, )),
            (n, None, func('tanh', 'tanh', 'x'), n),
            (n, None, func('reshape', 'reshape', 'x', ((5, 8), ), None,
                           {'new_shape': (5, 8)}), (5, 8)),
            (n, None, func('pnorm', 'pnorm', 'x', (), {'pnorm_type': 2},
                           {'p': 2}), (1, )),
            (m, None, func('transpose', 'transpose', 'A'), m[::-1]),
            (m, None, func('sum', 'sum[1,axes]', 'x', (), {'axes': (0, )},
                           {'axes': (0, )}), (7, )),
            (m, None, func('average', 'average[1,axes]', 'x', (),
                           {'axes': (1, )}, {'axes': (1, )}), (6, )),
            (m, None, func('max', 'max[1,axis]', 'x', (), {
                'axis': 1, 'rho': 2}, {'axis': 1, 'rho': 2}), (6, )),
            (m, (7, ), func('matvec', 'matvec', 'Ax'), (6, )),
            (m, (7, 5), func('matmat', 'matmat', 'AB'), (6, 5)),
            ((7, ), (6, ), func('outer', 'outer', 'ab'), (7, 6))):
        xs = ['x', 'w'][:1 + (y is not None)]
        program(*([('in', k, s) for k, s in zip(xs, (x, y))] + [
            ('op', 'y', op, xs, t), ('reg', 'r', 'y')]))
    return valid(r)


def rule_many(ctx, rep):
    for p in many(ctx.tier):
        decide_model(ctx, rep, 'values-of-large-operations',
                     'derivatives-in-programs', p, str(p))


def rule_many_blocks(ctx, rep):
    for p in many(ctx.tier):
        if any(s[0] == 'set' or s[0] == 'op' and s[2].text.startswith('%s[')
               for s in p.stmts):
            decide_model(ctx, rep, 'many-blocks', 'many-blocks-derivatives',
                         p, str(p))


RULES = [rule_values, rule_nested, rule_tensors, rule_several, rule_many]


# ---------------------------------------------------- dependencies, blocks
def rule_operands(ctx, rep):
    """Whatever an operation is used on is a dependency of its result, and
    no other expression is."""
    rule = 'operands-in-programs'
    q = ctx.tier == 'quick'
    for p in many(ctx.tier) + programs(
            ctx.tier, 20 if q else 200, False, 83) + programs(
                ctx.tier, 20 if q else 200, False, 89, TENSORS):
        inst = str(p)
        if time.time() > ctx.deadline:
            rep.und(rule, inst, 'out of time')
            break
        try:
            b = Built(ctx.world, p, watch=True)
        except AnalysisError as e:
            rep.und(rule, inst, str(e))
            continue
        wrong = unknown = None
        for s, res, deps, objs in b.edges:
            if deps is None:
                unknown = 'the dependencies of %s are not known' % s[1]
                continue
            xs = [objs[y] for y in s[3]]
            for y in s[3]:
                if objs[y] not in deps and objs[y] is not res:
                    wrong = '%s does not depend on its operand %s' % (
                        s[1], y)
            first = b.dependencies(res) or []
            for y, o in objs.items():
                if o in first and o not in xs:
                    wrong = '%s depends on %s, which is no operand' % (
                        s[1], y)
        if wrong:
            rep.bad(rule, b.where, inst, wrong)
        elif unknown or not b.edges:
            rep.und(rule, inst, unknown or 'no operation returns')
        else:
            rep.ok(rule, inst)


def rule_blocks(ctx, rep):
    """However many blocks an output has, one that overlaps any of them is
    refused, and one that does not is accepted."""
    rule = 'overlap-with-any-of-many-blocks'
    rng = random.Random(101)
    for s, cuts in (((14, ), (0, 1, 3, 4, 6, 8, 9, 12, 14)),
                    ((9, 2), (0, 1, 2, 4, 5, 6, 8, 9))):
        blocks = list(zip(cuts, cuts[1:]))
        rng.shuffle(blocks)
        for j in range(len(blocks) + 1):
            last = None if j == len(blocks) else blocks[j]
            if last is not None:
                # one of the blocks, or more than it
                done = blocks[:-1] if j < len(blocks) - 1 else blocks
            else:
                done = blocks
            p = Program()
            p.shape['y'] = s
            p.stmts = [('out', 'y', s)]
            for i, k in enumerate(done + ([] if last is None else [last])):
                t = (k[1] - k[0], ) + s[1:]
                p.shape['a%d' % i] = p.shape['e%d' % i] = t
                p.stmts += [('in', 'a%d' % i, t), ('op', 'e%d' % i, oper(
                    '__mul__', '__mul__[int]', 2, '%s * 2'), ['a%d' % i], t),
                    ('set', 'y', k, 'e%d' % i)]
            inst = str(p)
            try:
                b = Built(ctx.world, p)
            except AnalysisError as e:
                rep.und(rule, inst, str(e))
                continue
            bad = b.failed
            if bad is None:
                if last is None:
                    rep.ok(rule, inst)
                else:
                    rep.bad(rule, b.where, inst, 'a block that overlaps '
                            'block %d is accepted' % (j + 1))
                continue
            st, pre = bad[1], set(bad[1].pre)
            r = [at for facts, n, at, loops in st.raises
                 if not loops and set(facts) <= pre]
            if last is not None and bad[0] is p.stmts[-1] and r:
                rep.ok(rule, inst)
            elif r and bad[0] is not None:
                rep.bad(rule, r[0], inst, 'a valid assignment is refused')
            else:
                rep.und(rule, inst, 'a call does not return')


# ------------------------------------------------------ setting up again
def with_blocks():
    """Programs with an output assigned by blocks, and uses of it."""
    for s in ((4, ), (5, )):
        for use in (False, True):
            t = (s[0] - 2, )
            p = Program()
            p.shape.update(x=(2, ), w=t, y=s, e=(2, ), f=t, z=s, r=s)
            p.stmts = [('in', 'x', (2, )), ('in', 'w', t),
                       ('op', 'e', oper('__neg__', '__neg__', None, '-%s'),
                        ['x']),
                       ('op', 'f', func('sin', 'sin', 'x'), ['w']),
                       ('out', 'y', s), ('set', 'y', (2, s[0]), 'f'),
                       ('set', 'y', (0, 2), 'e')]
            if use:
                p.stmts += [('op', 'z', oper(
                    '__mul__', '__mul__[int]', 3, '%s * 3'), ['y']),
                    ('reg', 'r', 'z')]
            yield p


def rule_again(ctx, rep):
    """A model that is set up again is the one the program describes."""
    n = 16 if ctx.tier == 'quick' else 120
    small = list(with_blocks()) + list(with_arrays())
    ps = programs(ctx.tier, n, False, 31) + programs(
        ctx.tier, n, True, 37) + programs(
            ctx.tier, n, False, 43, TENSORS)
    n = len(ps)
    ps += small + small
    for i, p in enumerate(ps):
        mode, prefix, text = (
            ('inside', 0, 'in its setup'),
            ('before', 0, 'before its setup'),
            ('inside', 3, 'half in its setup'))[
                i % 3 if i < n else i >= n + len(small)]
        decide_unchanged(ctx, rep, 'values-when-set-up-again', p,
                         'set up twice, defined %s: %s' % (text, p),
                         dict(mode=mode, prefix=prefix), times=2)


RULES34 = [rule_again]


# --------------------------------------------- arrays changed by the user
def with_arrays():
    """Programs that use one array each."""
    for s in ((3, ), (2, 2)):
        for k, sym in (('add', '+'), ('sub', '-'), ('mul', '*'),
                       ('truediv', '/'), ('pow', '**')):
            w = None if k != 'pow' else Arr(s, [
                Fraction(i % 3 + 1) for i in range(size(s))], 'f')
            for n in (1, 2):
                p = Program()
                p.shape.update(x=s, y=s, z=s)
                p.stmts = [('in', 'x', s),
                           ('op', 'y', constant(k, sym, s, 1, w), ['x'])]
                if n == 2:
                    # through another expression
                    p.stmts.append(('op', 'z', oper(
                        '__add__', '__add__[expr]', None, '%s + %s'),
                        ['y', 'x']))
                p.stmts.append(('reg', 'r', 'yz'[n - 1]))
                p.shape['r'] = s
                yield p
        for k, sym in (('add', '+'), ('sub', '-'), ('mul', '*'),
                       ('truediv', '/')):
            # the same array twice
            p = Program()
            p.shape.update(x=s, y=s, z=s, r=s, q=s)
            p.stmts = [('in', 'x', s),
                       ('op', 'y', constant(k, sym, s, 1), ['x']),
                       ('op', 'z', constant(k, sym, s, 2, None, True),
                        ['x']), ('reg', 'r', 'y'), ('reg', 'q', 'z')]
            yield p
        for k in ('in', 'indep'):
            p = Program()
            p.shape.update(x=s, y=s, z=s)
            p.stmts = [(k, 'x', s), ('op', 'y', oper(
                '__mul__', '__mul__[int]', 3, '%s * 3'), ['x']),
                ('reg', 'r', 'y')]
            p.shape['r'] = s
            yield p
        p = Program()
        p.shape.update(x=s, y=s, o=s)
        p.stmts = [('in', 'x', s), ('op', 'y', oper(
            '__mul__', '__mul__[int]', 3, '%s * 3'), ['x']),
            ('out', 'o', s), ('def', 'o', 'y')]
        yield p


def rule_reuse(ctx, rep):
    """Arrays that are overwritten after their use do not change a model."""
    n = 16 if ctx.tier == 'quick' else 120
    small = list(with_arrays())
    ps = small + programs(ctx.tier, n, False, 41) + programs(
        ctx.tier, n, True, 43)
    for i, p in enumerate(ps):
        for mode in ('before', 'inside') if i < len(small) else (
                ('before', 'inside')[i % 2], ):
            decide_unchanged(ctx, rep, 'arrays-overwritten-after-use', p,
                             'defined %s setup: %s' % (mode, p),
                             dict(mode=mode), reuse=True)


RULES33 = [rule_reuse]
