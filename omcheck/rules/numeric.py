"""What the built models compute and the derivatives they report, compared
with the definition of the operation.

The value graph of the output and of every partial derivative is given its
meaning over algebraic normal forms of the entries of the operands
(arrays.py); the output must equal the definition of the operation and the
partial derivatives must equal the derivative of the output graph.  Shapes,
axes and constants are enumerated; the entries are symbols."""
import itertools
import time
from fractions import Fraction
from .common import *
from .. import scalar as R
from .. import arrays as A
from ..arrays import Arr, Name, x_add, x_sub, x_mul, x_div, x_pow, x_fn, \
    x_sum, x_max, x_min, size, indices
from ..evalu import ev, Unknown, Fails, Sym, bind, domain
from .. import evalu as V
from . import wiring, shapes
from .shapes import SPECS, cond_holds, raised, fmt, asshape


def symbols(label, shape, kind=''):
    return Arr(shape, [R.var(label, kind, i) for i in range(size(shape))],
               'f')


def integers(shape, dtype):
    """An array of (signed or unsigned) integers or of truth values."""
    v = {'i': (3, -2, 5, 1, -4), 'u': (3, 1, 5, 2), 'b': (True, )}[dtype]
    return Arr(shape, [v[k % len(v)] for k in range(size(shape))], dtype)


def environment(case, a):
    """Operands become arrays of symbols."""
    env = {'$memo': {}, '$arrays': True}
    ins = {}
    for t in list(case.args) + list(case.kwargs.values()):
        if t in env:
            continue
        if t.op == 'star':
            p = t.args[0]
            syms, vals = [], []
            for n, s in enumerate(a[p.args[0]]):
                y = Sym('%s%d' % (p.args[0], n))
                env[(y, 'shape')] = s
                env[(y, 'value')] = symbols(y.label, s)
                syms.append(y)
                vals.append(env[(y, 'value')])
            env[p] = tuple(syms)
            env[t] = tuple(syms)
            ins[p.args[0]] = vals
        elif t.op == 'param':
            n, kind = t.args[0], t.args[1]
            if n not in a:
                if kind == 'float':
                    env[t] = R.var(n, '+')
                    ins[n] = env[t]
                continue
            if kind == 'Variable':
                y = Sym(n)
                env[(y, 'shape')] = a[n]
                env[(y, 'value')] = symbols(n, a[n])
                env[t] = y
                ins[n] = env[(y, 'value')]
            elif kind == 'ndarray':
                d = a.get('$dtype')
                env[t] = symbols(n, a[n]) if d is None else integers(
                    a[n], d)
                ins[n] = env[t]
            else:
                env[t] = a[n]
                ins[n] = a[n]
    return env, ins


class Site(object):
    """One build site under one assignment of shapes and constants."""

    def __init__(self, w, root, inst, env):
        self.w = w
        self.root = root
        self.inst = inst
        self.env = env
        self.m = w.model(inst)
        self.sym = env.get(inst.out)
        if self.sym is None:
            self.sym = env[inst.out] = Sym('out')
            sh = inst.root_state.get(inst.out, 'shape')
            if sh is not None:
                try:
                    env[(self.sym, 'shape')] = asshape(ev(sh, env))
                except (Unknown, Fails):
                    pass
        self.name = Name(self.sym)
        self._decls = {}

    def decls(self, kind):
        """(decl, env) of every declaration that is made."""
        r = self._decls.get(kind)
        if r is not None:
            return r
        r = []
        for d in self.m.decls:
            if d.kind != kind:
                continue
            envs = [self.env]
            for dom, idx in d.loops:
                envs = [e2 for e in envs for e2 in bind(dom, idx, e)]
            for e in envs:
                h = cond_holds(d.guard, e)
                if h is None:
                    # a first-occurrence test on a list of names built so
                    # far: operands are distinct here
                    if all(is_dedup_guard(g) or cond_holds([g], e) is True
                           for g in d.guard):
                        h = True
                    else:
                        raise Unknown('guard of ' + kind)
                if h:
                    r.append((d, e))
        self._decls[kind] = r
        return r

    def arg(self, d, e, name, default=None):
        t = d.args.get(name)
        if t is None or t is NONE:
            return default
        return ev(t, e)

    def out_shape(self):
        for d, e in self.decls('add_output'):
            n = self.arg(d, e, 'name')
            if n == self.name:
                s = self.arg(d, e, 'shape')
                if s is None:
                    return (1, )
                return asshape(s)
        raise Unknown('output declaration')

    def input_names(self):
        r = []
        for d, e in self.decls('add_input'):
            n = self.arg(d, e, 'name')
            if not isinstance(n, Name):
                raise Unknown('input name')
            if n not in r:
                r.append(n)
        return r

    def forward(self):
        shape = self.out_shape()
        hit = None

        def slot(k):
            if k == self.name:
                return symbols('previous', shape)
            raise Unknown('output slot')
        self.env[('$slot', 'outputs')] = slot
        for k, v in self.m.forward.items():
            kv = ev(k, self.env)
            if kv == self.name:
                if hit is not None:
                    raise Unknown('two assignments')
                hit = v
            elif not isinstance(kv, Name):
                raise Unknown('output key')
        if hit is None:
            raise Unknown('output not assigned')
        return A.fit(ev(hit, self.env), shape)

    # ------------------------------------------------------- derivatives
    def names(self, v, what):
        if isinstance(v, Name):
            return [v]
        if v == '*':
            return [self.name] if what == 'of' else self.input_names()
        if isinstance(v, tuple):
            r = []
            for x in v:
                r.extend(self.names(x, what))
            return r
        raise Unknown(what)

    def declared(self):
        """(of, wrt) -> (rows, cols, val, where)"""
        r = {}
        for d, e in self.decls('declare_partials'):
            of = self.names(self.arg(d, e, 'of'), 'of')
            wrt = self.names(self.arg(d, e, 'wrt'), 'wrt')
            rows, cols = self.arg(d, e, 'rows'), self.arg(d, e, 'cols')
            val = self.arg(d, e, 'val')
            dep = self.arg(d, e, 'dependent', True)
            meth = self.arg(d, e, 'method', 'exact')
            for o in of:
                for x in wrt:
                    r[(o, x)] = (rows, cols, val, dep, meth, d.where)
        return r

    def assigned(self):
        """(of, wrt) -> (term, env)"""
        r = {}
        for k, v in self.m.partials.items():
            idxs = free_idx(k)
            envs = [self.env]
            for i in idxs:
                dom = idx_dom(i)
                if dom is None:
                    raise Unknown('family')
                envs = [e2 for e in envs for e2 in bind(dom, i, e)]
            for e in envs:
                kv = ev(k, e)
                if not (isinstance(kv, tuple) and len(kv) == 2 and all(
                        isinstance(x, Name) for x in kv)):
                    raise Unknown('partials key')
                if kv in r:
                    raise Unknown('two assignments')
                r[kv] = (v, e)
        return r

    def initial_partial(self, kv, decl):
        if kv not in decl:
            raise Unknown('partials slot')
        rows, cols, val, dep, meth, wh = decl[kv]
        if rows is None:
            s = (size(self.shape_of(kv[0])), size(self.shape_of(kv[1])))
        else:
            s = (A.arr(rows).size, )
        if val is None:
            return A.fill(s, 0)
        return self.partial_value(A.arr(val), s)

    def partial_value(self, v, s):
        v = A.arr(v)
        if v.size == 1:
            return A.fill(s, v.data[0])
        if v.size != size(s):
            raise Fails('a derivative of %d values is declared with %d '
                        'entries' % (v.size, size(s)))
        return v.reshape(s)

    def shape_of(self, n):
        if n == self.name:
            return self.out_shape()
        s = self.env.get((n.sym, 'shape'))
        if s is None:
            raise Unknown('shape')
        return s

    def jacobian(self, wrt):
        """{(row, col): entry} of the derivative with respect to wrt."""
        decl = self.declared()
        asg = self.assigned()
        kv = (self.name, wrt)

        def slot(k):
            return self.initial_partial(k, decl)
        self.env[('$slot', 'partials')] = slot
        for _, e in asg.values():
            e[('$slot', 'partials')] = slot
        if kv not in decl:
            if kv in asg:
                raise Unknown('not declared')
            return {}
        rows, cols, val, dep, meth, wh = decl[kv]
        if meth not in (None, 'exact'):
            raise Unknown('approximated derivative')
        if dep is False:
            return {}
        if kv in asg:
            t, e = asg[kv]
            v = ev(t, e)
        else:
            v = self.initial_partial(kv, decl)
        no, ni = size(self.shape_of(kv[0])), size(self.shape_of(wrt))
        if rows is None and cols is None:
            v = self.partial_value(v, (no, ni))
            return {(o, i): v.data[o * ni + i] for o in range(no)
                    for i in range(ni)}
        if rows is None or cols is None:
            raise Fails('rows without cols')
        rows, cols = A.arr(rows), A.arr(cols)
        if rows.ndim != 1 or cols.ndim != 1:
            raise Unknown('rows of several dimensions')
        if rows.size != cols.size:
            raise Fails('%d rows and %d cols are declared'
                        % (rows.size, cols.size))
        v = self.partial_value(v, (rows.size, ))
        j = {}
        for r, c, x in zip(rows.data, cols.data, v.data):
            if not isinstance(r, int) or not isinstance(c, int):
                raise Unknown('rows')
            if not (0 <= r < no and 0 <= c < ni):
                raise Fails('derivative entry (%d, %d) is outside of the '
                            '%d by %d matrix' % (r, c, no, ni))
            if (r, c) in j:
                raise Fails('derivative entry (%d, %d) is declared twice'
                            % (r, c))
            j[(r, c)] = x
        return j


def free_idx(t):
    r = []
    for s in subterms(t):
        if s.op == 'idx' and s not in r:
            r.append(s)
    r.sort(key=key)
    return r


# ------------------------------------------------------------ definitions
def ew(f):
    return lambda x: Arr(x.shape, [f(v) for v in x.data])


def recip(v):
    return x_div(1, v)


MATH = {
    'arccos': lambda v: x_fn('arccos', v),
    'arcsin': lambda v: x_fn('arcsin', v),
    'arctan': lambda v: x_fn('arctan', v),
    'cos': lambda v: x_fn('cos', v), 'sin': lambda v: x_fn('sin', v),
    'tan': lambda v: x_fn('tan', v),
    'cosec': lambda v: recip(x_fn('sin', v)),
    'sec': lambda v: recip(x_fn('cos', v)),
    'cotan': lambda v: x_div(x_fn('cos', v), x_fn('sin', v)),
    'cosh': lambda v: x_fn('cosh', v), 'sinh': lambda v: x_fn('sinh', v),
    'tanh': lambda v: x_fn('tanh', v),
    'cosech': lambda v: recip(x_fn('sinh', v)),
    'cotanh': lambda v: x_div(x_fn('cosh', v), x_fn('sinh', v)),
    'sech': lambda v: recip(x_fn('cosh', v)),
    'exp': lambda v: x_fn('exp', v), 'log': lambda v: x_fn('log', v),
    'log10': lambda v: x_fn('log10', v),
}


def kept(shape, axes):
    n = len(shape)
    d = set(x % n for x in axes)
    return [i for i in range(n) if i not in d]


def fold_axes(f, x, axes):
    """f over the given axes (None: all), with the result's shape."""
    if axes is None:
        return Arr((1, ), [f(x.data)])
    k = kept(x.shape, axes)
    shape = tuple(x.shape[i] for i in k)
    b = {}
    for v, ix in zip(x.data, indices(x.shape)):
        b.setdefault(tuple(ix[i] for i in k), []).append(v)
    return Arr(shape, [f(b[ix]) for ix in indices(shape)])


def mean(c):
    return x_div(x_sum(c), len(c))


def combine(f, xs):
    return Arr(xs[0].shape, [f(list(v)) for v in zip(*[x.data
                                                      for x in xs])])


def ks_max(rho):
    def f(c):
        e = [x_fn('exp', x_mul(rho, v)) for v in c]
        return x_div(x_fn('log', x_sum(e)), rho)
    return f


def ks_min(rho):
    g = ks_max(rho)
    return lambda c: A.x_neg(g([A.x_neg(v) for v in c]))


def pnorm(p):
    return lambda c: x_pow(x_sum([x_pow(v, p) for v in c]), Fraction(1, p))


def s_reduce(f):
    def g(a, ins):
        if 'x' in ins:
            return fold_axes(f, ins['x'], a.get('axes'))
        xs = ins['xs']
        r = combine(f, xs)
        return fold_axes(f, r, a['axes']) if 'axes' in a else r
    return g


def s_ext(mk_):
    def g(a, ins):
        f = mk_(ins['rho'])
        if 'xs' in ins:
            return combine(f, ins['xs'])
        return fold_axes(f, ins['x'], (a['axis'], ) if 'axis' in a
                         else None)
    return g


def s_pnorm(a, ins):
    return fold_axes(pnorm(a['p']), ins['x'],
                     (a['axis'], ) if 'axis' in a else a.get('axes'))


def permute(x, p):
    """y[i0, i1, ...] with axis k of y = axis p[k] of x."""
    shape = tuple(x.shape[k] for k in p)
    d = []
    for ix in indices(shape):
        src = [0] * len(p)
        for k, i in zip(p, ix):
            src[k] = i
        d.append(x.at(src))
    return Arr(shape, d)


def s_reorder(a, ins):
    i, o = a['operation'].split('->')
    return permute(ins['A'], [i.index(c) for c in o])


def s_expand(a, ins):
    x, t = ins['x'], a['new_shape']
    if 'indices' not in a or x.shape == (1, ):
        return Arr(t, [x.data[0]] * size(t))
    i, o = a['indices'].split('->')
    pos = [o.index(c) for c in i]
    return Arr(t, [x.at([ix[k] for k in pos]) for ix in indices(t)])


def s_matmat(a, ins):
    P, Q = ins['A'], ins['B']
    if Q.ndim == 1:
        return Arr((P.shape[0], ), [x_sum([
            x_mul(P.at((i, k)), Q.at((k, ))) for k in range(P.shape[1])])
            for i in range(P.shape[0])])
    return Arr((P.shape[0], Q.shape[1]), [x_sum([
        x_mul(P.at((i, k)), Q.at((k, j))) for k in range(P.shape[1])])
        for i in range(P.shape[0]) for j in range(Q.shape[1])])


def s_matvec(a, ins):
    return s_matmat(a, {'A': ins['A'], 'B': ins['x']})


def s_inner(a, ins):
    P, Q = ins['a'], ins['b']
    if 'axes' not in a or (P.ndim == 1 and Q.ndim == 1):
        return Arr((1, ), [x_sum([x_mul(u, v) for u, v in zip(P.data,
                                                             Q.data)])])
    ia = [k % P.ndim for k in a['axes'][0]]
    ib = [k % Q.ndim for k in a['axes'][1]]
    fa = [k for k in range(P.ndim) if k not in ia]
    fb = [k for k in range(Q.ndim) if k not in ib]
    shape = tuple(P.shape[k] for k in fa) + tuple(Q.shape[k] for k in fb)
    d = []
    for ix in indices(shape):
        acc = []
        for jx in indices(tuple(P.shape[k] for k in ia)):
            p, q = [0] * P.ndim, [0] * Q.ndim
            for k, i in zip(fa, ix):
                p[k] = i
            for k, i in zip(fb, ix[len(fa):]):
                q[k] = i
            for k, l, j in zip(ia, ib, jx):
                p[k] = j
                q[l] = j
            acc.append(x_mul(P.at(p), Q.at(q)))
        d.append(x_sum(acc))
    return Arr(shape, d)


def s_dot(a, ins):
    P, Q = ins['a'], ins['b']
    prod = Arr(P.shape, [x_mul(u, v) for u, v in zip(P.data, Q.data)])
    return fold_axes(x_sum, prod, None if P.ndim == 1 else (a['axis'], ))


def s_cross(a, ins):
    P, Q = ins['a'], ins['b']
    ax = a['axis'] % P.ndim
    d = []
    for ix in indices(P.shape):
        def g(M, k):
            j = list(ix)
            j[ax] = k % 3
            return M.at(j)
        k = ix[ax]
        d.append(x_sub(x_mul(g(P, k + 1), g(Q, k + 2)),
                       x_mul(g(P, k + 2), g(Q, k + 1))))
    return Arr(P.shape, d)


def s_outer(a, ins):
    P, Q = ins['a'], ins['b']
    return Arr(P.shape + Q.shape, [x_mul(u, v) for u in P.data
                                   for v in Q.data])


def s_rot(axis):
    def f(a, ins):
        t = ins['angle']
        d = []
        for v in t.data:
            c, s = x_fn('cos', v), x_fn('sin', v)
            n = A.x_neg(s)
            d += {'x': [1, 0, 0, 0, c, n, 0, s, c],
                  'y': [c, 0, s, 0, 1, 0, n, 0, c],
                  'z': [c, n, 0, s, c, 0, 0, 0, 1]}[axis]
        shape = (3, 3) if t.shape == (1, ) else t.shape + (3, 3)
        return Arr(shape, d)
    return f


def s_ifelse(a, ins):
    c = ins['c'].data[0]
    return ins['f'] if A.x_lt(c, 0) else ins['t']


def s_op(f, swap=False):
    def g(a, ins):
        x = ins['x']
        o = ins.get('y', ins.get('k'))
        if not isinstance(o, Arr):
            o = Arr((), [A.entry(o)])
        o = A.broadcast(o, x.shape)
        return Arr(x.shape, [f(w, v) if swap else f(v, w)
                             for v, w in zip(x.data, o.data)])
    return g


NUM = {}
for _n, _f in MATH.items():
    NUM[_n] = (lambda f: lambda a, ins: ew(f)(ins['x']))(_f)
for _l in ('1', '1,axes', 'n', 'n,axes'):
    NUM['sum[%s]' % _l] = s_reduce(x_sum)
    NUM['average[%s]' % _l] = s_reduce(mean)
for _l in ('1', 'n', '1,axis'):
    NUM['max[%s]' % _l] = s_ext(ks_max)
    NUM['min[%s]' % _l] = s_ext(ks_min)
NUM['pnorm'] = NUM['pnorm[axis]'] = NUM['pnorm[axes]'] = s_pnorm
NUM['reshape'] = lambda a, ins: ins['x'].reshape(a['new_shape'])
NUM['transpose'] = lambda a, ins: permute(
    ins['A'], list(range(ins['A'].ndim))[::-1])
NUM['reorder_axes'] = s_reorder
NUM['expand'] = NUM['expand[indices]'] = s_expand
NUM['matmat'] = s_matmat
NUM['matvec'] = s_matvec
NUM['inner'] = NUM['inner[axes]'] = s_inner
NUM['dot'] = NUM['dot[axis]'] = s_dot
NUM['cross'] = s_cross
NUM['outer'] = s_outer
for _x in 'xyz':
    NUM['rotmat[%s]' % _x] = s_rot(_x)
NUM['if_else'] = s_ifelse
for _o, _f in (('add', x_add), ('sub', x_sub), ('mul', x_mul),
               ('truediv', x_div), ('pow', x_pow)):
    for _k in ('expr', 'int', 'float', 'array'):
        NUM['__%s__[%s]' % (_o, _k)] = s_op(_f)
    for _k in ('int', 'float'):
        NUM['__r%s__[%s]' % (_o, _k)] = s_op(_f, True)
NUM['__neg__'] = lambda a, ins: ew(A.x_neg)(ins['x'])
INTEGERS = [{'x': s, 'k': s, '$dtype': d} for s in ((3, ), (2, 3))
            for d in 'iub']
for _o in ('add', 'sub', 'mul', 'truediv'):
    SPECS.setdefault('__%s__[array]' % _o, shapes.Sp(
        lambda: [{'x': s, 'k': s} for s in shapes.SMALL] + INTEGERS,
        lambda a: a['x'], lambda a: None))


# -------------------------------------------------------------- assignments
def total(a):
    n = 0
    for v in a.values():
        if isinstance(v, tuple) and v and isinstance(v[0], tuple):
            n += sum(size(s) for s in v if all(isinstance(x, int)
                                               for x in s))
        elif isinstance(v, tuple):
            n += size([abs(x) for x in v if isinstance(x, int)])
    return n


def ranks(a):
    r = []
    for k in sorted(a):
        v = a[k]
        if k in ('axis', 'axes', 'p', 'operation', 'indices', 'k') and not (
                k == 'k' and isinstance(v, tuple)):
            r.append((k, v))
        elif isinstance(v, tuple) and v and isinstance(v[0], tuple):
            r.append((k, len(v), len(v[0])))
        elif isinstance(v, tuple):
            r.append((k, len(v)))
        else:
            r.append((k, v))
    return tuple(r)


def variety(a):
    s = set()
    ones = 0
    for v in a.values():
        vs = v if isinstance(v, tuple) and v and isinstance(
            v[0], tuple) else (v, )
        for t in vs:
            if isinstance(t, tuple):
                s |= set(t)
                ones += sum(1 for x in t if x == 1)
    return len(s), -ones


def even(a):
    s = set()
    for v in a.values():
        for t in (v if isinstance(v, tuple) and v and isinstance(
                v[0], tuple) else (v, )):
            if isinstance(t, tuple) and len(t) > 1:
                s |= set(t)
    return len(s) == 1 and s != {1}


def choose(sp, valid, tier):
    """A deterministic selection that has every combination of ranks, axes
    and constants."""
    b = {}
    lim = 40 if tier == 'quick' else 80
    for a in sp.gen():
        if valid(a) and total(a) <= lim:
            b.setdefault(ranks(a), []).append(a)
    per = 2 if tier == 'quick' else 6
    out = []
    for r in sorted(b, key=repr):
        l = sorted(b[r], key=lambda a: (tuple(-x for x in variety(a)),
                                        repr(sorted(a.items()))))
        pick = l[:per]
        if l[-1] not in pick:
            pick.append(l[-1])
        for x in l:
            # axes of equal sizes tell a permutation from its inverse only
            # by the positions
            if even(x):
                if x not in pick:
                    pick.append(x)
                break
        out.extend(pick)
    cap = 90 if tier == 'quick' else 400
    if len(out) > cap:
        step = len(out) / float(cap)
        out = [out[int(i * step)] for i in range(cap)]
    return out


def valid_for(sp, name):
    base = (lambda a: sp.valid(a) is not False) if name.endswith(
        '[array]') else (lambda a: sp.valid(a) is True)
    if name.startswith('__pow__') and not name.endswith('[array]'):
        return lambda a: base(a)
    if name == 'reshape':
        return lambda a: base(a)
    return base


def given(assume):
    return tuple((c.op, c.a, c.b, v) for c, v in assume)


class Tally(object):
    def __init__(self):
        self.d = {}

    def note(self, rule, inst, v, msg='', where=None):
        c = self.d.setdefault((rule, inst), [0, 0, None, None, {}])
        if v is True:
            c[0] += 1
        elif v is None:
            c[1] += 1
            c[4][msg] = c[4].get(msg, 0) + 1
        elif c[2] is None:
            c[2], c[3] = msg, where

    def emit(self, rep, what):
        for (rule, inst), (ok, und, msg, where, why) in sorted(
                self.d.items()):
            if msg is not None:
                rep.bad(rule, where, inst, msg)
            elif und or not ok:
                rep.und(rule, inst, '%d of %d %s: %s' % (
                    und, ok + und, what, sorted(why.items())[:9]))
            else:
                rep.ok(rule, inst, '%d %s' % (ok, what))
                rep.notes['assignments'] = rep.notes.get(
                    'assignments', 0) + ok


def compare(x, y, assume, ties=False):
    """True / False / None for two arrays; on False the first difference."""
    if x.shape != y.shape and x.size != y.size:
        return False, 'shape %s instead of %s' % (x.shape, y.shape)
    unk = None
    for k, (u, v) in enumerate(zip(x.data, y.data)):
        e = R.equal(R.lift(u), R.lift(v), given(assume), ties)
        if e is False:
            ix = pos(k, y.shape)
            return False, 'element %s is %s instead of %s' % (
                ix, R.show(R.lift(u)), R.show(R.lift(v)))
        if e is None:
            unk = 'element %s: %s and %s not comparable' % (
                pos(k, y.shape), R.show(R.lift(u)), R.show(R.lift(v)))
    return (None if unk else True), unk


def pos(k, shape):
    r = []
    for n in reversed(shape):
        r.append(k % n)
        k //= n
    return tuple(reversed(r))


def sites(ctx, names, tier):
    """(root, assignment, result instance) of the named cases."""
    w = ctx.world
    for root in ctx.roots():
        nm = root.case.name
        if nm not in names:
            continue
        sp = SPECS.get(nm)
        if sp is None or root.problem or root.always_raises:
            yield root, None, None
            continue
        for a in choose(sp, valid_for(sp, nm), tier):
            if time.time() > ctx.deadline:
                root.problem = root.problem or 'out of time'
                yield root, None, None
                break
            env = shapes.environment(root.case, a)
            try:
                r = raised(root.raises, env)[0]
            except Exception:
                r = None
            if r is not False:
                continue
            hit, unk = shapes.instance_for(root, env)
            yield root, a, hit


def intermediates(w, root, env, inst, hit, memo):
    """Values of the intermediate results a component reads."""
    for i in hit:
        if i is inst or i.out is inst.out or i.out in env:
            continue
    return


def bind_intermediates(w, root, a, env, hit, inst, mode):
    """Give the intermediate results their value (mode 'value') or fresh
    symbols (mode 'symbols')."""
    objs = [i.out for i in hit if i.out is not inst.out]
    for n, o in enumerate(sorted(set(objs), key=key)):
        y = Sym('v%d' % n)
        env[o] = y
        for i in hit:
            if i.out is o and i.root_state is not None:
                sh = i.root_state.get(o, 'shape')
                if sh is not None:
                    try:
                        env[(y, 'shape')] = asshape(ev(sh, env))
                    except (Unknown, Fails):
                        pass
        if (y, 'shape') in env:
            env[(y, 'value')] = symbols(y.label, env[(y, 'shape')])
    if mode == 'symbols':
        return
    todo = [i for i in hit if i.out is not inst.out]
    for _ in range(len(todo)):
        rest = []
        for i in todo:
            y = env[i.out]
            e = dict(env)
            e['$memo'] = {}
            s = Site(w, root, i, e)
            try:
                deps = [n.sym for n in s.input_names()]
                if any(j is not i and env.get(j.out) in deps
                       for j in todo):
                    rest.append(i)
                    continue
                v = s.forward()
            except (Unknown, Fails):
                env.pop((y, 'value'), None)
                continue
            env[(y, 'value')] = v
        if not rest:
            break
        todo = rest


def rules_for(names):
    return make_rules(names)


def make_rules(names):
    names = set(names)

    def rule_value(ctx, rep):
        w = ctx.world
        t = Tally()
        for root, a, hit in sites(ctx, names, ctx.tier):
            nm = root.case.name
            if a is None:
                t.note('computes', nm, None, root.problem or 'raises')
                continue
            res = [i for i in hit if wiring.is_result(i)]
            if len(res) != 1:
                t.note('computes', nm, None, '%d results' % len(res))
                continue
            inst = res[0]
            site = wiring.site_key(inst)

            def run():
                env, ins = environment(root.case, a)
                bind_intermediates(w, root, a, env, hit, inst, 'value')
                want = NUM[nm](a, ins)
                return Site(w, root, inst, env).forward(), want
            check(t, 'computes', site, a, run,
                  wiring.where_of(inst), 'the result', True)
        t.emit(rep, 'assignments')

    def rule_jacobian(ctx, rep):
        w = ctx.world
        t = Tally()
        for root, a, hit in sites(ctx, names, ctx.tier):
            nm = root.case.name
            if a is None:
                t.note('derivative', nm, None, root.problem or 'raises')
                continue
            if not hit:
                t.note('derivative', nm, None, 'no component')
            for inst in hit:
                site = wiring.site_key(inst)

                def setup():
                    env, ins = environment(root.case, a)
                    bind_intermediates(w, root, a, env, hit, inst,
                                       'symbols')
                    return Site(w, root, inst, env)
                try:
                    s = setup()
                    wrts = s.input_names()
                except (Unknown, Fails) as e:
                    t.note('derivative', site, None, str(e))
                    continue
                for k, n in enumerate(wrts):
                    lab = n.sym.label

                    def run():
                        s = setup()
                        x = [y for y in s.input_names()
                             if y.sym.label == lab][0]
                        f = s.forward()
                        j = s.jacobian(x)
                        ni = size(s.shape_of(x))
                        atoms = s.env.get((x.sym, 'value'))
                        if atoms is None:
                            raise Unknown('operand value')
                        want, got = [], []
                        for o, u in enumerate(f.data):
                            for i in range(ni):
                                v = single_atom(atoms.data[i])
                                want.append(A.un(R.diff(R.lift(u), v)))
                                got.append(j.get((o, i), 0))
                        return (Arr((f.size, ni), got),
                                Arr((f.size, ni), want))
                    check(t, 'derivative', '%s operand %s' % (
                        site, lab.rstrip('0123456789')), a, run,
                        wiring.where_of(inst),
                        'the derivative with respect to %s' % lab,
                        nm == 'if_else')
        t.emit(rep, 'assignments')
    return [rule_value, rule_jacobian]


def rule_no_overflow(ctx, rep):
    """The exponentials of the smooth extrema are taken of values that are
    never positive."""
    w = ctx.world
    t = Tally()
    for root, a, hit in sites(ctx, GROUPS['C06'], ctx.tier):
        nm = root.case.name
        if a is None:
            t.note('overflow', nm, None, root.problem or 'raises')
            continue
        for inst in hit:
            site = wiring.site_key(inst)

            def run():
                got = []
                A.EXPS.append(got)
                try:
                    env, ins = environment(root.case, a)
                    bind_intermediates(w, root, a, env, hit, inst,
                                       'symbols')
                    s = Site(w, root, inst, env)
                    s.forward()
                    for x in s.input_names():
                        s.jacobian(x)
                finally:
                    A.EXPS.pop()
                return got
            try:
                rs = A.cases(run)
            except (Unknown, R.NotReal) as e:
                t.note('overflow', site, None, str(e))
                continue
            for assume, v in rs:
                if isinstance(v, (Unknown, Fails)):
                    t.note('overflow', site, None, str(v))
                    continue
                r, msg = True, ''
                for f, u in v:
                    if f in ('cosh', 'sinh'):
                        q = None
                    else:
                        q = R.nonpositive(R.lift(u))
                    if q is False:
                        r = False
                        msg = ('for %s %s(%s) overflows for large values'
                               % (fmt(a), f, R.show(R.lift(u))))
                        break
                    if q is None:
                        r, msg = None, 'sign of %s' % R.show(R.lift(u))
                if r is True:
                    z = R.vanishing([R.lift(u) for f, u in v if f == 'exp'])
                    if z is not None:
                        r, msg = False, (
                            'for %s every exponential vanishes where the '
                            'shift is %s: the logarithm of their sum is '
                            'infinite' % (fmt(a), R.show(z)))
                t.note('overflow', site, r, msg, wiring.where_of(inst))
    t.emit(rep, 'assignments')


def single_atom(v):
    m = R.single(v)
    return m[0][0][0]


def check(t, rule, site, a, run, where, what, ties=False):
    try:
        rs = A.cases(run)
    except Unknown as e:
        t.note(rule, site, None, str(e))
        return
    except R.NotReal as e:
        t.note(rule, site, None, str(e))
        return
    for assume, v in rs:
        if isinstance(v, Unknown):
            t.note(rule, site, None, str(v))
        elif isinstance(v, Fails):
            t.note(rule, site, False, 'for %s evaluating %s fails: %s'
                   % (fmt(a), what, v), where)
        else:
            try:
                r, msg = compare(v[0], v[1], assume, ties)
            except R.NotReal as e:
                r, msg = None, str(e)
            if r is False:
                cond = ''.join(' when %s%s' % ('' if b else 'not ', c)
                               for c, b in assume[:2])
                t.note(rule, site, False, 'for %s%s %s differs from the '
                       'definition: %s' % (fmt(a), cond, what, msg), where)
            else:
                t.note(rule, site, r, msg or '')


GROUPS = {
    'C01': list(MATH), 'C02': list(MATH),
    'C03': [n for n in NUM if n.startswith('__')],
    'C05': [n for n in NUM if n.startswith(('sum', 'average'))],
    'C06': [n for n in NUM if n.startswith(('max', 'min'))],
    'C07': ['pnorm', 'pnorm[axis]', 'pnorm[axes]'],
    'C08': ['matmat', 'matvec', 'inner', 'inner[axes]', 'dot', 'dot[axis]',
            'outer', 'cross'],
    'C10': ['reshape', 'transpose', 'reorder_axes', 'expand',
            'expand[indices]', 'rotmat[x]', 'rotmat[y]', 'rotmat[z]'],
    'C27': ['if_else'],
}
