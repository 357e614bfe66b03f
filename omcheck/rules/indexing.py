"""C28: blocks selected from an expression and blocks placed in an output.

x[key] and y[key] = e are evaluated abstractly with the entries of the key,
the shapes and the values as symbols; the components that the objects they
leave behind build are elaborated, and the value graphs of the outputs and
partial derivatives are compared with the positions the key stands for, for
every key of small arrays."""
import itertools
from .common import *
from ..sites import P, Case, Root, Instance
from .. import arrays as A
from ..arrays import Arr, Name
from ..evalu import Unknown, Fails, Sym, ev, truthv
from .numeric import Site, symbols
from .outputs import (Scene, Verdict, SE, SY, key_term, key_env, key_text,
                      keys, selected, thin, step_raises, before_ok,
                      shape_env, where_of, undecided)


class Part(Site):
    """A component with several outputs, under one assignment."""

    def __init__(self, w, inst, env):
        self.w = w
        self.inst = inst
        self.env = env
        self.m = w.model(inst)
        self._decls = {}
        self.name = None

    def output_names(self):
        r = []
        for d, e in self.decls('add_output'):
            n = self.arg(d, e, 'name')
            if not isinstance(n, Name):
                raise Unknown('output name')
            if n in r:
                raise Fails('an output is added twice')
            r.append(n)
        return r

    def of(self, name):
        self.name = name
        return self

    def input_shape(self, name):
        for d, e in self.decls('add_input'):
            if self.arg(d, e, 'name') == name:
                s = self.arg(d, e, 'shape')
                return (1, ) if s is None else A.arr(s).data and tuple(
                    A.arr(s).data)
        raise Unknown('input')

    def forward(self):
        shape = self.out_shape()
        hit = None
        prev = {}

        def slot(k):
            if isinstance(k, Name):
                return symbols('previous', self.shape_of(k))
            raise Unknown('output slot')
        self.env[('$slot', 'outputs')] = slot
        for k, v in self.m.forward.items():
            kv = ev(k, self.env)
            if kv == self.name:
                if hit is not None:
                    raise Unknown('two assignments')
                hit = v
            elif not isinstance(kv, Name):
                raise Unknown('output key')
        if hit is None:
            raise Fails('the output is not assigned')
        return A.fit(ev(hit, self.env), shape)


def label(env, o, n, shape, value=True):
    s = Sym(n)
    env[o] = s
    env[(s, 'shape')] = shape
    if value:
        env[(s, 'value')] = symbols(n, shape)
    return Name(s)


def instances(sc, o, state):
    """Instances of the component the object o builds."""
    w = sc.w
    r = Root(Case('history', []))
    h = sc.h
    it = h.it
    it.stack.append(h.act)
    saved = it.raise_log
    it.raise_log = []
    try:
        return [i for i in w.builds(r, (), o, state) if i.out is o]
    finally:
        it.raise_log = saved
        it.stack.pop()


def conds_hold(inst, env):
    for c, v in inst.conds:
        if truthv(ev(c, env)) != v:
            return False
    return True


def pick(insts, env):
    r = [i for i in insts if conds_hold(i, env)]
    if len(r) != 1:
        raise Unknown('%d components are built' % len(r))
    if r[0].cls is None:
        raise Unknown('component')
    return r[0]


def cell_items(sc, state, t):
    c = sc.h.it.content(state, t) if t is not None and t.op == 'cell' else t
    return c


def jac_diff(got, want):
    for k in sorted(set(got) | set(want)):
        g, w = got.get(k, 0), want.get(k, 0)
        if not g == w:
            return k, g, w
    return None


def values_diff(got, want):
    """First position at which two arrays differ."""
    for n, (g, w) in enumerate(zip(got.data, want)):
        if w is None or g == w:
            continue
        return n, g, w
    return None


def expression(sc):
    """An expression with a symbolic shape and value."""
    return sc.do(sc.h.new(sc.w.variable, shape=SE(1),
                          val=P('v', 'ndarray')))


def parent(state, o, it):
    """The objects an expression depends on."""
    d = state.get(o, 'dependencies')
    if d is None:
        return None
    c = it.content(state, d) if d.op == 'cell' else d
    if c.op == 'tup':
        return list(c.args)
    return None


def chain(sc, state, o, x):
    """The object between o and x that builds the component."""
    it = sc.h.it
    p = parent(state, o, it)
    if p is None or len(p) != 1:
        return None
    if p[0] is x:
        return o
    q = parent(state, p[0], it)
    if q is None:
        return None
    if x not in q and all(o.op == 'obj' for o in q):
        return False
    if len(q) != 1:
        return None
    return p[0]


VALS = ('full', 'one')


def rule_select(ctx, rep):
    rule = 'selected-block'
    deep = ctx.tier != 'quick'
    pats = [('i', ((3, ), (5, ))), ('s', ((4, ), (5, ))),
            (('s', ), ((4, ), )), (('i', ), ((3, ), )),
            (('s', 's'), ((2, 3), (3, 2), (1, 4))),
            (('s', 'i'), ((2, 3), (3, 2))), (('i', 's'), ((2, 3), (3, 3))),
            (('i', 'i'), ((2, 3), (3, 1))),
            (('s', 's', 's'), ((2, 2, 3), (3, 2, 4))),
            (('s', 'i', 's', 's'), ((2, 2, 2, 3), (2, 1, 3, 2))),
            (('i', 's', 'i'), ((2, 3, 2), ))]
    cap = 60 if not deep else 400
    for pat, shapes in pats:
        sc = Scene(ctx)
        x = expression(sc)
        e = sc.do(sc.h.getitem(x, key_term(pat, 1)))
        st = sc.last()
        wh = where_of(sc, x, '__getitem__')
        nm = 'x[%s]' % ', '.join(pat if isinstance(pat, tuple) else [pat])
        vr = Verdict(rep, rule, nm + ' accepted', wh)
        vs = Verdict(rep, rule, nm + ' shape', wh)
        vv = Verdict(rep, rule, nm + ' initial value', wh)
        vc = Verdict(rep, rule, nm + ' computed', wh)
        vj = Verdict(rep, rule, nm + ' derivative', wh)
        if st.dead or e is None or e.op != 'obj':
            vr.note(None if not st.dead else False,
                    'the result is not a new expression' if not st.dead
                    else 'x[key] is refused for every key')
            vr.done()
            continue
        mid = chain(sc, st.state, e, x)
        insts = instances(sc, mid, st.state) if mid else []
        if mid is False:
            vc.note(False, '%s does not depend on x' % nm)
        for shape in shapes:
            for k in thin(keys(pat, shape, True), cap):
                sel = selected(pat, k, shape)
                txt = 'for x of shape %s, x[%s]' % (shape, key_text(pat, k))
                for mode in VALS:
                    if mode == 'one' and sel == 'range':
                        continue
                    vshape = shape if mode == 'full' else (1, )
                    v = symbols('v', vshape)
                    env = shape_env(s1=shape)
                    env[P('v', 'ndarray')] = v
                    key_env(env, pat, 1, k)
                    r, loc = step_raises(st, env)
                    if r is None:
                        vr.note(None, undecided(st, env))
                        continue
                    vr.note(r == (sel == 'range'), '%s is %s' % (
                        txt, 'refused' if r else
                        'accepted although it is out of range'), loc)
                    if r or sel == 'range':
                        continue
                    try:
                        s = ev(st.state.get(e, 'shape'), env)
                        s = tuple(A.arr(s).data) if not isinstance(
                            s, tuple) else s
                        vs.note(s == sel[0], '%s has shape %s instead of '
                                '%s' % (txt, s, sel[0]))
                        if s != sel[0]:
                            continue
                    except (Unknown, Fails) as ex:
                        vs.note(None if isinstance(ex, Unknown) else False,
                                '%s: %s' % (txt, ex))
                        continue
                    want = [v.data[0 if mode == 'one' else f]
                            for f in sel[1]]
                    try:
                        got = ev(st.state.get(e, 'val'), env)
                        got = A.arr(got)
                        ok = got.shape == sel[0] and not values_diff(
                            got, want)
                        vv.note(ok, 'the initial value of %s is not the '
                                'block of the initial value of x' % txt)
                    except Unknown as ex:
                        vv.note(None, str(ex))
                    except Fails as ex:
                        vv.note(False, '%s: %s' % (txt, ex))
                    if mode == 'one':
                        continue
                    component(sc, insts, env, x, [(e, sel)], shape, txt,
                              vc, vj)
        for v in (vr, vs, vv, vc, vj):
            v.done()


def component(sc, insts, env, x, outs, shape, txt, vc, vj):
    """The component computes the blocks of x."""
    w = sc.w
    xn = label(env, x, 'x', shape)
    names = [label(env, e, 'e%d' % n, sel[0], False)
             for n, (e, sel) in enumerate(outs)]
    try:
        inst = pick(insts, env)
        site = Part(w, inst, env)
        have = site.output_names()
        ins = site.input_names()
        if xn not in ins:
            vc.note(False, '%s: the component does not read x' % txt)
            return
        for n, (nm, (e, sel)) in enumerate(zip(names, outs)):
            if nm not in have:
                vc.note(False, '%s: the component has no output for it'
                        % txt)
                continue
            got = site.of(nm).forward()
            want = [env[(xn.sym, 'value')].data[f] for f in sel[1]]
            bad = got.shape != sel[0] or values_diff(got, want)
            vc.note(not bad, '%s computes something else than the block: '
                    'element %s' % (txt, bad[0] if isinstance(
                        bad, tuple) else 'shape'))
    except Unknown as ex:
        vc.note(None, str(ex))
        return
    except Fails as ex:
        vc.note(False, '%s: %s' % (txt, ex))
        return
    for n, (nm, (e, sel)) in enumerate(zip(names, outs)):
        try:
            j = site.of(nm).jacobian(xn)
            want = {(o, i): 1 for o, i in enumerate(sel[1])}
            d = jac_diff(j, want)
            vj.note(d is None, '%s reports %s for entry %s of the '
                    'derivative instead of %s' % ((txt, ) + (
                        (d[1], d[0], d[2]) if d else (0, 0, 0))))
        except Unknown as ex:
            vj.note(None, str(ex))
        except Fails as ex:
            vj.note(False, '%s: %s' % (txt, ex))


def const_key(pat, val):
    if isinstance(pat, tuple):
        return mk('tup', *[const_key(p, v) for p, v in zip(pat, val)])
    return const(val) if pat == 'i' else mk('sl', *[const(v) for v in val])


SEQUENCES = (
    (1, ('s', (0, 2, None)), ('s', (1, 3, None))),
    (1, ('s', (1, 3, None)), ('s', (0, 2, None)), ('s', (1, 3, None))),
    (1, ('i', 2), ('i', 0), ('i', 2)),
    (1, ('i', 1), ('s', (1, 2, None)), ('s', (0, 3, 2))),
    (1, ('s', (0, 4, 2)), ('s', (0, 4, 3)), ('s', (0, 4, None))),
    (2, (('s', 's'), ((0, 2, None), (1, 3, None))),
     (('i', 's'), (1, (0, 3, None))), (('s', 's'), ((0, 2, None),
                                                    (1, 3, None)))),
    (2, (('i', 'i'), (1, 2)), (('i', 'i'), (0, 1)), (('i', 'i'), (1, 1))),
    (2, (('s', 's'), ((0, 2, None), (0, 3, 2))),
     (('s', 's'), ((0, 2, None), (0, 3, None)))),
)


def rule_sequences(ctx, rep):
    """Several blocks of one expression; blocks of several expressions."""
    rule = 'blocks-independent'
    for seq in SEQUENCES:
        rank, ks = seq[0], seq[1:]
        shapes = ((4, ), (5, )) if rank == 1 else ((2, 3), (3, 4))
        for other in (False, True):
            sc = Scene(ctx)
            x = expression(sc)
            z = None
            if other:
                z = sc.do(sc.h.new(ctx.world.variable, shape=SE(1),
                                   val=P('u', 'ndarray')))
            es, zs = [], []
            for p, k in ks:
                es.append(sc.do(sc.h.getitem(x, const_key(p, k))))
                if other:
                    zs.append(sc.do(sc.h.getitem(z, const_key(p, k))))
            st = sc.last()
            wh = where_of(sc, x, '__getitem__')
            nm = ' then '.join('x[%s]' % key_text(p, k) for p, k in ks) + (
                ', and the same of another expression' if other else '')
            v = Verdict(rep, rule, nm, wh)
            vj = Verdict(rep, rule, nm + ' (derivatives)', wh)
            if st.dead:
                v.note(False, 'refused')
                v.done()
                continue
            for base, rs in ((x, es), (z, zs)):
                if base is None:
                    continue
                first = {}
                for (p, k), e in zip(ks, rs):
                    if e is None or e.op != 'obj':
                        v.note(None, 'result')
                        continue
                    if (p, k) in first:
                        if e is not first[p, k]:
                            # a second expression for the same block is
                            # fine when both are computed
                            first[p, k, len(first)] = e
                    else:
                        first[p, k] = e
                outs = list(first.items())
                for shape in shapes:
                    env = shape_env(s1=shape)
                    env[P('v', 'ndarray')] = symbols('v', shape)
                    env[P('u', 'ndarray')] = symbols('u', shape)
                    bad = [s for s in sc.steps
                           if step_raises(s, env)[0] is not False]
                    if bad:
                        r = step_raises(bad[0], env)[0]
                        v.note(None if r is None else False,
                               'for x of shape %s a block in range is '
                               'refused' % (shape, ))
                        continue
                    groups = {}
                    for kk, e in outs:
                        sel = selected(kk[0], kk[1], shape)
                        mid = chain(sc, st.state, e, base)
                        groups.setdefault(mid, []).append((e, sel))
                    txt = 'for x of shape %s, %s' % (shape, nm)
                    for mid, g in groups.items():
                        if mid is None:
                            v.note(None, 'dependencies')
                            continue
                        if mid is False:
                            v.note(False, '%s: a block does not depend on '
                                   'the expression it is taken from' % txt)
                            continue
                        g = [b for n, b in enumerate(g) if b not in g[:n]]
                        if any(a is b for n, (a, _) in enumerate(g)
                               for b, _ in g[:n]):
                            v.note(False, '%s: one expression stands for '
                                   'two different blocks' % txt)
                            continue
                        component(sc, instances(sc, mid, st.state),
                                  dict(env), base, g, shape, txt, v, vj)
            v.done()
            if v.fail is None:
                vj.done()


def rule_place(ctx, rep):
    """Assigned blocks land at the positions of their keys."""
    rule = 'placed-block'
    deep = ctx.tier != 'quick'
    cap = 40 if not deep else 300
    jobs = [(('i', ), ((2, ), (3, ))), (('s', ), ((3, ), (4, ))),
            (('i', 's'), ((3, ), (4, ))), (('s', 's'), ((4, ), )),
            (('s', 'i', 's'), ((5, ), )),
            ((('s', 's'), ), ((2, 3), (3, 2))),
            ((('i', 's'), ), ((2, 3), (3, 2))),
            ((('s', 'i'), ), ((2, 3), (3, 2))),
            ((('i', 'i'), ), ((2, 2), (1, 3))),
            ((('s', 's'), ('s', 's')), ((2, 3), )),
            ((('s', 'i'), ('s', 's')), ((3, 2), )),
            ((('s', 'i', 's'), ), ((2, 2, 3), )),
            ((('s', 's', 's'), ), ((3, 2, 4), )),
            ((('s', 'i', 's', 's'), ), ((2, 2, 2, 3), (2, 1, 3, 2)))]
    for ps, shapes in jobs:
        sc = Scene(ctx)
        y = sc.output()
        ex = [sc.expr(n + 1) for n in range(len(ps))]
        for n, p in enumerate(ps):
            sc.do(sc.h.setitem(y, key_term(p, n + 1), ex[n]))
        st = sc.last()
        wh = where_of(sc, y, '__setitem__')
        nm = ' then '.join('y[%s] = e' % ', '.join(
            p if isinstance(p, tuple) else [p]) for p in ps)
        v = Verdict(rep, rule, nm, wh)
        vj = Verdict(rep, rule, nm + ' (derivatives)', wh)
        if st.dead:
            v.note(False, 'refused')
            v.done()
            continue
        insts = instances(sc, y, st.state)
        for shape in shapes:
            todo = []
            for ks in itertools.product(*[[k for k in keys(p, shape, deep)
                                           if selected(p, k, shape) !=
                                           'range'] for p in ps]):
                sel = [selected(p, k, shape) for p, k in zip(ps, ks)]
                flat = [f for s in sel for f in s[1]]
                if len(set(flat)) == len(flat):
                    todo.append((ks, sel))
            for ks, sel in thin(todo, cap):
                env = shape_env(sy=shape)
                for n, (p, k) in enumerate(zip(ps, ks)):
                    key_env(env, p, n + 1, k)
                    env[SE(n + 1)] = sel[n][0]
                txt = 'for y of shape %s and %s' % (shape, ' then '.join(
                    'y[%s] = e' % key_text(p, k) for p, k in zip(ps, ks)))
                r = before_ok(sc.steps, env)
                if r is not False:
                    v.note(None if r is None else False,
                           'condition' if r is None else '%s: refused' % txt)
                    continue
                placed(sc, insts, env, y, ex, sel, shape, txt, v, vj)
        v.done()
        if v.fail is None:
            vj.done()


def placed(sc, insts, env, y, ex, sel, shape, txt, v, vj):
    yn = label(env, y, 'y', shape, False)
    ns = [label(env, e, 'e%d' % (n + 1), s[0])
          for n, (e, s) in enumerate(zip(ex, sel))]
    try:
        site = Part(sc.w, pick(insts, env), env)
        ins = site.input_names()
        for n, nm in enumerate(ns):
            if nm not in ins:
                v.note(False, '%s: the component does not read expression '
                       '%d' % (txt, n + 1))
                return
        got = site.of(yn).forward()
        want = [None] * A.size(shape)
        for nm, s in zip(ns, sel):
            for o, f in enumerate(s[1]):
                want[f] = env[(nm.sym, 'value')].data[o]
        bad = got.shape != shape or values_diff(got, want)
        v.note(not bad, '%s: element %s of y is %s instead of %s' % (
            (txt, ) + (bad if isinstance(bad, tuple) else ('-', ) * 3)))
    except Unknown as ex_:
        v.note(None, str(ex_))
        return
    except Fails as ex_:
        v.note(False, '%s: %s' % (txt, ex_))
        return
    for n, (nm, s) in enumerate(zip(ns, sel)):
        try:
            d = jac_diff(site.of(yn).jacobian(nm),
                         {(f, o): 1 for o, f in enumerate(s[1])})
            vj.note(d is None, '%s reports %s for entry %s of the '
                    'derivative with respect to expression %d instead of '
                    '%s' % ((txt, ) + ((d[1], d[0], n + 1, d[2]) if d else
                                       (0, 0, 0, 0))))
        except Unknown as ex_:
            vj.note(None, str(ex_))
        except Fails as ex_:
            vj.note(False, '%s: %s' % (txt, ex_))


NAMES = ['x', 'y', 'X', 'xy', 'yx', 'x_', '_x', 'x1', 'x2', 'x10', 'x01',
         'velocity_x', 'velocity_y', 'x_velocity', 'y_velocity', '_0000',
         '_0001', '_1000', '_000000', 'a' * 70 + 'b', 'a' * 70 + 'c',
         'b' + 'a' * 70, 'c' + 'a' * 70, 'comp', 'decompose', 'in1', 'in2']


def rule_names(ctx, rep):
    """The part of the model that takes the blocks of an expression is named
    after it: expressions of different names never share it."""
    rule = 'blocks-named-apart'
    sc = Scene(ctx)
    nm = P('name', 'str')
    x = sc.do(sc.h.new(sc.w.variable, shape=SE(1), name=nm,
                       val=P('v', 'ndarray')))
    es = [sc.do(sc.h.getitem(x, const_key('s', (0, 1, None)))),
          sc.do(sc.h.getitem(x, const_key('s', (1, 3, None))))]
    st = sc.last()
    wh = where_of(sc, x, '__getitem__')
    v = Verdict(rep, rule, 'x[0:1], x[1:3]', wh)
    if st.dead or any(e is None or e.op != 'obj' for e in es):
        v.note(None, 'blocks')
        v.done()
        return
    mids = []
    for e in es:
        m = chain(sc, st.state, e, x)
        if m is None or m is False:
            v.note(None, 'dependencies')
            v.done()
            return
        if m not in mids:
            mids.append(m)
    seen = {}
    for m in list(mids):
        k = st.state.get(m, 'name')
        if k is None or contains(k, lambda s: s is nm):
            continue
        mids.remove(m)
        if k is st.state.get(m, '_id'):
            v.note(True, '')        # an automatic name (C24)
            continue
        ids = [i for i in (st.state.get(m, '_id'), st.state.get(x, '_id'))
               if i is not None]
        try:
            env = shape_env(s1=(4, ))
            one = ev(k, env)
            v.note(None if contains(k, lambda s: s in ids) else False,
                   'the part of the model that takes the blocks of an '
                   'expression is named %s whatever the expression is'
                   % one)
        except (Unknown, Fails) as ex:
            v.note(None, str(ex))
    for n in NAMES:
        for m in mids:
            env = shape_env(s1=(4, ))
            env[nm] = n
            try:
                k = ev(st.state.get(m, 'name'), env)
            except (Unknown, Fails) as ex:
                v.note(None, str(ex))
                continue
            if not isinstance(k, str):
                v.note(None, 'name')
                continue
            if k in seen:
                a = seen[k]
                v.note(False, 'the part of the model that takes blocks of '
                       'an expression named %s and the one for %s are both '
                       'named %s' % (a, n if n != a else 'another block',
                                     k))
            else:
                seen[k] = n
                v.note(True, '')
    v.done()


RULES = [rule_select, rule_sequences, rule_place, rule_names]
