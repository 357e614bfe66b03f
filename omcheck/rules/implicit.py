"""C23: implicit components: the residuals the user defined are what the
component evaluates, differentiates and solves.

Small implicit models are built through the declaring calls, evaluated
abstractly; the inner OpenMDAO problem is a value that assignments, setup and
run_model change.  What each of the component's methods leaves in the vectors
it is given is a term over the inputs, the outputs, the values the inner
problem shows after a run and the derivatives it reports at that point; the
term is compared with the residual the user defined."""
import ast
import fnmatch
import zlib
from fractions import Fraction
from .common import *
from .. import arrays as A
from .. import evalu as V
from ..arrays import Arr, size
from ..evalu import Unknown, Fails, ev, truthv
from ..history import History, overwrite, wrapped
from ..interp import is_problem
from ..om import INPUTS, OUTPUTS, PARTIALS, Model
from ..program import AnalysisError, Class
from ..report import Report
from ..sites import P
from ..terms import mk, const, is_const, cval, NONE, T


class Out(object):
    def __init__(self, name, shape, bracket=None):
        self.name, self.shape, self.bracket = name, shape, bracket


class Scenario(object):
    """inputs: (object, name, shape, when); exprs: (object, dependencies) in
    the order they are written; residuals: output -> object, in the order
    they are defined."""

    def __init__(self, label, outputs, inputs, exprs, residuals,
                 subsystem=False, extra=None):
        self.label = label
        self.outs = outputs
        self.inputs = inputs
        self.exprs = exprs
        self.residuals = residuals
        self.subsystem = subsystem
        self.extra = extra
        self.shape = {o.name: o.shape for o in outputs}
        self.inner = set()
        for obj, name, shape, when in inputs:
            self.shape[name] = shape
            if when == 'after':
                self.inner.add(name)
        self.res = {r: o for o, r in residuals}
        d = dict(exprs)
        names = {obj: name for obj, name, _, _ in inputs}
        self.deps = {}
        for o, r in residuals:
            seen, todo = [], [r]
            while todo:
                for x in d[todo.pop()]:
                    if x in d:
                        todo.append(x)
                    elif names.get(x, x) not in seen:
                        seen.append(names.get(x, x))
            self.deps[o] = [x for x in seen if x not in self.inner]
        self.ins = sorted({x for v in self.deps.values() for x in v}
                          - {o.name for o in outputs})

    def out(self, name):
        return next(o for o in self.outs if o.name == name)

    def reaches(self, o):
        """Everything the value of output o can depend on."""
        r, todo = set(), [o]
        while todo:
            for x in self.deps.get(todo.pop(), ()):
                if x not in r:
                    r.add(x)
                    todo.append(x)
        return r


Y1, Y2, Y23 = (1, ), (2, ), (2, 3)
SCENARIOS = [
    Scenario('one output, one input', [Out('y', Y23)],
             [('a', 'a', Y23, 'before')], [('r', ['y', 'a'])],
             [('y', 'r')]),
    Scenario('no input', [Out('y', Y2, ('s', -4, 5))], [],
             [('r', ['y'])], [('y', 'r')]),
    Scenario('nested expressions', [Out('y', Y1, ('s', -4, 5))],
             [('a', 'a', Y1, 'before'), ('b', 'b', Y2, 'before')],
             [('e', ['a', 'y']), ('f', ['e', 'b']), ('r', ['f', 'y'])],
             [('y', 'r')]),
    Scenario('brackets for one of two outputs',
             [Out('y', Y2, ('a', )), Out('z', (3, ))],
             [('a', 'a', Y2, 'before'), ('b', 'b', Y1, 'before'),
              ('b2', 'b', Y1, 'before')],
             [('q', ['z', 'a', 'b2']), ('r', ['y', 'a', 'b'])],
             [('z', 'q'), ('y', 'r')]),
    Scenario('different brackets',
             [Out('y', Y1, ('s', 5, -4)), Out('z', (2, 2), ('a', ))],
             [('a', 'a', Y1, 'before'), ('b', 'b', (2, 2), 'before')],
             [('r', ['y', 'a']), ('q', ['b', 'z', 'a'])],
             [('y', 'r'), ('z', 'q')]),
    Scenario('coupled through a shared expression',
             [Out('y', Y2), Out('z', Y2)],
             [('a', 'a', Y2, 'before')],
             [('s', ['y', 'z']), ('r', ['y', 's']), ('q', ['z', 's', 'a'])],
             [('y', 'r'), ('z', 'q')]),
    Scenario('coupled directly', [Out('y', Y2), Out('z', (3, ))],
             [('a', 'a', Y2, 'before'), ('b', 'b', Y1, 'before')],
             [('r', ['y', 'z', 'a']), ('q', ['z', 'b', 'y'])],
             [('y', 'r'), ('z', 'q')]),
    Scenario('three outputs in a ring',
             [Out('y', Y2), Out('z', (3, )), Out('x', Y1)],
             [('a', 'a', Y2, 'before')],
             [('r', ['y', 'z', 'a']), ('q', ['z', 'x']), ('p', ['x', 'y'])],
             [('y', 'r'), ('z', 'q'), ('x', 'p')]),
    Scenario('child system', [Out('y', Y2, ('a', ))],
             [('a', 'a', Y2, 'before'), ('c', 'c', Y2, 'after')],
             [('e', ['c', 'a']), ('r', ['y', 'e'])],
             [('y', 'r')], subsystem=True),
    Scenario('a residual of a residual', [Out('y', Y2), Out('z', Y2)],
             [('a', 'a', Y2, 'before'), ('b', 'b', Y2, 'before')],
             [('r', ['y', 'a']), ('q', ['r', 'b', 'z'])],
             [('y', 'r'), ('z', 'q')]),
    Scenario('roots at the ends and the middle',
             [Out('y', (2, 4), ('m', )), Out('z', (2, ), ('m', ))], [],
             [('r', ['y']), ('q', ['z'])], [('y', 'r'), ('z', 'q')]),
    Scenario('many inputs', [Out('y', Y2)],
             [(x, x, Y2, 'before') for x in 'abcdefghijklmn'],
             [('s', ['a', 'b', 'c', 'y', 'd']), ('t', ['e', 's', 'f', 'g']),
              ('u', list('hijklmn')), ('r', ['a', 'y', 't', 'u'])],
             [('y', 'r')]),
    Scenario('many outputs', [Out('y%d' % i, Y1) for i in range(7)],
             [('a', 'a', Y1, 'before'), ('b', 'b', Y2, 'before')],
             [('r%d' % i, ['y%d' % i, 'ab'[i % 2], 'y%d' % ((i + 1) % 7)])
              for i in range(7)],
             [('y%d' % i, 'r%d' % i) for i in range(7)]),
    Scenario('outputs inside the operands of a sum',
             [Out('y', Y2), Out('z', Y2)],
             [('a', 'a', Y2, 'before'), ('b', 'b', Y2, 'before')],
             [('u', ['y']), ('v', ['u', 'z']), ('w', ['b', 'y']),
              ('r', ['a', 'b', 'u', 'v', 'w']), ('q', ['w', 'a', 'v', 'z'])],
             [('y', 'r'), ('z', 'q')]),
    Scenario('four outputs, each with its own input',
             [Out('y', Y2), Out('z', Y1), Out('x', (3, )), Out('w', Y2)],
             [('a', 'a', Y2, 'before'), ('b', 'b', Y1, 'before'),
              ('c', 'c', (3, ), 'before'), ('d', 'd', Y2, 'before')],
             [('r', ['y', 'a', 'w']), ('q', ['z', 'b', 'y']),
              ('p', ['x', 'c']), ('o', ['w', 'd', 'x'])],
             [('y', 'r'), ('z', 'q'), ('x', 'p'), ('w', 'o')]),
    Scenario('other registered expressions', [Out('y', Y2)],
             [('a', 'a', Y2, 'before'), ('b', 'b', Y2, 'before')],
             [('u', ['b']), ('r', ['y', 'a'])], [('y', 'r')], extra='u'),
]


def number(*tag):
    h = zlib.crc32(repr(tag).encode())
    return Fraction(h % 1999 - 999, 1000)


def array(shape, *tag):
    return Arr(shape, [number(i, *tag) for i in range(size(shape))], 'f')


def ident(a):
    return a.shape, tuple(a.data)


class Wrong(Exception):
    """The inner problem is used in a way it rejects."""


class Unset(object):
    pass


class Inner(object):
    """What the inner problem shows in each of its states."""

    def __init__(self, sc, env):
        self.sc, self.env = sc, env
        self.memo = {}

    def states(self, t):
        chain = []
        while t not in self.memo:
            if t.op in ('store', 'did'):
                chain.append(t)
                t = t.args[0]
            elif t.op == 'ite':
                c = truthv(ev(t.args[0], self.env))
                t = t.args[1 if c else 2]
            else:
                break
        cur = self.memo.get(t)
        if cur is None:
            cur = self.memo[t] = ({}, None, False)
        for t in reversed(chain):
            v, snap, ready = cur
            if t.op == 'did':
                if t.args[1] == 'setup':
                    cur = {}, None, True
                elif t.args[1] == 'run_model':
                    if not ready:
                        raise Wrong('run before its setup')
                    cur = v, dict(v), True
                elif t.args[1] != 'final_setup':
                    raise Unknown(t.args[1])
            else:
                k, x = ev(t.args[1], self.env), ev(t.args[2], self.env)
                if not isinstance(k, str):
                    raise Unknown('name of an inner variable')
                if not ready:
                    raise Wrong('%r set before its setup' % k)
                if k in self.sc.res:
                    raise Unknown('residual set')
                if k not in self.sc.shape:
                    raise Wrong('no variable %r' % k)
                v = dict(v)
                v[k] = A.fit(x, self.sc.shape[k])
                cur = v, snap, True
            self.memo[t] = cur
        return cur

    def read(self, t, k):
        v, snap, ready = self.states(t)
        if not ready:
            raise Wrong('%r read before its setup' % (k, ))
        if k in self.sc.res:
            return residual(self.sc, k, snap)
        if k not in self.sc.shape:
            raise Wrong('no variable %r' % (k, ))
        return v.get(k) or array(self.sc.shape[k], 'unset', k)

    def totals(self, t):
        v, snap, ready = self.states(t)
        stale = snap is None or any(
            k not in snap or ident(v[k]) != ident(snap[k]) for k in v)
        return lambda r, w: jacobian(self.sc, r, w, v, stale)


def residual(sc, r, values):
    """Value of the residual: an increasing or decreasing function of each
    entry of its output, with its root between the brackets."""
    o = sc.res[r]
    sh = sc.shape[o]
    if values is None:
        return array(sh, 'never run', r)
    roots = array(sh, 'root', r).data
    y = None
    for d in sc.deps[o]:
        a = values.get(d)
        if a is None:
            a = array(sc.shape[d], 'unset', d)
        if d == o:
            y = a
            continue
        s = sum(number(i, r, d) * x for i, x in enumerate(a.data))
        roots = [x + s / 4 for x in roots]
    if y is None:
        y = Arr(sh, roots)
    return Arr(sh, [(1 if i % 2 else -1) * (i + 2) * (a - b) for i, (a, b)
                    in enumerate(zip(y.data, roots))], 'f')


def jacobian(sc, r, w, values, stale):
    o = sc.res[r]
    m, n = size(sc.shape[o]), size(sc.shape[w])
    if w not in sc.deps[o]:
        return Arr((m, n), [Fraction(0)] * (m * n), 'f')
    tag = [('stale', stale)] + [(k, ident(values[k])) for k in sorted(values)
                                if k in sc.deps[o]]
    d = [number('J', r, w, i, str(tag)) for i in range(m * n)]
    if w == o:
        for i in range(m):
            d[i * n + i] += 7
    return Arr((m, n), d, 'f')


def postorder(roots):
    r, seen = [], set()
    stack = [(t, False) for t in roots]
    while stack:
        t, done = stack.pop()
        if done:
            r.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, T) and a not in seen:
                stack.append((a, False))
    return r


class Run(object):
    """One scenario built and set up; its methods can be called."""

    def __init__(self, ctx, sc, maxiter=None, times=1, reuse=False):
        self.sc, self.times = sc, times
        # whether the user overwrites arrays after their use
        self.reuse, self.arrays = reuse, []
        w = self.w = ctx.world
        c = w.p.lookup(w.api, 'ImplicitComponent')
        if not isinstance(c, Class):
            raise AnalysisError('omtools.api.ImplicitComponent not found')
        self.cls = c
        self.env = {'$arrays': True}
        self.h = h = History(w)
        self.it = h.it
        self.model = Model()
        self.calls = 0
        self.problems = []
        with self.elaborating():
            self.build(maxiter)

    def elaborating(self):
        return Elaborating(self.w.el if hasattr(self.w, 'el')
                           else self.w.elab, self.model)

    def must(self, step, what):
        if step.dead:
            raise AnalysisError('%s does not return' % what)
        if self.reuse:
            for t in self.arrays:
                overwrite(self.h, self.env, t)
        self.arrays = []
        return step.value

    def value(self, name, shape, *tag):
        """A symbol for an array with known entries."""
        t = P(name, 'ndarray')
        self.env[t] = array(shape, name, *tag)
        self.env[mk('attr', t, 'shape')] = tuple(shape)
        self.arrays.append(t)
        return t

    def build(self, maxiter):
        sc, h, it, w = self.sc, self.h, self.it, self.w
        kw = {} if maxiter is None else {'maxiter': const(maxiter)}
        c = self.comp = self.must(h.new(self.cls, **kw), 'the constructor')
        # the wrapper the metaclass puts around the user's setup
        self.user, wrapper, self.setup_where = wrapped(h, w, self.cls)
        self.usable = True
        hooks = dict(it.handlers)
        it.handlers['unknown_call'] = self.user_setup
        bounds = it.turns, it.nested, it.decide
        it.copies = self.reuse
        if self.times > 1:
            it.turns, it.nested, it.decide = 2000, 40, self.decide
        try:
            if self.times == 1:
                self.define()
            for i in range(self.times):
                n = len(h.st.effects)
                s = h.run(lambda: it.call_value(wrapper, [c], {}, h.st,
                                                h.node))
                self.setup_effects = list(h.st.effects[n:])
                self.setup = s
                self.usable = not s.dead
                if s.dead:
                    break
        finally:
            it.handlers.clear()
            it.handlers.update(hooks)
            it.turns, it.nested, it.decide = bounds
            it.copies = False

    def decide(self, c):
        try:
            return bool(truthv(ev(c, self.env)))
        except (Unknown, Fails, Wrong, A.Split):
            return None

    def user_setup(self, it, f, args, kwargs, st, node):
        if f is not self.user:
            return None
        if self.times == 1:
            return None
        saved, self.h.st = self.h.st, st
        try:
            self.define()
        finally:
            self.h.st = saved
        return NONE

    def define(self):
        """What the user writes in setup."""
        sc, h, it, w, c = self.sc, self.h, self.it, self.w, self.comp
        g = self.group = self.must(h.attr(c, 'group'), 'group')
        objs = {}
        tup = lambda s: mk('tup', *[const(n) for n in s])

        def declare(when):
            for obj, name, shape, wh in sc.inputs:
                if wh == when:
                    objs[obj] = self.must(h.call(
                        g, 'declare_input', const(name), shape=tup(shape),
                        val=self.value('init_' + name, shape)),
                        'declare_input')
        declare('before')
        if sc.subsystem:
            self.must(h.call(g, 'add_subsystem', const('child'),
                             P('child', 'system')), 'add_subsystem')
            declare('after')
        for o in sc.outs:
            objs[o.name] = self.must(h.call(
                g, 'create_implicit_output', const(o.name),
                shape=tup(o.shape), val=self.value('init_' + o.name,
                                                   o.shape)),
                'create_implicit_output')
        owner = {r: o for o, r in sc.residuals}
        for e, deps in sc.exprs:
            x = objs[e] = self.must(h.new(w.variable), 'Variable')
            sh = sc.shape[owner[e]] if e in owner else (2, )
            h.st.set(x, 'name', const(e))
            h.st.set(x, 'shape', tup(sh))
            h.st.set(x, 'build', P('build_' + e, 'callable'))
            for d in deps:
                self.must(h.call(x, 'add_dependency_node', objs[d]),
                          'add_dependency_node')
        if sc.extra:
            self.must(h.call(g, 'register_output', const(sc.extra),
                             objs[sc.extra]), 'register_output')
        self.brackets = {}
        for o, r in sc.residuals:
            b = sc.out(o).bracket
            if b is None:
                self.must(h.call(objs[o], 'define_residual', objs[r]),
                          'define_residual')
                continue
            sh = sc.shape[o]
            if b[0] == 's':
                x1, x2 = const(b[1]), const(b[2])
                v1 = Arr(sh, [Fraction(b[1])] * size(sh), 'f')
                v2 = Arr(sh, [Fraction(b[2])] * size(sh), 'f')
            elif b[0] == 'm':
                # roots in the middle and at both ends of the brackets
                x1 = self.value('x1_' + o, sh)
                x2 = self.value('x2_' + o, sh)
                root = array(sh, 'root', r).data
                left = [(3, 0, 4, 2)[i // 2 % 4] for i in range(len(root))]
                right = [(3, 4, 0, 1)[i // 2 % 4] for i in range(len(root))]
                v1 = self.env[x1] = Arr(sh, [
                    x - d for x, d in zip(root, left)], 'f')
                v2 = self.env[x2] = Arr(sh, [
                    x + d for x, d in zip(root, right)], 'f')
            else:
                x1 = self.value('x1_' + o, sh)
                x2 = self.value('x2_' + o, sh)
                v1 = self.env[x1] = Arr(sh, [
                    Fraction(-4 - i if i % 3 else 5 + i)
                    for i in range(size(sh))], 'f')
                v2 = self.env[x2] = Arr(sh, [
                    Fraction(7 + i if i % 3 else -6)
                    for i in range(size(sh))], 'f')
            self.brackets[o] = v1, v2
            self.must(h.call(objs[o], 'define_residual_bracketed', objs[r],
                             x1=x1, x2=x2), 'define_residual_bracketed')
        self.objs = objs

    def fork(self):
        r = Run.__new__(Run)
        r.__dict__.update(self.__dict__)
        r.h = self.h.fork()
        r.h.st.effects = []
        return r

    def where(self, name):
        f = self.cls.find(name)
        return (f.module.path, f.node.lineno) if f is not None else None

    def point(self, tag, near=False):
        """New values of the inputs and outputs of the component."""
        self.tag = tag
        st = self.h.st
        self.now = {}
        for vec, names in ((INPUTS, self.sc.ins),
                           (OUTPUTS, [o.name for o in self.sc.outs])):
            st.heap[vec] = {}
            for n in names:
                t = self.value('%s_%s' % (n, tag), self.sc.shape[n])
                if near:
                    # almost those of the point 'now'
                    self.env[t] = Arr(self.sc.shape[n], [
                        x + Fraction(1, 10**12) for x in
                        array(self.sc.shape[n], '%s_now' % n).data], 'f')
                st.set(vec, const(n), t)
                self.now[n] = self.env[t]
        st.heap[PARTIALS] = {}
        self.before = dict(st.heap[OUTPUTS])

    def call(self, name, *args):
        with self.elaborating():
            self.h.st.effects = []
            s = self.h.call(self.comp, name, *args)
        if s.dead:
            raise Wrong('%s does not return' % name if s.raises
                        else 'undecided')
        if any(e.kind == 'lost' for e in self.h.st.effects):
            raise Unknown('state of the inner problem')
        return s

    def resolve(self, terms):
        """Give the readings of the inner problem their values."""
        inner = Inner(self.sc, self.env)
        for t in postorder(terms):
            if t in self.env:
                continue
            if t.op == 'item' and is_problem(t.args[0]):
                self.env[t] = inner.read(t.args[0], ev(t.args[1], self.env))
            elif t.op == 'app' and t.args[0].op == 'extm' and is_problem(
                    t.args[0].args[0]) and t.args[0].args[1] == \
                    'compute_totals':
                if len(t.args) != 3:
                    raise Unknown('arguments of compute_totals')
                of, wrt = [ev(x, self.env) for x in t.args[1:]]
                f = inner.totals(t.args[0].args[0])
                d = {}
                for r in of:
                    for x in wrt:
                        if r not in self.sc.res or x not in self.sc.shape:
                            raise Wrong('no derivatives of %r with respect '
                                        'to %r' % (r, x))
                        d[r, x] = f(r, x)
                self.env[t] = d

    def slots(self, vec, written=None):
        """{key: value} of what was left in a vector."""
        st = self.h.st
        d = {}
        for k, v in st.heap.get(vec, {}).items():
            if not isinstance(k, T):
                raise Unknown('slot')
            if vec is OUTPUTS and self.before.get(k) is v:
                continue
            d[k] = v
        self.env['$slot', vec.args[0]] = lambda k: self.initial(vec, k)
        self.env['$memo'] = {}
        self.resolve(list(d) + list(d.values()))
        self.env['$memo'] = {}
        r = {}
        for k, v in d.items():
            if v.op == 'opaque':
                raise Unknown(str(v)[:80])
            r[ev(k, self.env)] = ev(v, self.env)
        return r

    def initial(self, vec, k):
        if isinstance(k, tuple):
            if len(k) != 2 or any(x not in self.sc.shape for x in k):
                raise Wrong('no derivatives %r' % (k, ))
            m, n = [size(self.sc.shape[x]) for x in k]
            return array((m, n), 'initial', str(vec), k)
        if k not in self.sc.shape:
            raise Wrong('no variable %r in the vector' % (k, ))
        return array(self.sc.shape[k], 'initial', str(vec), k)


class Elaborating(object):
    def __init__(self, el, model):
        self.el, self.model = el, model

    def __enter__(self):
        self.saved, self.el.cur = self.el.cur, self.model

    def __exit__(self, *a):
        self.el.cur = self.saved


# how often the component is set up
TIMES = [1]
# whether arrays are overwritten after their use
REUSE = [False]
AGAIN, LATER = ', set up again', ', arrays overwritten'


def runs(ctx, maxiter=None):
    cache = ctx.world.__dict__.setdefault('_implicit', {})
    for sc in SCENARIOS:
        k = sc.label, maxiter, TIMES[0], REUSE[0]
        if k not in cache:
            try:
                cache[k] = Run(ctx, sc, maxiter, TIMES[0], REUSE[0])
            except (AnalysisError, Unknown) as e:
                cache[k] = e
        r = cache[k]
        yield sc, r


def each(ctx, rep, rule, check, maxiter=None, need=lambda sc: True):
    for sc, r in runs(ctx, maxiter):
        if not need(sc):
            continue
        lab = sc.label + (AGAIN if TIMES[0] > 1 else '') + (
            LATER if REUSE[0] else '')
        if not isinstance(r, Run):
            rep.und(rule, lab, str(r))
            continue
        if not r.usable:
            if r.setup.raises:
                rep.bad(rule, r.setup_where, lab, 'setup raises '
                        + str(r.setup.raises[-1][1]))
            else:
                rep.und(rule, lab, 'setup does not return')
            continue
        try:
            A.GARBAGE[0] = True
            check(r, lab)
        except (Unknown, A.Split) as e:
            rep.und(rule, lab, str(e) or type(e).__name__)
        except (Wrong, Fails) as e:
            if str(e) == 'undecided':
                rep.und(rule, lab, 'does not return')
            else:
                rep.bad(rule, r.setup_where, lab, str(e))
        finally:
            A.GARBAGE[0] = False


def same(a, b):
    try:
        a = A.arr(a)
    except Fails:
        return False
    return size(a.shape) == size(b.shape) and [
        A.entry(x) for x in a.data] == b.data


def rule_setup(ctx, rep):
    """The component declares the outputs, inputs and derivatives of the
    residuals, after running the user's setup."""
    rule = 'implicit-declarations'

    def check(r, lab):
        sc = r.sc
        wh = r.setup_where
        effs = r.setup_effects
        ucalls = [i for i, e in enumerate(effs) if e.kind == 'call'
                  and e.args[0] is r.user]
        first = [i for i, e in enumerate(effs) if e.kind in ('decl', 'lost')
                 or e.kind == 'method' and is_problem(e.args[0])]
        if r.times > 1:
            pass
        elif len(ucalls) != 1 or effs[ucalls[0]].loops or \
                effs[ucalls[0]].guard:
            rep.und(rule, lab + ': user setup')
        else:
            rep.verdict(not first or ucalls[0] < first[0], rule, wh,
                        lab + ': user setup', 'declarations are made before '
                        'the setup of the user has run')
        decls = [e for e in effs if e.kind == 'decl']
        if any(e.loops or e.guard for e in decls):
            raise Unknown('conditional declarations')
        found = {'add_output': [], 'add_input': []}
        pairs = set()
        env = dict(r.env)
        for e in decls:
            nm, a = e.args
            a = dict(a)
            if nm in found:
                n = ev(a['name'], env)
                found[nm].append(n)
                if n not in sc.shape:
                    continue
                sh = a.get('shape')
                sh = None if sh is None else ev(sh, env)
                v = a.get('val')
                v = None if v is None else ev(v, env)
                if sh is None and isinstance(v, Arr):
                    sh = v.shape
                if isinstance(sh, int):
                    sh = (sh, )
                if sh is None:
                    sh = (1, )
                rep.verdict(tuple(sh) == tuple(sc.shape[n]), rule, wh,
                            '%s: %s of %s' % (lab, nm, n),
                            'declared with shape %s instead of %s' % (
                                tuple(sh), sc.shape[n]))
                ok = v is not None and same(
                    A.broadcast(A.arr(v), sc.shape[n])
                    if A.arr(v).shape == () else v,
                    array(sc.shape[n], 'init_' + n))
                rep.verdict(ok, rule, wh, '%s: value of %s' % (lab, n),
                            'the initial value declared for %s is not the '
                            'one the user gave' % n)
            elif nm == 'declare_partials':
                if 'rows' in a or 'cols' in a or 'val' in a or \
                        'method' in a:
                    raise Unknown('sparse partials')
                dep = a.get('dependent')
                dep = True if dep is None else ev(dep, env)
                p = []
                for k in ('of', 'wrt'):
                    x = ev(a[k], env)
                    x = [x] if isinstance(x, str) else list(x)
                    p.append(x)
                names = sorted(sc.shape)
                for o in names:
                    for i in names:
                        if any(fnmatch.fnmatchcase(o, x) for x in p[0]) and \
                                any(fnmatch.fnmatchcase(i, x)
                                    for x in p[1]):
                            if dep:
                                pairs.add((o, i))
                            else:
                                pairs.discard((o, i))
        for nm, want in (('add_output', sorted(sc.deps)),
                         ('add_input', sc.ins)):
            rep.verdict(sorted(found[nm]) == sorted(want), rule, wh,
                        '%s: %s' % (lab, nm),
                        'declares the %s %s instead of %s' % (
                            'outputs' if nm == 'add_output' else 'inputs',
                            sorted(found[nm]), sorted(want)))
        r.pairs = pairs
        missing = []
        for o in sorted(sc.deps):
            for d in sorted(sc.reaches(o)):
                if (o, d) not in pairs:
                    missing.append((o, d))
        rep.verdict(not missing, rule, wh, lab + ': declare_partials',
                    'the derivatives %s are not declared' % (missing, ))
    each(ctx, rep, rule, check)


def sequences(r, names):
    """The methods called on a fresh component, and after other ones."""
    yield 'first', r.fork(), ()
    yield 'after others', r.fork(), names
    yield 'after a close point', r.fork(), ('near', ) + names


def play(r, names):
    near = 'near' in names
    for i, n in enumerate(names[near:]):
        r.point('%s%d' % ('near' if near else 'early', i), near)
        args = {'apply_nonlinear': (INPUTS, OUTPUTS, PARTIALS),
                'solve_nonlinear': (INPUTS, OUTPUTS),
                'linearize': (INPUTS, OUTPUTS, PARTIALS)}[n]
        r.call(n, *args)


def rule_residuals(ctx, rep):
    """apply_nonlinear leaves the value of each residual."""
    rule = 'implicit-residuals'

    def check(r0, lab):
        sc = r0.sc
        wh = r0.where('apply_nonlinear')
        for what, r, names in sequences(r0, ('apply_nonlinear',
                                             'solve_nonlinear',
                                             'linearize')):
            play(r, names)
            r.point('now')
            r.call('apply_nonlinear', INPUTS, OUTPUTS, PARTIALS)
            got = r.slots(PARTIALS)
            for o, x in sc.residuals:
                inst = '%s, %s: %s' % (lab, what, o)
                v = got.get(o)
                rep.verdict(v is not None and same(v, residual(
                    sc, x, r.now)), rule, wh, inst,
                    'the residual of %s is not the value of the residual '
                    'expression at the current inputs and outputs' % o)
            rep.verdict(set(got) <= set(sc.deps), rule, wh,
                        '%s, %s: others' % (lab, what),
                        'residuals of %s are set' % sorted(
                            set(map(str, got)) - set(sc.deps)))
            o = r.slots(OUTPUTS)
            rep.verdict(not o, rule, wh, '%s, %s: outputs' % (lab, what),
                        'the outputs %s are changed' % sorted(o))
    each(ctx, rep, rule, check, maxiter=2)


def rule_linearize(ctx, rep):
    """linearize leaves the derivatives of each residual."""
    rule = 'implicit-derivatives'

    def check(r0, lab):
        sc = r0.sc
        wh = r0.where('linearize')
        pairs = getattr(r0, 'pairs', None)
        for what, r, names in sequences(r0, ('apply_nonlinear', 'linearize',
                                             'solve_nonlinear')):
            play(r, names)
            r.point('now')
            r.call('linearize', INPUTS, OUTPUTS, PARTIALS)
            got = r.slots(PARTIALS)
            for o, x in sc.residuals:
                for d in sorted(sc.shape):
                    if d in sc.inner:
                        continue
                    inst = '%s, %s: %s, %s' % (lab, what, o, d)
                    v = got.get((o, d))
                    j = jacobian(sc, x, d, {k: r.now[k] for k in r.now
                                            }, False)
                    if d not in sc.deps[o]:
                        if v is not None:
                            rep.verdict(same(v, j), rule, wh, inst,
                                        'not zero')
                        continue
                    rep.verdict(v is not None and same(v, j), rule, wh,
                                inst, 'the derivative of the residual of %s '
                                'with respect to %s is not the one of its '
                                'expression at the current inputs and '
                                'outputs' % (o, d))
            extra = sorted(str(k) for k in got if not isinstance(k, tuple)
                           or k[0] not in sc.deps
                           or k[1] not in sc.ins and k[1] not in sc.deps)
            rep.verdict(not extra, rule, wh, '%s, %s: others' % (lab, what),
                        'derivatives %s of variables the component does '
                        'not have' % extra)
            rep.verdict(not r.slots(OUTPUTS), rule, wh,
                        '%s, %s: outputs' % (lab, what),
                        'linearize changes the outputs')
    each(ctx, rep, rule, check, maxiter=2)


def rule_linear(ctx, rep):
    """solve_linear solves with the derivatives of the residuals."""
    rule = 'implicit-linear-solution'

    def check(r0, lab):
        sc = r0.sc
        wh = r0.where('solve_linear')
        for mode in ('fwd', 'rev'):
            for what, r, names in sequences(r0, ('linearize', )):
                play(r, names)
                r.point('now')
                r.call('linearize', INPUTS, OUTPUTS, PARTIALS)
                now = r.now
                r.h.st.heap[OUTPUTS] = {}
                r.h.st.heap[PARTIALS] = {}
                r.before = {}
                r.call('solve_linear', OUTPUTS, PARTIALS, const(mode))
                dst, src = (OUTPUTS, PARTIALS) if mode == 'fwd' else (
                    PARTIALS, OUTPUTS)
                inst = '%s, %s, %s' % (lab, mode, what)
                rep.verdict(not r.slots(src), rule, wh, inst + ': source',
                            'the right-hand side is changed')
                got = r.slots(dst)
                names = [o for o, x in sc.residuals]
                if sorted(got) != sorted(names):
                    rep.bad(rule, wh, inst, 'sets %s instead of %s' % (
                        sorted(map(str, got)), sorted(names)))
                    continue
                res = dict(sc.residuals)
                bad = []
                for o in names:
                    for i in range(size(sc.shape[o])):
                        s = 0
                        for p in names:
                            a, b = (o, p) if mode == 'fwd' else (p, o)
                            j = jacobian(sc, res[a], b, now, False)
                            x = A.arr(got[p])
                            for k in range(size(sc.shape[p])):
                                s += (j.at((i, k)) if mode == 'fwd'
                                      else j.at((k, i))) * x.data[k]
                        if s != array(sc.shape[o], 'initial', str(src),
                                      o).data[i]:
                            bad.append(o)
                rep.verdict(not bad, rule, wh, inst,
                            'the linear system of the residuals is not '
                            'solved for %s' % sorted(set(bad)))
    each(ctx, rep, rule, check, maxiter=2)


def rule_brackets(ctx, rep):
    """Bisection within the brackets."""
    rule = 'implicit-brackets'
    for n in (2, 5):
        def check(r0, lab):
            sc = r0.sc
            wh = r0.where('solve_nonlinear')
            for what, r, names in sequences(r0, ('solve_nonlinear',
                                                 'linearize')):
                play(r, names)
                r.point('now')
                r.call('solve_nonlinear', INPUTS, OUTPUTS)
                got = r.slots(OUTPUTS)
                for o, x in sc.residuals:
                    inst = '%s, %d steps, %s: %s' % (lab, n, what, o)
                    if o not in r.brackets:
                        rep.verdict(o not in got, rule, wh, inst,
                                    'the output is changed although no '
                                    'bracket was given')
                        continue
                    v = got.get(o)
                    if v is None:
                        rep.bad(rule, wh, inst, 'the output is not solved')
                        continue
                    v = A.broadcast(A.arr(v), sc.shape[o])
                    z = dict(r.now)
                    z[o] = Arr(sc.shape[o], [Fraction(0)] * size(
                        sc.shape[o]), 'f')
                    at0 = residual(sc, x, z).data
                    bad = None
                    for i, y in enumerate(v.data):
                        root = -at0[i] / ((1 if i % 2 else -1) * (i + 2))
                        x1, x2 = [b.data[i] for b in r.brackets[o]]
                        if abs(A.entry(y) - root) > abs(x2 - x1) / 2**n:
                            bad = i
                    rep.verdict(bad is None, rule, wh, inst,
                                'entry %s is further from the root of the '
                                'residual than the bracket halved once for '
                                'each iteration' % bad)
        each(ctx, rep, rule, check, maxiter=n,
             need=lambda sc: n == 5 or sc.label != 'no input')


RULES = [rule_setup, rule_residuals, rule_linearize, rule_linear,
         rule_brackets]


def rule_again(ctx, rep):
    """A component that is set up again is the one set up at first."""
    unchanged(ctx, rep, AGAIN, TIMES, 2)


def rule_reuse(ctx, rep):
    """Arrays that are overwritten after their use do not change anything."""
    unchanged(ctx, rep, LATER, REUSE, True)


def unchanged(ctx, rep, label, flag, v):
    """All rules under other circumstances; what is wrong in any case is not
    reported."""
    r = everywhere(ctx, rep, flag, v)
    for rule, d in r.rules.items():
        x = rep._r(rule)
        for k in ('obligations', 'discharged', 'undecided'):
            x[k] += d[k]
    rep.samples += r.samples
    rep.sites |= r.sites
    rep.undecided += r.undecided
    if not r.findings:
        return
    r0 = everywhere(ctx, rep, flag, flag[0])
    before = set((f.rule, f.instance.replace(label, ''))
                 for f in r0.findings)
    for f in r.findings:
        rep._r(f.rule)['obligations'] -= 1
        if (f.rule, f.instance.replace(label, '')) in before:
            rep.und(f.rule, f.instance, 'in any case: ' + f.msg)
        else:
            rep.bad(f.rule, f.where, f.instance, f.msg)


def everywhere(ctx, rep, flag, v):
    r = Report(rep.prop)
    saved, flag[0] = flag[0], v
    try:
        for f in RULES:
            f(ctx, r)
    finally:
        flag[0] = saved
    return r


RULES33 = [rule_reuse]
RULES34 = [rule_again]
