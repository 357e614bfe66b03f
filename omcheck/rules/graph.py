"""C21: the pipeline that turns the expressions of a group into components.

The wrapper the metaclass puts around Group.setup is evaluated abstractly on
an unknown group: its result is the ordered list of effects (calls, edge
changes, removals, added components), each with the loops around it and the
conditions it is reached under.  The rules are typestate and ordering rules
over that list, and transfer functions of the graph operations evaluated over
symbolic nodes."""
import ast
import itertools
from .common import *
from ..history import History
from ..sites import P
from ..program import AnalysisError, Class, Func
from ..interp import Dead
from .. import arrays                                       # noqa: evaluators
from ..terms import ZERO
from ..evalu import Unknown, Fails, Sym, Obj, ev, truthv
from .. import evalu as V


class Pipeline(object):
    """Effects of the wrapped setup of an unknown group."""

    def __init__(self, ctx, inline=False):
        w = self.w = ctx.world
        g = w.p.lookup(w.api, 'Group')
        if not isinstance(g, Class):
            raise AnalysisError('omtools.api.Group not found')
        self.cls = g
        meta = None
        for k in g.node.keywords:
            if k.arg == 'metaclass' and isinstance(k.value, ast.Name):
                meta = w.p.lookup(g.module, k.value.id)
        if not isinstance(meta, Class) or meta.find('__new__') is None:
            raise AnalysisError('metaclass of Group not found')
        self.meta = meta
        h = self.h = History(w)
        it = h.it
        self.func = P('setup', 'callable')
        self.slf = P('group', 'cls:' + g.qual)
        d = h.dict(setup=self.func)
        new = meta.find('__new__')
        h.run(lambda: it.call_value(
            it.binding(new, h.st),
            [it.binding(meta, h.st), const('G'), mk('tup'), d], {}, h.st,
            h.node))
        f = h.getitem(d, const('setup'))
        if f.dead or f.value is None or f.value.op not in ('clo', 'bound'):
            raise AnalysisError('the wrapper of setup was not found')
        self.wrapper = f.value
        fn = it.funcs[f.value][0]
        self.where = fn.module.path, fn.node.lineno
        n = len(h.st.effects)
        if inline:
            it.node_class, it.node_lists = self.klass, EDGES
        it.on_method = self.passed
        try:
            s = h.run(lambda: it.call_value(f.value, [self.slf], {}, h.st,
                                            h.node))
        finally:
            it.node_class, it.node_lists = None, ()
            it.on_method = None
        if s.dead:
            raise AnalysisError('the wrapped setup does not return')
        self.step = s
        self.effects = list(h.st.effects[n:])
        self.raises = s.raises

    def passed(self, b, name, args, pure, st):
        """Lists and dictionaries passed to a method change; the record of
        expressions is known by its name."""
        r = []
        for a, v in zip(args, pure):
            if isinstance(a, T) and a.op == 'cell':
                c = st.get(a, '$')
                new = mk('attr', self.slf, 'nodes')
                if name == 'register_nodes' and c is not None and c.op == \
                        'dict' and not c.args:
                    v = new
                elif c is not new:
                    new = opaque('passed', self.h.it.fresh())
                st.set(a, '$', new)
            r.append(v)
        return r + list(pure[len(r):])

    def klass(self, t):
        if t.op in ('item', 'lpop', 'firstwhere'):
            s = seq_root(t.args[0])
            if s.op == 'attr' and s.args[1] in EDGES or \
                    s.op == 'opaque' and s.args[0] == 'while' or \
                    s.op == 'carry':
                return self.w.variable
        if t.op == 'eval' and t.args[0].op == 'attr' and \
                t.args[0].args[1] == 'nodes':
            return self.w.variable
        if t.op == 'attr' and t.args[1] == '_root':
            return self.w.variable
        return None

    def added(self):
        """Effects that add a component to the model."""
        r = []
        for k, e in enumerate(self.effects):
            if e.kind == 'extcall' and str(e.args[0]).endswith(
                    'Group.add_subsystem'):
                r.append((k, e))
            elif e.kind == 'method' and e.args[1] == 'add_subsystem':
                r.append((k, e))
            elif e.kind == 'method' and e.args[1] == 'super.add_subsystem':
                r.append((k, e))
        return r


def pipeline(ctx, inline=False):
    name = '_pipeline%d' % inline
    p = getattr(ctx.world, name, None)
    if p is None:
        try:
            p = Pipeline(ctx, inline)
        except AnalysisError as e:
            p = e
        setattr(ctx.world, name, p)
    if isinstance(p, AnalysisError):
        raise p
    return p


def class_facts(w, t, cls):
    """isinst terms about t decided for an instance of class cls."""
    def f(x):
        if x.op == 'isinst' and x.args[0] is t:
            q = x.args[1]
            q = q.args[0] if isinstance(q, T) and q.op == 'cls' else q
            c = w.p.classes.get(q) if isinstance(q, str) else None
            if c is not None:
                return cls.is_sub(c)
            if isinstance(q, str) and not q.startswith('omtools'):
                return False
        return None
    return f


def decide(cond, env, facts):
    """Truth of a condition; env: values of attribute terms; facts: function
    from an isinst term to its value."""
    m = {}
    for s in subterms(cond):
        v = facts(s)
        if v is not None:
            m[s] = TRUE if v else FALSE
    c = subst(cond, m) if m else cond
    return truthv(ev(c, dict(env)))


def loop_element(e):
    """The element of the innermost loop of an effect."""
    if not e.loops:
        return None
    dom, idx = e.loops[-1]
    return mk('item', dom, idx)


# ------------------------------------------------ transfer functions of nodes
UNORDERED = frozenset(('setof', 'setadd', 'setdrop', 'setunion',
                       'setintersection', 'setdifference',
                       'setsymmetric_difference'))


def unordered(t):
    """Does the order of the elements of sequence t depend on the iteration
    order of a set (of objects, hence on their addresses) or on the address
    of an object?"""
    if not isinstance(t, T):
        return False
    if t.op in UNORDERED:
        return True
    if t.op == 'sortedby':
        return contains(t.args[1], address) or unordered(t.args[0])
    if t.op == 'sorted':
        return contains(t.args[0], address)
    if t.op in ('ite', ):
        return unordered(t.args[1]) or unordered(t.args[2])
    if t.op in ('map', ):
        return unordered(t.args[1])
    if t.op in ('flatmap', ):
        return unordered(t.args[1]) or unordered(t.args[0])
    if t.op == 'fmap':
        return unordered(t.args[2])
    if t.op in ('tolist', 'copy', 'dedup', 'fromkeys', 'reversed', 'cat',
                'tup', 'star', 'slice', 'tail', 'lrest', 'lremove',
                'linsert'):
        return any(unordered(a) for a in t.args)
    return False


def address(t):
    return t.op == 'call' and t.args[0] in ('builtins.id', 'builtins.hash'
                                            ) or t.op == 'app' and \
        isinstance(t.args[0], T) and t.args[0].op == 'ext' and \
        t.args[0].args[0] in ('builtins.id', 'builtins.hash', 'id', 'hash')


EDGES = ('dependencies', 'dependents')
VIEWS = ('sorted', 'sortedby', 'reversed', 'copy', 'tolist', 'dedup',
         'fromkeys', 'slice', 'tail', 'lrest', 'lremove', 'setof', 'cat',
         'linsert')


def seq_root(t):
    while t.op in VIEWS:
        t = t.args[-1] if t.op == 'cat' else t.args[0]
    return t


class Nodes(object):
    """Expressions with unknown edges."""

    def __init__(self, ctx):
        w = self.w = ctx.world
        self.h = History(w)
        self.seqs = {}

    def node(self, name):
        """An expression whose edge lists are symbols."""
        h = self.h
        o = h.new(self.w.variable).value
        if o is None or o.op != 'obj':
            raise AnalysisError('an expression cannot be created')
        for a in EDGES:
            s = P('%s.%s' % (name, a), 'list')
            self.seqs[s] = a
            h.st.set(o, a, h.it.cell(h.st, 'list', s))
        return o

    def deps(self, name, a='dependencies'):
        return P('%s.%s' % (name, a), 'list')

    def other(self, name):
        return P(name, 'Variable')

    def klass(self, t):
        """Class of the members of edge lists."""
        if t.op in ('item', 'lpop', 'firstwhere'):
            s = seq_root(t.args[0])
            if s in self.seqs or s.op == 'attr' and s.args[1] in EDGES:
                return self.w.variable
        return None

    def on(self, fn, lists=()):
        it = self.h.it
        saved = it.node_class, it.node_lists
        it.node_class, it.node_lists = self.klass, lists
        try:
            return fn()
        finally:
            it.node_class, it.node_lists = saved


def has_method(ctx, name):
    f = ctx.world.variable.find(name)
    return (f.module.path, f.node.lineno) if f is not None else None


def edge_env(seqs, **kw):
    env = {'$arrays': True, '$memo': {}}
    env.update(seqs)
    return env


def describe(env, nodes, alike=True, cost=None):
    """Attributes of the expressions: alike ones share name, shape and
    value."""
    for i, y in enumerate(nodes):
        n = 'x' if alike else 'x%d' % i
        env[(y, 'name')] = n
        env[(y, '_id')] = '_%04d' % i
        env[(y, 'shape')] = (1, ) if alike else (i + 1, )
        env[(y, 'val')] = 1
        env[(y, 'times_visited')] = 0
        env[(y, '_dag_cost')] = 1 if cost is None else cost[i % len(cost)]
        env[(y, 'build')] = None if alike else Obj('build%d' % i)


def members(dom, env):
    """Members of the sequence a loop goes over."""
    if dom.op == 'tail':
        base = ev(dom.args[0], env)
        return tuple(base[i] for i in V.domain(dom, env))
    return ev(dom, env)


def raised_ev(step, env):
    """Does the step raise?  True, False, None."""
    r = False
    for facts, exc, where, loops in step.raises:
        if loops:
            dom = loops[0][0]
            try:
                if not ev(dom, env):
                    continue
            except (Unknown, Fails):
                pass
        try:
            if all(truthv(ev(c, env)) == v for c, v in facts):
                return True
        except Unknown:
            r = None
        except Fails:
            pass
    return r


def small(n):
    """Tuples of 0..n distinct nodes."""
    return [tuple(Obj('n%d' % i) for i in range(k)) for k in range(n + 1)]


def method_cases():
    """(rule, method, argument kinds, attribute, text, expectation)"""
    def added(old, x):
        return old if x in old else old + (x, )

    def without(old, x):
        return tuple(y for y in old if y is not x)

    return [
        ('edges-recorded', 'add_dependency_node', 'node', 'dependencies',
         'adding a dependency', added),
        ('edges-recorded', 'add_dependent_node', 'node', 'dependents',
         'adding a dependent', added),
        ('edges-removed', 'remove_dependency_node', 'node', 'dependencies',
         'removing a dependency', without),
        ('edges-removed', 'remove_dependency_by_index', 'int',
         'dependencies', 'removing the dependency at an index',
         lambda old, i: old[:i] + old[i + 1:]),
        ('edges-kept', 'sort_dependency_branches', 'bool', 'dependencies',
         'sorting the dependencies', lambda old, x: old),
    ]


def rule_methods(ctx, rep):
    X = Obj('x')
    costs = (3, 1, 2, 1)
    for rule, name, kind, a, text, want in method_cases():
        where = has_method(ctx, name)
        if where is None:
            continue
        ns = Nodes(ctx)
        o = ns.node('v')
        arg = ns.other('x') if kind == 'node' else P('x', kind)
        s = ns.on(lambda: ns.h.call(o, name, arg))
        got = ns.h.pure(s, ns.h.attr(o, a).value)
        n, und, fail = 0, None, None
        if unordered(got):
            rep.bad('order-depends-on-program-only', where, name,
                    'after %s the order of the edges depends on the '
                    'iteration order of a set of expressions or on object '
                    'addresses: two runs of the same program may build '
                    'different models' % text)
            continue
        for old in small(4):
            xs = (X, ) + old if kind == 'node' else (
                range(len(old) + 2) if kind == 'int' else (False, True))
            for x, alike in itertools.product(xs, (True, False)):
                env = edge_env({ns.deps('v', a): old, arg: x})
                describe(env, old + (X, ), alike, costs)
                try:
                    r = ev(got, env)
                    if r is None or not isinstance(r, tuple):
                        raise Unknown('edges')
                except Unknown as e:
                    und = str(e)
                    continue
                except Fails as e:
                    r = e
                w = want(old, x)
                if isinstance(r, Fails) or raised_ev(s, env) is True:
                    fail = fail or (
                        '%s fails for %s' % (text, detail(old, x)))
                elif sorted(map(str, map(label_of, r))) != sorted(
                        map(label_of, w)):
                    fail = fail or (
                        '%s leaves %s instead of %s for %s' % (
                            text, names(r), names(w), detail(old, x)))
                else:
                    n += 1
        close(rep, rule, where, name, n, und, fail)


def label_of(x):
    return getattr(x, 'label', str(x))


def names(r):
    return '[' + ', '.join(label_of(x) for x in r) + ']'


def detail(old, x):
    return '%s and %s' % (names(old), label_of(x))


def close(rep, rule, where, inst, n, und, fail):
    if fail:
        rep.bad(rule, where, inst, fail)
    elif und or not n:
        rep.und(rule, inst, und or 'no case')
    else:
        rep.ok(rule, inst)
        rep.notes['assignments'] = rep.notes.get('assignments', 0) + n


def rule_new_node(ctx, rep):
    """A new expression has no edges, and edge lists of its own."""
    h = History(ctx.world)
    w = ctx.world
    f = w.variable.find('__init__')
    where = f.module.path, f.node.lineno
    cells = []
    for k in range(2):
        s = h.new(w.variable)
        if s.value is None:
            rep.und('new-node-without-edges', 'Variable', 'not created')
            return
        cells.append([h.attr(s.value, a).value for a in EDGES])
        t = h.attr(s.value, 'times_visited').value
        if t is not None and is_const(t) and cval(t) != 0:
            rep.bad('new-node-without-edges', where, 'times_visited',
                    'a new expression counts as visited %r times' % cval(t))
            return
    for i, a in enumerate(EDGES):
        x, y = cells[0][i], cells[1][i]
        if x is None or x.op != 'cell':
            rep.und('new-node-without-edges', a, 'not a list')
            continue
        c = h.it.content(h.st, x)
        if x is y:
            rep.bad('new-node-without-edges', where, a,
                    'all expressions share one list of %s' % a)
        elif c.op == 'tup' and c.args:
            rep.bad('new-node-without-edges', where, a,
                    'a new expression starts with %s' % a)
        elif c.op == 'tup':
            rep.ok('new-node-without-edges', a)
        else:
            rep.und('new-node-without-edges', a, 'contents')


def step_effects(h, fn):
    """Effects of one evaluation."""
    n = len(h.st.effects)
    s = fn()
    return s, list(h.st.effects[n:])


def reached(e, env, facts=None):
    """Is the effect reached?  True, False, None (not decided)."""
    r = True
    for c, v in e.guard:
        try:
            if facts is not None:
                t = decide(c, env, facts)
            else:
                t = truthv(ev(c, env))
            if t != v:
                return False
        except Unknown:
            r = None
        except Fails:
            return False
    return r


def rule_forward(ctx, rep):
    """add_fwd_edges makes every expression below the node know all its
    dependents, once each."""
    rule, name = 'forward-edges', 'add_fwd_edges'
    where = has_method(ctx, name)
    if where is None:
        return
    ns = Nodes(ctx)
    v = ns.other('v')
    seq = mk('attr', v, 'dependencies')
    ns.seqs[seq] = 'dependencies'
    s, effs = step_effects(ns.h, lambda: ns.on(
        lambda: ns.h.call(v, name), EDGES))
    qual = ctx.world.variable.find(name).qual
    rec = [e for e in effs if e.kind == 'recursion' and e.args[0] == qual]
    kid = None
    for e in effs:
        if e.loops and seq_root(e.loops[0][0]) is seq:
            kid = loop_element_of(e.loops[0])
            dom = e.loops[0][0]
    if kid is None:
        rep.und(rule, name, 'no loop over the dependencies')
        return
    A, B, V_, W = Obj('a'), Obj('b'), Obj('v'), Obj('w')
    base = edge_env({seq: (A, B), v: V_})
    bad, und, n = None, None, 0
    if unordered(dom):
        rep.bad('order-depends-on-program-only', where, name,
                'dependents are recorded in the iteration order of a set of '
                'expressions')
    try:
        r = members(dom, base)
        if sorted(map(label_of, r)) != ['a', 'b']:
            bad = 'not every dependency learns about its dependent: ' \
                '%s of [a, b]' % names(r)
    except (Unknown, Fails) as e:
        und = str(e)
    # the dependents of the dependency afterwards
    st = ns.h.st
    after = st.heap.get(kid, {}).get('dependents')
    if after is None:
        adds = [e for e in effs if e.kind == 'append' and e.args[0].op ==
                'attr' and e.args[0].args[1] == 'dependents']
        if not adds and not rec and not any(
                e.kind in ('method', 'extcall', 'call') for e in effs):
            bad = bad or 'no dependency learns about its dependent'
        else:
            und = und or 'dependents'
    else:
        t = ns.h.it.pure(st, after)
        if unordered(t):
            rep.bad('order-depends-on-program-only', where, name,
                    'dependents are recorded in the iteration order of a '
                    'set')
        # objects in lists built in the loop
        for old in ((), (W, ), (V_, ), (W, V_)):
            env = dict(base)
            env['$memo'] = {}
            env[kid] = A
            env[mk('attr', kid, 'dependents')] = old
            env[(A, 'dependents')] = old
            describe(env, (A, W, V_))
            want = old if V_ in old else old + (V_, )
            try:
                got = ev(t, env)
            except Unknown as e:
                und = und or str(e)
                continue
            except Fails as e:
                bad = bad or 'recording a dependent fails'
                continue
            if sorted(map(label_of, got)) != sorted(map(label_of, want)):
                bad = bad or (
                    'an expression with the dependents %s that %s depends '
                    'on has the dependents %s afterwards' % (
                        names(old), 'v', names(got)))
            else:
                n += 1
    if not rec:
        if any(e.kind == 'recursion' or e.kind == 'method' for e in effs):
            und = und or 'recursion'
        elif any(e.loops and e.loops[-1][0].op == 'whiledom' for e in effs):
            und = und or 'worklist'
        else:
            bad = bad or ('only the dependencies of the first expression '
                          'learn about their dependents')
    for e in rec:
        if not (e.loops and len(e.args) > 1 and e.args[1] is kid):
            und = und or 'recursion on another expression'
            continue
        for c, d in itertools.product((1, 2), (1, 2)):
            env = dict(base)
            env['$memo'] = {}
            env[kid] = A
            env[mk('attr', kid, 'dependents')] = ()
            env[(A, 'dependents')] = ()
            describe(env, (A, B, W, V_), d == 1)
            env[(A, 'dependencies')] = (B, W)[:c]
            r = reached(e, env)
            if r is None:
                und = und or 'condition of the recursion'
            elif r is False:
                bad = bad or ('the dependencies of an expression met for '
                              'the first time do not learn about their '
                              'dependents')
            else:
                n += 1
    close(rep, rule, where, name, n, und, bad)


def loop_element_of(loop):
    dom, idx = loop
    if dom.op == 'tail':
        dom = dom.args[0]
    return mk('item', dom, idx)


def rule_register(ctx, rep):
    """register_nodes records every expression below a node, each under a
    key of its own."""
    rule, name = 'every-expression-registered', 'register_nodes'
    where = has_method(ctx, name)
    if where is None:
        return
    ns = Nodes(ctx)
    v = ns.other('v')
    nodes = P('nodes', 'dict')
    seq = mk('attr', v, 'dependencies')
    ns.seqs[seq] = 'dependencies'
    s, effs = step_effects(ns.h, lambda: ns.on(lambda: ns.h.call(
        v, name, nodes)))
    qual = ctx.world.variable.find(name).qual
    rec = [e for e in effs if e.kind == 'recursion' and e.args[0] == qual]
    sets = [e for e in effs if e.kind == 'setitem' and e.args[0] is nodes]
    if not sets:
        rep.und(rule, name, 'no expression is recorded here')
        return
    kid = None
    for e in sets:
        if e.loops and seq_root(e.loops[0][0]) is seq and \
                e.args[2] is loop_element_of(e.loops[0]):
            kid = e.args[2]
            dom = e.loops[0][0]
    if kid is None:
        rep.und(rule, name, 'no loop over the dependencies')
        return
    A, B, C = Obj('a'), Obj('b'), Obj('c')
    idx = kid.args[1]
    und, bad, n = None, None, 0
    if unordered(dom):
        rep.bad('order-depends-on-program-only', where, name,
                'expressions are registered in the iteration order of a set')
    def env_of(x, table, deps=None, alike=True):
        e = edge_env({seq: deps or (x, ), nodes: table})
        describe(e, (A, B), alike)
        for y in (A, B, C):
            e[(y, 'dependencies')] = (C, ) if y is not C else ()
            e[(y, 'dependents')] = ()
        e[idx] = 0
        return e
    try:
        ks = [ev(sets[0].args[1], env_of(x, {})) for x in (A, B)]
        same = ks[0] is ks[1] if isinstance(ks[0], Sym) else ks[0] == ks[1]
        if same:
            bad = 'two expressions of the same name are recorded under the ' \
                'same key: only one of them is registered, or the model is ' \
                'rejected'
        else:
            n += 1
        if len(members(dom, env_of(A, {}, (A, B)))) != 2:
            bad = bad or 'some dependencies are not registered'
    except (Unknown, Fails) as e:
        rep.und(rule, name, 'key: %s' % e)
        return
    for table, alike in itertools.product(({}, {ks[1]: B}), (True, False)):
        env = env_of(A, table, alike=alike)
        for what, es in (('registered', sets), ('searched for further '
                                                'expressions', rec)):
            rs = [reached(e, env) for e in es
                  if what == 'registered' or len(e.args) > 1 and
                  e.args[1] is kid and nodes in e.args]
            if True in rs:
                n += 1
            elif None in rs or not rs and any(
                    e.kind in ('recursion', 'method') or e.loops and
                    e.loops[-1][0].op == 'whiledom' for e in effs):
                und = und or what
            else:
                bad = bad or ('a dependency that is not registered yet is '
                              'not %s' % what)
    for table in ({}, {ks[1]: B}, {ks[0]: A}, {ks[0]: A, ks[1]: B}):
        r = raised_ev(s, env_of(A, table))
        if r is True:
            bad = bad or ('registering an expression raises although no '
                          'other expression has its key')
        elif r is None:
            und = und or 'conditions of the error'
        else:
            n += 1
    close(rep, rule, where, name, n, und, bad)


def acyclic(n):
    """Adjacency (tuples of sets) of the acyclic graphs on n nodes."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        adj = [set() for _ in range(n)]
        for (i, j), b in zip(pairs, bits):
            if b:
                adj[i].add(j)
        if all(i not in below(adj, i) for i in range(n)):
            yield adj


def below(adj, i):
    seen, todo = set(), list(adj[i])
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            todo += adj[j]
    return seen


def rule_prune(ctx, rep):
    """remove_indirect_dependencies removes an edge only when the expression
    is still reached another way."""
    rule, name = 'needed-edges-kept', 'remove_indirect_dependencies'
    w = ctx.world
    m = w.p.modules.get('omtools.core.graph')
    f = w.p.lookup(m, name) if m is not None else None
    if not isinstance(f, Func):
        rep.und(rule, name, 'function not found')
        return
    where = f.module.path, f.node.lineno
    ns = Nodes(ctx)
    v = ns.other('v')
    seq = mk('attr', v, 'dependencies')
    s, effs = step_effects(ns.h, lambda: ns.on(lambda: ns.h.run(
        lambda: ns.h.it.call_value(ns.h.it.binding(f, ns.h.st), [v], {},
                                   ns.h.st, ns.h.node)), EDGES))
    for e in effs:
        if e.kind in ('recursion', 'extcall', 'call', 'setitem') or \
                e.kind == 'setattr' and e.args[0] is not v or \
                e.kind == 'method' and e.args[0].op != 'cell':
            rep.und(rule, name, 'effect %s' % (e.kind, ))
            return
    after = ns.h.st.heap.get(v, {}).get('dependencies')
    after = seq if after is None else ns.h.it.pure(ns.h.st, after)
    if unordered_steps(after):
        rep.bad('order-depends-on-program-only', where, name,
                'edges are removed in the iteration order of a set')
    und, bad, n = None, None, 0
    for k in (1, 2, 3):
        for adj in acyclic(k):
            for ext in itertools.product((0, 1), repeat=k):
                if k == 3 and sum(ext) > 1:
                    continue
                r = prune_case(v, seq, after, k, adj, ext)
                if r is None:
                    n += 1
                elif isinstance(r, Unknown):
                    und = und or str(r)
                else:
                    bad = bad or r
    close(rep, rule, where, name, n, und, bad)


def prune_case(v, seq, after, k, adj, ext):
    D = Obj('d')
    kids = [Obj('abc'[i]) for i in range(k)]
    old = tuple(kids)
    env = edge_env({seq: old, v: Obj('v')})
    for i in range(k):
        env[(kids[i], 'dependencies')] = tuple(
            kids[j] for j in sorted(adj[i])) + ((D, ) if ext[i] else ())
        env[(kids[i], 'dependents')] = ()
    env[(D, 'dependencies')] = env[(D, 'dependents')] = ()
    describe(env, kids + [D])
    text = 'v depends on %s, %s' % (names(old), ', '.join(
        '%s on %s' % (c.label, names(env[(c, 'dependencies')]))
        for c in kids))
    try:
        cur = ev(after, env)
        if not isinstance(cur, tuple):
            raise Unknown('edges')
    except Unknown as e:
        return e
    except Fails as e:
        return 'it fails when ' + text
    if len(set(cur)) != len(cur) or not set(cur) <= set(old):
        return 'when %s, the edges become %s' % (text, names(cur))
    lost = set(range(k))
    for c in cur:
        i = kids.index(c)
        lost -= {i} | below(adj, i)
    if lost:
        return ('when %s, only the edges to %s remain: %s may be computed '
                'too late or be left out of the model' % (
                    text, names(cur), names([kids[i] for i in sorted(
                        lost)])))
    return None


def unordered_steps(t):
    """Does a sequence built by a loop depend on the order of a set?"""
    if t.op == 'fold':
        return any(unordered(a) for a in t.args if isinstance(a, T))
    return unordered(t)


# ------------------------------------------------------------ the whole run
def rule_order(ctx, rep):
    """Typestate of an expression during the sort: it is looked at once per
    dependent, and at the last time, and only then, put in the order and its
    dependencies looked at.  The model is built in the opposite order."""
    rule, inst = 'built-after-dependencies', 'sort'
    p = pipeline(ctx, True)
    it = p.h.it
    inside = [e for e in p.effects if any(
        d.op == 'whiledom' for d, _ in e.loops)]
    pops = set()
    for e in inside:
        for a in e.args:
            for t in subterms(a) if isinstance(a, T) else ():
                if t.op == 'lpop' and t.args[0] in it.while_init:
                    pops.add(t)
    if len(pops) != 1:
        rep.und(rule, inst, 'not a loop over a worklist')
        return
    v = pops.pop()
    q = v.args[0]
    first, S = it.while_init[q]
    where = inside[0].where
    root = mk('attr', p.slf, '_root')
    if first is None or first.op != 'tup' or list(first.args) != [root]:
        rep.und(rule, 'start of the sort', 'worklist starts with %s' % first)
    else:
        rep.ok(rule, 'start of the sort')
    pushes = [e for e in inside if e.kind in ('append', 'extend', 'insert')
              and e.args[0] is S]
    emits = [e for e in inside if e.kind in ('append', 'insert') and
             e.args[0] is not S and e.args[-1] is v and
             e.args[0].op == 'cell']
    cells = set(e.args[0] for e in emits)
    if not pushes or len(cells) != 1:
        rep.und(rule, inst, 'no order is built')
        return
    R = cells.pop()
    deps = mk('attr', v, 'dependencies')
    n, und, bad = 0, None, None
    kids = tuple(Obj('abc'[i]) for i in range(3))
    for e in pushes:
        if e.kind == 'extend':
            dom = e.args[1]
        elif len(e.loops) < 2:
            und = 'pushed outside a loop'
            continue
        else:
            dom = e.loops[-1][0]
            if e.args[-1] is not loop_element_of(e.loops[-1]):
                und = 'pushed expression'
                continue
        if unordered(dom):
            rep.bad('order-depends-on-program-only', e.where, inst,
                    'dependencies are looked at in the iteration order of a '
                    'set')
        try:
            env = edge_env({deps: kids, v: Obj('v')})
            describe(env, kids)
            m = members(dom, env)
            if sorted(map(label_of, m)) != ['a', 'b', 'c']:
                bad = 'of the dependencies [a, b, c] only %s are looked at' \
                    % names(m)
        except (Unknown, Fails) as x:
            und = 'dependencies: %s' % x
    V_ = Obj('v')
    tv = mk('attr', v, 'times_visited')
    for d, k, waiting in itertools.product((0, 1, 2, 3), (0, 1, 2), (1, 2)):
        t, total, out = 0, 0, 0
        for visit in range(1, max(d, 1) + 1):
            env = edge_env({deps: kids[:k], v: V_, tv: t,
                            mk('attr', v, 'dependents'): tuple(
                                Obj('p%d' % i) for i in range(d)),
                            q: (Obj('w'), V_)[2 - waiting:]})
            describe(env, (V_, Obj('w')) + kids)
            rs = [reached_in(e, env) for e in pushes]
            ro = [reached_in(e, env) for e in emits]
            if None in rs or None in ro:
                und = und or 'conditions'
                break
            np = sum(1 for x in rs if x)
            no = sum(1 for x in ro if x)
            last = visit == max(d, 1)
            say = 'an expression with %d dependents and %d dependencies, ' \
                'met for time number %d, ' % (d, k, visit)
            if d == 0:
                if np != 1:
                    bad = bad or ('the dependencies of the root of the model'
                                  ' are not looked at exactly once')
            elif not last and (np or no):
                bad = bad or say + 'is %s before all its dependents are in ' \
                    'the order' % ('put in the order' if no else 'expanded')
            elif last and (np != 1 or no != 1):
                bad = bad or say + 'is put in the order %d times and its ' \
                    'dependencies are looked at %d times' % (no, np)
            else:
                n += 1
            nt = t
            for e in inside:
                if e.kind == 'setattr' and e.args[0] is v and \
                        e.args[1] == 'times_visited':
                    r = reached_in(e, env)
                    if r is None:
                        nt = None
                    elif r and nt is not None:
                        try:
                            nt = ev(e.args[2], env)
                        except (Unknown, Fails) as x:
                            nt = None
            if nt is None:
                und = und or 'count of the visits'
                break
            t = nt
    close(rep, rule, where, inst, n, und, bad)
    # the order of the components
    adds = p.added()
    for i, e in adds:
        if not e.loops:
            rep.und(rule, 'order of the components', 'no loop')
            continue
        dom, odd = e.loops[-1][0], 0
        if unordered(dom):
            rep.bad('order-depends-on-program-only', e.where, 'components',
                    'components are added in the iteration order of a set')
            continue
        while True:
            if dom.op in ('tolist', 'copy'):
                dom = dom.args[0]
            elif dom.op == 'reversed':
                dom, odd = dom.args[0], odd + 1
            elif dom.op == 'slice' and [
                    is_const(x) and cval(x) for x in dom.args[1:4]] == [
                        None, None, -1]:
                dom, odd = dom.args[0], odd + 1
            else:
                break
        odd += sum(1 for x in emits if x.kind == 'insert')
        init = it.while_init.get(dom)
        if init is None or init[1] is not R or any(
                x.kind == 'insert' and x.args[1] is not ZERO
                for x in emits):
            rep.und(rule, 'order of the components', dom.op)
        elif odd % 2 == 0:
            rep.bad(rule, e.where, 'order of the components',
                    'components are added before the components of the '
                    'expressions they depend on')
        else:
            rep.ok(rule, 'order of the components')


def reached_in(e, env):
    return reached(e, env)


KINDS = ('Variable', 'Input', 'ExplicitOutput', 'ImplicitOutput', 'Indep',
         'Subsystem')


def kinds(w):
    """The classes of expressions, found by name."""
    r = {}
    for c in w.p.classes.values():
        n = c.qual.split('.')[-1]
        if n in KINDS and c.qual.startswith('omtools.core.') and (
                c is w.variable or c.is_sub(w.variable)):
            r[n] = c
    return r


def class_names(c):
    return tuple(k.qual if isinstance(k, Class) else k[1] for k in c.mro())


def instances(e, env):
    """Environments in which the effect takes place; Unknown when that
    cannot be decided."""
    envs = [env]
    for dom, idx in e.loops:
        nxt = []
        for x in envs:
            for v in V.domain(dom, x):
                y = dict(x)
                y['$memo'] = {}
                y[idx] = v
                nxt.append(y)
        envs = nxt
    r = []
    for x in envs:
        ok = reached(e, x)
        if ok is None:
            raise Unknown('conditions')
        if ok:
            r.append(x)
    return r


def edges_changed(e):
    """Does the effect change edges of expressions?  'dependencies',
    'dependents' or None."""
    name = None
    if e.kind == 'method':
        name = e.args[1]
        if name.startswith(('add_dependency', 'remove_dependency')):
            return 'dependencies'
        if name.startswith(('add_dependent', 'remove_dependent')):
            return 'dependents'
    elif e.kind in ('setattr', ):
        name = e.args[1]
    elif e.kind in ('append', 'insert', 'extend', 'cellmut', 'delitem',
                    'setitem') and e.args and isinstance(e.args[0], T) and \
            e.args[0].op == 'attr':
        name = e.args[0].args[1]
    return name if name in EDGES else None


def rule_stages(ctx, rep):
    """The stages of building a group: the user's setup, registration of the
    expressions, edges to the independent variables, forward edges, sort."""
    p = pipeline(ctx)
    effs = p.effects
    group = p.slf
    root = mk('attr', group, '_root')
    nodes = mk('attr', group, 'nodes')
    where = p.where

    # the user's setup
    rule = 'stages-in-order'
    rd = mk('attr', root, 'dependencies')
    envs = [edge_env({nodes: {}, group: Obj('group'), root: Obj('root'),
                      rd: k}) for k in small(2)]
    calls = [i for i, e in enumerate(effs) if e.kind == 'call' and
             e.args[0] is p.func]
    at = None
    if not calls:
        if any(contains(a, lambda s: s is p.func) for e in effs
               for a in e.args if isinstance(a, T)):
            rep.und(rule, 'setup', 'passed on')
        else:
            rep.bad(rule, where, 'setup', 'building a group does not run '
                    'the setup the user wrote')
    else:
        at = calls[0]
        ns = set()
        for env in envs:
            rs = [reached(effs[i], env) for i in calls]
            ns.add(None if None in rs or any(effs[i].loops for i in calls)
                   else sum(1 for r in rs if r))
        if ns - {None, 1}:
            rep.bad(rule, effs[calls[-1]].where, 'setup', 'building a group '
                    'runs the setup the user wrote %d times' % max(
                        ns - {None, 1}))
        elif None in ns:
            rep.und(rule, 'setup', 'conditions')
        else:
            rep.ok(rule, 'setup')

    def single(name, recv):
        return [i for i, e in enumerate(effs) if e.kind == 'method' and
                e.args[1] == name and e.args[0] is recv]

    reg = single('register_nodes', root)
    if len(reg) > 1:
        # expressions from before the setup may be registered as well
        reg = [i for i in reg if at is None or i > at]
    if len(reg) != 1 or effs[reg[0]].guard or effs[reg[0]].loops or \
            effs[reg[0]].args[2][:1] != (nodes, ):
        rep.und(rule, 'registration', 'not a single call')
        reg = None
    elif at is not None and reg[0] < at:
        rep.bad(rule, effs[reg[0]].where, 'registration', 'expressions are '
                'registered before the setup of the user has created them')
        reg = None
    else:
        rep.ok(rule, 'registration')
        reg = reg[0]

    fwd = single('add_fwd_edges', root)
    if len(fwd) != 1 or effs[fwd[0]].guard or effs[fwd[0]].loops:
        rep.und(rule, 'forward edges', 'not a single call')
    else:
        fwd = fwd[0]
        sort = [i for i, e in enumerate(effs) if any(
            d.op == 'whiledom' for d, _ in e.loops)]
        late = [e for e in effs[fwd + 1:sort[0] if sort else None]
                if edges_changed(e)]
        if any(edges_changed(e) == 'dependents' for e in late):
            rep.und(rule, 'forward edges', 'dependents are changed later')
        elif late and not sort:
            rep.und(rule, 'forward edges', 'the sort was not found')
        elif late:
            rep.bad(rule, late[0].where, 'forward edges', 'dependencies '
                    'change after the dependents have been recorded: the '
                    'sort waits for dependents that do not lead to the '
                    'expression, or does not wait for those that do')
        else:
            rep.ok(rule, 'forward edges')
        if sort and sort[0] < fwd:
            rep.bad(rule, effs[sort[0]].where, 'sort', 'expressions are '
                    'sorted before their dependents are known')
        elif sort:
            rep.ok(rule, 'sort')
        else:
            rep.und(rule, 'sort', 'not found')

    # independent variables first
    rule = 'independent-variables-first'
    ks = kinds(ctx.world)
    adds = [(i, e) for i, e in enumerate(effs) if e.kind == 'method' and
            e.args[1] == 'add_dependency_node']
    once = set()
    for x, y in itertools.product(sorted(ks), repeat=2):
        A, B, C = Obj('a'), Obj('b'), Obj('c')
        inst = 'node %s, output %s' % (x, y)
        env = edge_env({nodes: {'a': A, 'b': B, 'c': C}, rd: (A, B, C),
                        group: Obj('group'), root: Obj('root')})
        describe(env, (A, B, C), False)
        for o, k in ((A, x), (B, y), (C, 'ExplicitOutput')):
            env[(o, 'classes')] = class_names(ks[k])
            env[(o, 'dependencies')] = env[(o, 'dependents')] = ()
        try:
            got = set()
            for i, e in adds:
                for z in instances(e, env):
                    if e.kind == 'extend':
                        raise Unknown('edges')
                    got.add((ev(e.args[0], z).label,
                             ev(e.args[2][0], z).label))
        except (Unknown, Fails, AttributeError, IndexError) as err:
            rep.und(rule, inst, str(err))
            continue
        ind = [o.label for o, k in ((A, x), (B, y)) if k == 'Indep']
        inp = [o.label for o, k in ((A, x), (B, y)) if k == 'Input']
        want = set((n, i) for n in ('a', 'b', 'c') if n not in ind
                   for i in ind)
        if any(n not in inp for n, i in want - got):
            msg = ('nothing makes the expression depend on the independent '
                   'variable of the group: it may be computed before it')
        elif got - want:
            msg = ('when the group is built, an expression becomes '
                   'dependent on one that is not an independent variable, '
                   'or an independent variable on another')
        else:
            rep.ok(rule, inst)
            continue
        if msg not in once:
            once.add(msg)
            rep.bad(rule, where, inst, msg)
    for i, e in adds:
        if isinstance(fwd, int) and i < fwd and reg is not None and \
                i < reg:
            rep.bad(rule, e.where, 'before registration', 'independent '
                    'variables are put first before the expressions are '
                    'registered: none is registered yet')


def rule_components(ctx, rep):
    components(ctx, Only(rep, ('component-added-once', )))


def rule_names_promotions(ctx, rep):
    components(ctx, Only(rep, ('component-name-and-promotions',
                               'design-variables')))


class Only(object):
    """The part of a report about some rules."""

    def __init__(self, rep, rules):
        self.rep, self.rules = rep, rules
        self.findings = []

    def ok(self, rule, *a):
        if rule in self.rules:
            self.rep.ok(rule, *a)

    def und(self, rule, *a):
        if rule in self.rules:
            self.rep.und(rule, *a)

    def bad(self, rule, *a):
        if rule in self.rules:
            self.rep.bad(rule, *a)
            self.findings = self.rep.findings


def components(ctx, rep):
    """Each expression with a component gets it exactly once, under the name
    and with the promotions that belong to it; design variables are the
    independent variables declared to be."""
    p = pipeline(ctx)
    it = p.h.it
    adds = [e for _, e in p.added()]
    dvs = [e for e in p.effects if e.kind == 'method' and
           e.args[1] == 'add_design_var' and e.args[0] is p.slf or
           e.kind == 'extcall' and str(e.args[0]).endswith('add_design_var')]
    names_ = ('component-added-once', 'component-name-and-promotions',
              'design-variables')
    if not adds or not adds[0].loops:
        for n in names_:
            rep.und(n, 'components', 'no loop')
        return
    where = adds[0].where
    order = None
    for t in subterms(adds[0].loops[0][0]):
        if t in it.while_init:
            order = t
    if order is None:
        for n in names_:
            rep.und(n, 'components', 'no order')
        return
    ks = kinds(ctx.world)
    group = Obj('group')
    for x in sorted(ks):
        for names_, sysk, dv in itertools.product(
                (('u', 'v'), ('comp_u', 'u'), ('x_1', 'x_2')),
                (None, 'comp', 'group'), (True, False, 1, 0)):
            if sysk == 'group' and x != 'Subsystem':
                continue
            if dv is not False and x != 'Indep' or sysk is None and x not in (
                    'Input', 'Variable') or sysk and x == 'Input':
                continue
            if any(f.rule.startswith('component-') or
                   f.rule == 'design-variables' for f in rep.findings):
                return
            for given in PROMOTIONS if sysk == 'group' else (None, ):
                one_component_case(ctx, rep, where, p, adds, dvs, order,
                                   group, ks[x], x, names_, sysk, dv, given)


# what is promoted: given, not given or nothing at all
PROMOTIONS = list(itertools.product((True, None), repeat=3)) + [
    ((), ) * 3, ((), True, True), (True, (), ())]


def one_component_case(ctx, rep, where, p, adds, dvs, order, group, kx, x,
                       names_, sysk, dv, given):
    if any(f.rule.startswith('component-') or
           f.rule == 'design-variables' for f in rep.findings):
        return
    A, B = Obj('a'), Obj('b')
    sys = {A: Obj('sysa'), B: Obj('sysb')}
    env = edge_env({order: (A, B), p.slf: group})
    describe(env, (A, B), False)
    PR = {}
    for o, n in zip((A, B), names_):
        env[(o, 'name')] = n
        env[(o, 'classes')] = class_names(kx)
        env[(o, 'build')] = sys[o] if sysk else None
        env[(o, 'defined')] = True
        env[(o, 'dv')] = dv
        env[(o, 'build()')] = sys[o]
        env[(sys[o], 'classes')] = (
            'openmdao.api.Group',
            'openmdao.core.group.Group') if sysk == 'group' else (
                'openmdao.api.ExplicitComponent', )
        if x == 'Subsystem':
            for a, g in zip(('promotes', 'promotes_inputs',
                             'promotes_outputs'),
                            given or (True, ) * 3):
                PR[o, a] = env[(o, a)] = (
                    a + o.label, ) if g else g
    inst = '%s %s %s%s%s' % (
        x, '/'.join(names_), sysk,
        '' if dv is False else ' dv=%s' % (dv, ),
        '' if given is None else ' promotions %s%s%s' % tuple(
            'y' if g else 'n' if g is None else '0' for g in given))
    component_case(rep, where, inst, p, adds, dvs, env, sys, PR,
                   sysk, dv, (A, B), group)


def call_args(e, env, names):
    """Arguments of a call effect by name."""
    pos, kw = e.args[-2], e.args[-1]
    r = {}
    for n, a in zip(names, pos):
        r[n] = a
    for k, v in kw:
        r[k] = v
    return {k: ev(v, env) if isinstance(v, T) else v for k, v in r.items()}


class Raise(object):
    def __init__(self, facts, loops):
        self.guard, self.loops = facts, loops


def component_case(rep, where, inst, p, adds, dvs, env, sys, PR, sysk, dv,
                   nodes, group):
    got = {}
    try:
        for e in adds:
            for z in instances(e, env):
                self = () if e.kind == 'method' else ('self', )
                a = call_args(e, z, self + ('name', 'subsys'))
                got.setdefault(a.get('subsys'), []).append(a)
        count = {}
        for e in p.effects:
            if e.kind == 'method' and e.args[1] == 'build':
                for z in instances(e, env):
                    o = ev(e.args[0], z)
                    count[o] = count.get(o, 0) + 1
        for facts, exc, loc, loops in p.raises:
            e = Raise(facts, loops)
            if instances(e, env):
                rep.bad('component-added-once', loc, inst, 'building a '
                        'group whose outputs are all defined raises %s'
                        % exc)
                return
    except Unknown as e:
        rep.und('component-added-once', inst, str(e))
        return
    except Fails as e:
        rep.bad('component-added-once', where, inst,
                'adding the component fails')
        return
    rule = 'component-added-once'
    for o in nodes:
        n = len(got.get(sys[o], ()))
        if n != (1 if sysk else 0):
            rep.bad(rule, where, inst, 'the component of an expression is '
                    'added to the model %d times' % n)
            return
        if count.get(o, 0) > 1:
            rep.bad(rule, where, inst, 'the component of an expression is '
                    'built %d times' % count[o])
            return
    if set(got) - set(sys.values()):
        rep.und(rule, inst, 'something else is added')
        return
    rep.ok(rule, inst)
    rule = 'component-name-and-promotions'
    if sysk:
        calls = [got[sys[o]][0] for o in nodes]
        ns = [a.get('name') for a in calls]
        if not all(isinstance(n, str) for n in ns):
            rep.und(rule, inst, 'name')
        elif ns[0] == ns[1]:
            rep.bad(rule, where, inst, 'the components of different '
                    'expressions get the same name %r' % ns[0])
        elif any(a.get('self', group) is not group for a in calls):
            rep.bad(rule, where, inst, 'added to another group')
        else:
            for o, a in zip(nodes, calls):
                pr = [a.get(k) for k in ('promotes', 'promotes_inputs',
                                         'promotes_outputs')]
                if any(isinstance(v, str) for v in pr):
                    pr = [v if not isinstance(v, str) else (v, ) for v in pr]
                if sysk == 'group':
                    if a['name'] != env[(o, 'name')]:
                        rep.bad(rule, where, inst, 'a subsystem is added '
                                'under another name than the one it was '
                                'given')
                        return
                    want = [PR[o, k] for k in (
                        'promotes', 'promotes_inputs', 'promotes_outputs')]
                    if [v or () for v in pr] != [v or () for v in want]:
                        rep.bad(rule, where, inst, 'a subsystem is not '
                                'added with the promotions it was given: '
                                '%s instead of %s' % (pr, want))
                        return
                elif pr[0] != ('*', ) and (pr[1] != ('*', ) or
                                           pr[2] != ('*', )):
                    rep.bad(rule, where, inst, 'not all variables of the '
                            'component are promoted: %s' % (pr, ))
                    return
            rep.ok(rule, inst)
    rule = 'design-variables'
    got = []
    try:
        for e in dvs:
            for z in instances(e, env):
                a = call_args_method(e, z)
                got.append(a)
    except (Unknown, Fails) as e:
        rep.und(rule, inst, str(e))
        return
    want = sorted(env[(o, 'name')] for o in nodes) if dv and \
        inst.startswith('Indep') else []
    if any(not isinstance(g, str) for g in got):
        rep.und(rule, inst, 'name')
    elif sorted(got) != want:
        rep.bad(rule, where, inst, 'design variables of the model are %s '
                'instead of %s' % (sorted(got), want))
    else:
        rep.ok(rule, inst)


def call_args_method(e, env):
    pos, kw = e.args[-2], e.args[-1]
    if e.kind == 'extcall':
        pos = pos[1:]
    kw = dict(kw)
    t = pos[0] if pos else kw.get('name')
    return ev(t, env)


RULES = [rule_methods, rule_new_node, rule_forward, rule_register,
         rule_prune, rule_stages, rule_order, rule_components]
