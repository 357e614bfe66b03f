"""Enumeration of the build sites of the public functions and operators."""
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, opaque,
                    subst, contains, subterms, key)
from . import smart as S
from .smart import not_, and_, or_, ite, eq, assume, kind_of
from .interp import Interp, State, Activation, Dead, Budget, UNDEF
from .program import Class, Func, AnalysisError, Program
from .om import Elaborator, is_component


def P(name, kind, *extra):
    return mk('param', name, kind, *extra)


V = lambda n: P(n, 'Variable')
STAR = lambda n: mk('star', P(n, 'vars', 2))


class Case(object):
    def __init__(self, api, args, kwargs=None, label='', facts=(),
                 rejects=False, preset=()):
        self.api = api
        self.args = args
        self.kwargs = kwargs or {}
        self.label = label
        self.facts = facts
        self.rejects = rejects
        self.preset = preset      # (operand, attribute, value)

    @property
    def name(self):
        return self.api + (('[%s]' % self.label) if self.label else '')


class Instance(object):
    """One component, as built by one public call under one condition."""

    def __init__(self, case, conds, out, comp, state, where, root_state,
                 result):
        self.case = case
        self.conds = conds
        self.out = out            # Variable object whose build this is
        self.comp = comp          # component object term
        self.state = state        # state after build
        self.where = where
        self.root_state = root_state
        self.result = result

    @property
    def name(self):
        return '%s -> %s' % (self.case.name, self.cls.name)


class Root(object):
    def __init__(self, case):
        self.case = case
        self.result = None
        self.state = None
        self.raises = []
        self.instances = []
        self.problem = None
        self.always_raises = False


UNARY = ('arccos', 'arcsin', 'arctan', 'cos', 'cosec', 'cosech', 'cosh',
         'cotan', 'cotanh', 'exp', 'log', 'log10', 'sec', 'sech', 'sin',
         'sinh', 'tan', 'tanh')


def api_cases():
    c = []
    for u in UNARY:
        c.append(Case(u, [V('x')]))
    for f in ('sum', 'average'):
        for lab, a in (('1', V('x')), ('n', STAR('xs'))):
            c.append(Case(f, [a], {}, lab))
            c.append(Case(f, [a], {'axes': P('axes', 'ints', 1)},
                          lab + ',axes'))
    for f in ('max', 'min'):
        rho = {'rho': P('rho', 'float')}
        c.append(Case(f, [V('x')], rho, '1'))
        c.append(Case(f, [STAR('xs')], rho, 'n'))
        c.append(Case(f, [V('x')], dict(rho, axis=P('axis', 'int')),
                      '1,axis'))
    c.append(Case('pnorm', [V('x')], {'pnorm_type': P('p', 'int')}))
    c.append(Case('pnorm', [V('x')], {'pnorm_type': P('p', 'int'),
                                      'axis': P('axis', 'int')}, 'axis'))
    c.append(Case('pnorm', [V('x')], {'pnorm_type': P('p', 'int'),
                                      'axis': P('axes', 'ints', 1)},
                  'axes'))
    c.append(Case('reshape', [V('x'), P('new_shape', 'shape')]))
    c.append(Case('expand', [V('x'), P('new_shape', 'shape')]))
    c.append(Case('expand', [V('x'), P('new_shape', 'shape')],
                  {'indices': P('indices', 'str')}, 'indices'))
    c.append(Case('matmat', [V('A'), V('B')]))
    c.append(Case('matvec', [V('A'), V('x')]))
    c.append(Case('transpose', [V('A')]))
    c.append(Case('reorder_axes', [V('A'), P('operation', 'str')]))
    c.append(Case('inner', [V('a'), V('b')]))
    c.append(Case('inner', [V('a'), V('b')], {'axes': P('axes', 'axes2')},
                  'axes'))
    c.append(Case('dot', [V('a'), V('b')]))
    c.append(Case('dot', [V('a'), V('b')], {'axis': P('axis', 'int')},
                  'axis'))
    c.append(Case('cross', [V('a'), V('b'), P('axis', 'int')]))
    c.append(Case('outer', [V('a'), V('b')]))
    for ax in 'xyz':
        c.append(Case('rotmat', [V('angle'), const(ax)], {}, ax))
    for f in ('dense', 'sparse'):
        c.append(Case('einsum', [STAR('xs')],
                      {'subscripts': P('subs', 'str'),
                       'partial_format': const(f)}, f))
        c.append(Case('einsum_new_api', [mk('star', P('xs', 'vars', 1))],
                      {'operation': P('op', 'list'),
                       'partial_format': const(f)}, f))
    c.append(Case('if_else', [V('c'), V('t'), V('f')]))
    return c


OPS = (('add', '__add__', '__radd__'), ('sub', '__sub__', '__rsub__'),
       ('mul', '__mul__', '__rmul__'),
       ('truediv', '__truediv__', '__rtruediv__'),
       ('pow', '__pow__', None))


def op_cases():
    c = []
    for nm, l, r in OPS:
        if nm != 'pow':
            c.append(Case(l, [V('x'), V('y')], {}, 'expr'))
        for kd in ('int', 'float'):
            c.append(Case(l, [V('x'), P('k', kd)], {}, kd))
            if r:
                c.append(Case(r, [V('x'), P('k', kd)], {}, kd))
        c.append(Case(l, [V('x'), P('k', 'ndarray')], {}, 'array'))
    c.append(Case('__neg__', [V('x')]))
    return c


class World(object):
    """The analysed program with every public root evaluated."""

    def __init__(self, root='/repo'):
        self.p = Program(root)
        self.it = Interp(self.p)
        self.el = Elaborator(self.it)
        self.it.raise_log = []
        self.variable = self.find_variable()
        self.it.variable_class = self.variable
        self.api = self.p.modules.get('omtools.api')
        if self.api is None:
            raise AnalysisError('omtools.api not found')
        self.roots = {}

    def find_variable(self):
        c = self.p.classes.get('omtools.core.variable.Variable')
        if c is not None:
            return c
        for q, c in self.p.classes.items():
            if q.endswith('.Variable'):
                return c
        raise AnalysisError('class Variable not found')

    def resolve(self, case):
        if case.api.startswith('__'):
            f = self.variable.find(case.api)
            return f, True
        b = self.p.lookup(self.api, case.api)
        return b, False

    def run(self, case):
        k = case.name
        if k in self.roots:
            return self.roots[k]
        r = Root(case)
        self.roots[k] = r
        it = self.it
        f, meth = self.resolve(case)
        if f is None:
            r.problem = 'missing'
            return r
        it.steps = 0
        st = State()
        st.facts = tuple(case.facts)
        for o, k, v in case.preset:
            st.set(o, k, v)
        it.raise_log = []
        act = Activation(None, mk('frame', it.fresh()), self.api)
        st.heap[act.frame] = {}
        it.stack.append(act)
        try:
            try:
                fv = it.binding(f, st)
                if meth:
                    res = it.call_value(fv, list(case.args), dict(
                        case.kwargs), st, f.node)
                else:
                    node = f.node if isinstance(f, Func) else \
                        self.api.tree
                    res = it.call_value(fv, list(case.args), dict(
                        case.kwargs), st, node)
            except Dead:
                r.always_raises = True
                r.raises = list(it.raise_log)
                return r
            except Budget:
                r.problem = 'budget'
                return r
            r.result = res
            r.state = st
            r.raises = list(it.raise_log)
            for conds, out in leaves(res):
                r.instances.extend(self.builds(r, conds, out, st))
        finally:
            it.stack.pop()
        return r

    def builds(self, r, conds, out, st, seen=None):
        """Component instances of out and of the intermediate variables the
        call created."""
        it = self.it
        found = []
        seen = set() if seen is None else seen
        objs = [out] + [o for o in st.heap if o.op == 'obj' and o is not out]
        for o in objs:
            c = it.obj_class.get(o)
            if not isinstance(c, Class) or not c.is_sub(self.variable):
                continue
            b = st.get(o, 'build')
            if b is None or o in seen:
                continue
            seen.add(o)
            for bc, leaf in leaves(assume(b, st.facts + conds)):
                s2 = st.fork()
                s2.epoch = 'build'
                for cv in conds + bc:
                    s2.add_fact(*cv)
                if contradictory(s2.facts):
                    continue
                if leaf.op not in ('clo', 'bound', 'partial'):
                    found.append(self.bad(r, conds + bc, o, leaf))
                    continue
                try:
                    comp = it.call_value(leaf, [], {}, s2,
                                         self.api.tree)
                except Dead:
                    continue
                for cc, cp in leaves(it.simp(comp, s2)):
                    s3 = s2.fork()
                    for cv in cc:
                        s3.add_fact(*cv)
                    i = Instance(r.case, conds + bc + cc, o, cp, s3,
                                 it.obj_site.get(cp), st, out)
                    i.cls = it.obj_class.get(cp)
                    found.append(i)
        return found

    def bad(self, r, conds, o, leaf):
        i = Instance(r.case, conds, o, leaf, None, self.it.obj_site.get(o),
                     None, o)
        i.cls = None
        return i

    def model(self, inst):
        m = getattr(inst, '_model', None)
        if m is None:
            self.it.steps = 0
            m = self.el.elaborate(inst.comp, inst.state)
            inst._model = m
        return m


def leaves(t, conds=()):
    """(conditions, leaf) of a gated value."""
    if t.op == 'ite':
        c, a, b = t.args
        for x in leaves(a, conds + ((c, True), )):
            yield x
        for x in leaves(b, conds + ((c, False), )):
            yield x
    else:
        yield conds, t


def contradictory(facts):
    m = {}
    for c, v in facts:
        if c.op == 'const':
            if bool(c.args[0]) != v:
                return True
            continue
        if c.op == 'not':
            c, v = c.args[0], not v
        if m.get(c, v) != v:
            return True
        m[c] = v
    return False
