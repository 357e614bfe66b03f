"""C21 and C30: what the calls of a group that declare, create, register and
define leave behind.

The calls are evaluated abstractly on a new group with symbols for names,
shapes, values and systems; the edges, attributes and components they leave
are formulas, which are compared with what was asked for."""
import ast
import itertools
from fractions import Fraction
from .common import *
from ..report import Report
from ..history import History
from ..sites import P
from ..program import AnalysisError
from .. import arrays as A
from ..arrays import Arr
from ..evalu import Unknown, Fails, Obj, Sym, ev, truthv
from .numeric import symbols
from .outputs import Scene, step_raises, where_of
from .indexing import (Part, label, instances, pick, values_diff, jac_diff)
from .graph import edge_env

SHAPES = ((1, ), (3, ), (2, 3), (2, 1, 2))


class Facts(object):
    """Comparisons of one rule."""

    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule

    def expect(self, inst, where, f, msg):
        """f() -> truth; msg: text of the violation."""
        try:
            r = f()
        except Unknown as e:
            self.rep.und(self.rule, inst, str(e))
            return
        except Fails as e:
            self.rep.bad(self.rule, where, inst, '%s (%s)' % (msg, e))
            return
        if r:
            self.rep.ok(self.rule, inst)
        else:
            self.rep.bad(self.rule, where, inst, msg)


def sequence(sc, o, a):
    """Members of a list attribute: terms."""
    s = sc.h.attr(o, a)
    v = s.value
    if v is None:
        raise Unknown(a)
    t = sc.h.pure(s, v)
    return t


def objects(t, env=None):
    """The objects of a sequence term."""
    v = ev(t, env or edge_env({}))
    if not isinstance(v, tuple):
        raise Unknown('sequence')
    return v


def obj(t):
    """The object of a term that is one."""
    if t is None or t.op != 'obj':
        raise Unknown('object')
    return ev(t, {})


def accepted(sc):
    """Every step of the scene returns."""
    for s in sc.steps:
        if s.dead:
            raise Fails('refused')


def group_where(ctx, name):
    g = ctx.world.p.lookup(ctx.world.api, 'Group')
    f = g.find(name) if g is not None else None
    return (f.module.path, f.node.lineno) if f is not None else None


def rule_edges(ctx, rep):
    """What depends on what after the calls that build the graph."""
    F = Facts(rep, 'dependencies-of-declarations')
    w = ctx.world
    rootdeps = lambda sc: objects(sequence(
        sc, sc.h.attr(sc.g, '_root').value, 'dependencies'))
    deps = lambda sc, o: objects(sequence(sc, o, 'dependencies'))

    def on_root(sc, *os):
        accepted(sc)
        r = rootdeps(sc)
        return all(r.count(obj(o)) == 1 for o in os) and \
            len(r) == len(os)

    # outputs
    sc = Scene(ctx)
    e = sc.do(sc.h.new(w.variable, shape=P('s', 'shape')))
    sc.do(sc.h.call(sc.g, 'register_output', P('n', 'str'), e))
    F.expect('register_output', group_where(ctx, 'register_output'),
             lambda: on_root(sc, e),
             'a registered output is not needed by the model exactly once')
    sc2 = Scene(ctx)
    y = sc2.do(sc2.h.call(sc2.g, 'create_output', P('n', 'str'),
                          shape=P('s', 'shape')))
    F.expect('create_output', group_where(ctx, 'create_output'),
             lambda: on_root(sc2, y),
             'a created output is not needed by the model exactly once')
    sc3 = Scene(ctx)
    a = sc3.do(sc3.h.call(sc3.g, 'create_indep_var', P('n', 'str'),
                          shape=P('s', 'shape')))
    F.expect('create_indep_var', group_where(ctx, 'create_indep_var'),
             lambda: on_root(sc3, a), 'an independent variable is not '
             'needed by the model exactly once')

    # subsystems
    sc4 = Scene(ctx)
    h = sc4.h
    wa = group_where(ctx, 'add_subsystem')
    wd = group_where(ctx, 'declare_input')
    before = sc4.do(h.call(sc4.g, 'declare_input', P('n0', 'str')))
    F.expect('input declared before any subsystem', wd,
             lambda: accepted(sc4) or deps(sc4, before) == (),
             'an input declared first depends on something')
    old = []
    subs = []
    for k in range(3):
        old.append(sc4.do(h.call(sc4.g, 'create_indep_var',
                                 P('a%d' % k, 'str'),
                                 shape=P('s', 'shape'))))
        e = sc4.do(h.new(w.variable, shape=P('s', 'shape')))
        old.append(sc4.do(h.call(sc4.g, 'register_output',
                                 P('r%d' % k, 'str'), e)))
        have = None
        try:
            have = rootdeps(sc4)
        except Unknown:
            pass
        sc4.do(h.call(sc4.g, 'add_subsystem', P('s%d' % k, 'str'),
                      P('sys%d' % k, 'any')))
        try:
            new = [x for x in rootdeps(sc4) if x not in (have or ())]
        except Unknown as ex:
            rep.und(F.rule, 'subsystem %d' % k, str(ex))
            return
        inst = 'subsystem %d' % (k + 1)
        if len(new) != 1 or len(rootdeps(sc4)) != len(have) + 1:
            rep.bad(F.rule, wa, inst, 'a subsystem is not needed by the '
                    'model exactly once')
            return
        sub = [t for t in sc4.h.st.heap if t.op == 'obj' and
               obj(t) is new[0]]
        if len(sub) != 1:
            rep.und(F.rule, inst, 'object')
            return
        sub = sub[0]
        F.expect(inst + ' follows what is registered', wa,
                 lambda: accepted(sc4) or set(obj(o) for o in old) <= set(
                     deps(sc4, sub)) and new[0] not in deps(sc4, sub),
                 'a subsystem does not depend on every output registered '
                 'before it: it may run before its inputs are computed')
        inp = sc4.do(h.call(sc4.g, 'declare_input', P('i%d' % k, 'str')))
        F.expect('input declared after subsystem %d' % (k + 1), wd,
                 lambda: accepted(sc4) or new[0] in deps(sc4, inp) and set(
                     deps(sc4, inp)) <= set([new[0]] + subs),
                 'an input declared after a subsystem does not depend on '
                 'it: expressions that use it may run before the subsystem')
        # nothing makes an output registered later wait for the subsystem
        # but the inputs it uses
        subs.append(new[0])
        old.append(sub)

    # definitions
    sc5 = Scene(ctx)
    y = sc5.output()
    e = sc5.expr(1)
    sc5.do(sc5.h.call(y, 'define', e))
    F.expect('define', where_of(sc5, y, 'define'),
             lambda: accepted(sc5) or deps(sc5, y) == (obj(e), ),
             'an output defined by an expression does not depend on exactly '
             'that expression')
    sc6 = Scene(ctx)
    y = sc6.output()
    es = [sc6.expr(n) for n in (1, 2, 3)]
    for n, e in enumerate(es):
        sc6.do(sc6.h.setitem(y, mk('sl', const(n), const(n + 1), NONE), e))
    F.expect('indexed assignment', where_of(sc6, y, '__setitem__'),
             lambda: accepted(sc6) or sorted(map(str, deps(sc6, y))) ==
             sorted(map(str, map(obj, es))),
             'an output assigned by blocks does not depend on exactly the '
             'assigned expressions')


    # outputs defined in terms of themselves
    for text, links in (('directly', [(0, 'y')]),
                        ('through another expression', [(0, 1), (1, 'y')]),
                        ('in two ways', [(0, 1), (0, 'y'), (1, 'y')]),
                        ('and then through another expression',
                         [(0, 'y'), (0, 1), (1, 'y')]),
                        ('between uses through other expressions',
                         [(0, 1), (0, 'y'), (0, 2), (1, 'x'), (1, 'y'),
                          (2, 'y'), (2, 'x')]),
                        ('far away', [(0, 1), (1, 2), (1, 'x'), (2, 3),
                                      (3, 'x'), (3, 'y')]),
                        ('through two expressions', [(0, 1), (0, 2),
                                                     (1, 'y'), (2, 'y')]),
                        ('with other operands', [(0, 'x'), (0, 'y'),
                                                 (0, 1), (1, 'x')])):
        sc = Scene(ctx)
        S = P('s', 'shape')
        y = sc.do(sc.h.call(sc.g, 'create_output', P('n', 'str'), shape=S,
                            val=P('v', 'ndarray')))
        x = sc.do(sc.h.call(sc.g, 'declare_input', P('nx', 'str'), shape=S))
        k = 1 + max([i for l in links for i in l if isinstance(i, int)])
        es = [sc.do(sc.h.new(w.variable, shape=S)) for _ in range(k)]
        node = dict(enumerate(es))
        node.update(x=x, y=y)
        for i, j in links:
            sc.do(sc.h.call(node[i], 'add_dependency_node', node[j]))
        sc.do(sc.h.call(y, 'define', es[0]))

        def cycle():
            accepted(sc)
            for i, e in enumerate(es):
                old = [node[j] for a, j in links if a == i]
                d = deps(sc, e)
                if obj(y) in d:
                    return False
                keep = [obj(o) for o in old if o is not y]
                if any(o not in d for o in keep) or len(d) != len(old):
                    return False
                for t in sc.h.st.heap:
                    if t.op == 'obj' and obj(t) in d and \
                            obj(t) not in keep and not leaf(sc, t, S):
                        return False
            return True

        def leaf(sc, t, S):
            c = sc.h.it.obj_class.get(t)
            if c is None or c.qual.split('.')[-1] != 'Input':
                return False
            env = edge_env({S: (2, 3), P('n', 'str'): 'x'})
            env[P('v', 'ndarray')] = symbols('v', (2, 3))
            a = lambda n: ev(sc.h.pure(sc.last(), sc.h.attr(t, n).value),
                             env)
            return a('name') == 'x' and tuple(A.arr(
                a('shape')).data) == (2, 3) and same_array(
                    a('val'), env[P('v', 'ndarray')])
        F.expect('output defined by itself ' + text,
                 where_of(sc, y, 'define'), cycle,
                 'where an output is used in its own definition, the '
                 'expression does not depend on an input that stands for it '
                 'and on its other operands')


# ---------------------------------------------------------------- interface
class Made(object):
    """A variable a group made, and what was asked for."""

    def __init__(self, ctx, kind, shape, val, **kw):
        self.sc = sc = Scene(ctx)
        self.kind = kind
        self.name = P('n', 'str')
        args = {}
        if shape is not None:
            args['shape'] = shape
        if val is not None:
            args['val'] = val
        args.update(kw)
        self.step = sc.h.call(sc.g, kind, self.name, **args)
        sc.steps.append(self.step)
        self.o = self.step.value

    def attr(self, a, env):
        s = self.sc.h.attr(self.o, a)
        if s.value is None:
            raise Fails('no attribute ' + a)
        return ev(self.sc.h.pure(s, s.value), env)


def filled(v, shape):
    """A value given to a variable of that shape."""
    if isinstance(v, Arr):
        return v
    return Arr(shape, [v] * A.size(shape))


def same_array(got, want):
    got = A.arr(got)
    return got.shape == want.shape and not values_diff(got, want.data)


def nested(a):
    if a.ndim == 1:
        return tuple(a.data)
    n = A.size(a.shape[1:])
    return tuple(nested(Arr(a.shape[1:], a.data[k * n:(k + 1) * n]))
                 for k in range(a.shape[0]))


def value_cases():
    """(text, shape term, value term, env, shape, value)"""
    S = P('s', 'shape')
    for s in SHAPES:
        for n in (0, -3, 2, 17, Fraction(25, 2), Fraction(-1, 4),
                  Fraction(4097, 2)):
            yield ('number %s for shape %s' % (n, s), S, P('v', 'number'),
                   {S: s, P('v', 'number'): n}, s, n)
        v = symbols('v', s)
        yield ('array for shape %s' % (s, ), S, P('v', 'ndarray'),
               {S: s, P('v', 'ndarray'): v}, s, v)
        yield ('array of shape %s, no shape' % (s, ), None,
               P('v', 'ndarray'), {P('v', 'ndarray'): v}, s, v)
        nest = nested(v)
        yield ('list for shape %s' % (s, ), S, P('v', 'list'),
               {S: s, P('v', 'list'): nest}, s, v)
        for t in SHAPES + ((3, 2), (6, ), (1, 4), (2, 2), (3, 1), (1, 3)):
            if t != s and s != (1, ):
                yield ('array of shape %s for shape %s' % (t, s), S,
                       P('v', 'ndarray'), {S: s, P('v', 'ndarray'):
                                           symbols('v', t)}, s, None)
    for s in ((12, ), (4, 3), (2, 2, 3)):
        v = symbols('v', s)
        for t, st, b in (('for', S, {S: s}), ('without', None, {})):
            yield ('array of shape %s %s shape' % (s, t), st, P(
                'v', 'ndarray'), {**b, P('v', 'ndarray'): v}, s, v)
    for s in SHAPES:
        yield ('no value for shape %s' % (s, ), S, None, {S: s}, s, 1)
    yield ('no value and no shape', None, None, {}, (1, ), 1)
    yield ('number, no shape', None, P('v', 'number'),
           {P('v', 'number'): 5}, (1, ), 5)


DV = P('dv', 'bool')
CREATE = ('declare_input', 'create_indep_var', 'create_output',
          'create_implicit_output')


def rule_attributes(ctx, rep):
    """Variables have the name, shape and value they were declared with."""
    for kind in CREATE:
        where = group_where(ctx, kind)
        if where is None:
            rep.und('declared-name-shape-value', kind, 'not found')
            continue
        made = {}
        und = {}
        bad = {}
        n = 0
        for text, st, vt, b, shape, val in value_cases():
            k = (st, vt)
            if k not in made:
                made[k] = Made(ctx, kind, st, vt, **(
                    {'dv': DV} if kind == 'create_indep_var' else {}))
            m = made[k]
            env = edge_env(b)
            dv = env[DV] = n % 2 == 0
            N_ = env[m.name] = 'x'
            r, loc = step_raises(m.step, env)
            if r is None:
                und.setdefault('accepted', 'conditions')
                continue
            if val is None:
                if not r:
                    bad.setdefault('accepted', '%s: accepted' % text)
                else:
                    n += 1
                continue
            if r or m.o is None:
                bad.setdefault('accepted', '%s: refused' % text)
                continue
            for a, want in (('name', N_), ('shape', shape),
                            ('val', filled(val, shape))) + ((
                                ('dv', dv), ) if kind == 'create_indep_var'
                                else ()):
                try:
                    got = m.attr(a, env)
                    if a == 'val':
                        ok = same_array(got, want)
                    elif a == 'shape':
                        ok = tuple(A.arr(got).data) == want
                    elif a == 'dv':
                        ok = bool(truthv(got)) is want
                    else:
                        ok = got == want
                except Unknown as e:
                    und.setdefault(a, str(e))
                    continue
                except Fails as e:
                    bad.setdefault(a, '%s: %s' % (text, e))
                    continue
                if ok:
                    n += 1
                else:
                    bad.setdefault(a, '%s: the %s of the variable is %s '
                                   'instead of %s' % (text, {
                                       'val': 'value'}.get(a, a), got, want))
        for a in ('accepted', 'name', 'shape', 'val', 'dv')[
                :5 if kind == 'create_indep_var' else 4]:
            inst = '%s %s' % (kind, a)
            if a in bad:
                rep.bad('declared-name-shape-value', where, inst, bad[a])
            elif a in und or not n:
                rep.und('declared-name-shape-value', inst,
                        und.get(a, 'no case'))
            else:
                rep.ok('declared-name-shape-value', inst)
        rep.notes['assignments'] = rep.notes.get('assignments', 0) + n
    # design variables
    where = group_where(ctx, 'create_indep_var')
    F = Facts(rep, 'declared-name-shape-value')
    m = Made(ctx, 'create_indep_var', None, None)
    F.expect('create_indep_var without dv', where,
             lambda: not truthv(m.attr('dv', edge_env({m.name: 'x'}))),
             'an independent variable is a design variable although it was '
             'not declared one')
    # a registered expression gets its name and is returned
    sc = Scene(ctx)
    e = sc.do(sc.h.new(ctx.world.variable, shape=P('s', 'shape'),
                       val=P('v', 'ndarray')))
    r = sc.h.call(sc.g, 'register_output', P('n', 'str'), e)
    where = group_where(ctx, 'register_output')
    F.expect('register_output name', where,
             lambda: ev(sc.h.pure(r, sc.h.attr(e, 'name').value),
                        {P('n', 'str'): 'x'}) == 'x',
             'a registered output does not have the name it was registered '
             'under')
    F.expect('register_output returns', where, lambda: r.value is e,
             'registering an output does not return the expression')


def rule_declared_values(ctx, rep):
    """The values that variables start from are those declared."""
    r = Report(rep.prop)
    rule_attributes(ctx, r)
    rule = 'declared-values'
    bad = {f.instance: f for f in r.findings}
    und = {u['instance']: u['why'] for u in r.undecided}
    for kind in CREATE:
        inst = kind + ' val'
        if inst in bad:
            rep.bad(rule, bad[inst].where, inst, bad[inst].msg)
        elif inst in und or kind in und:
            rep.und(rule, inst, und.get(inst, und.get(kind)))
        else:
            rep.ok(rule, inst)


def rule_indep_component(ctx, rep):
    """The component of an independent variable holds it."""
    rule = 'independent-variable-component'
    where = None
    cases = {}
    und = bad = None
    n = 0
    for text, st, vt, b, shape, val in value_cases():
        k = (st, vt)
        if k not in cases:
            m = Made(ctx, 'create_indep_var', st, vt)
            h = m.sc.h
            f = h.attr(m.o, 'build') if m.o is not None else None
            s = None
            if f is not None and f.value is not None:
                s = h.run(lambda: h.it.call_value(f.value, [], {}, h.st,
                                                  h.node))
            cases[k] = m, s
            where = where_of(m.sc, m.o, 'initialize') if m.o is not None \
                else where
        m, s = cases[k]
        env = edge_env(b)
        env[m.name] = 'x'
        if val is None or step_raises(m.step, env)[0] is not False:
            continue
        if s is None or s.value is None:
            und = und or 'no component'
            continue
        t = m.sc.h.pure(s)
        if t.op != 'call' or t.args[0] != 'openmdao.api.IndepVarComp':
            und = und or 'component %s' % t.op
            continue
        names = t.args[1].split(',') if isinstance(t.args[1], str) else []
        kw = dict(zip(names, t.args[2:]))
        try:
            if ev(kw['name'], env) != 'x':
                bad = bad or '%s: the component has an output of another ' \
                    'name' % text
                continue
            want = filled(val, shape)
            v = A.arr(ev(kw['val'], env)) if 'val' in kw else A.arr(1)
            sh = ev(kw['shape'], env) if 'shape' in kw else None
            if sh is not None:
                sh = tuple(A.arr(sh).data)
            if sh is not None and sh != shape or sh is None and \
                    v.shape != shape:
                bad = bad or '%s: the output of the component has another ' \
                    'shape' % text
                continue
            if v.shape != shape:
                v = A.fit(v, shape)
            if values_diff(v, want.data):
                bad = bad or '%s: the component holds another value' % text
                continue
            n += 1
        except (KeyError, Unknown) as e:
            und = und or str(e)
        except Fails as e:
            bad = bad or '%s: %s' % (text, e)
    if bad:
        rep.bad(rule, where, 'create_indep_var', bad)
    elif und or not n:
        rep.und(rule, 'create_indep_var', und or 'no case')
    else:
        rep.ok(rule, 'create_indep_var')


def rule_defined_component(ctx, rep):
    """An output defined by an expression has its value."""
    rule = 'defined-output-component'
    sc = Scene(ctx)
    S = P('sy', 'shape')
    y = sc.do(sc.h.call(sc.g, 'create_output', P('n', 'str'), shape=S,
                        val=P('vy', 'ndarray')))
    e = sc.do(sc.h.new(ctx.world.variable, shape=S, val=P('ve', 'ndarray')))
    sc.do(sc.h.call(y, 'define', e))
    where = where_of(sc, y, 'define')
    if sc.last().dead or y is None:
        rep.bad(rule, where, 'define', 'defining an output is refused')
        return
    insts = instances(sc, y, sc.last().state)
    res = {}
    for shape in SHAPES:
        env = edge_env({S: shape, P('n', 'str'): 'y'})
        env[P('vy', 'ndarray')] = symbols('vy', shape)
        env[P('ve', 'ndarray')] = symbols('ve', shape)
        yn = label(env, y, 'y', shape, False)
        en = label(env, e, 'e', shape)
        for o, v in ((y, 'vy'), (e, 've')):
            env[env[o], 'val'] = env[P(v, 'ndarray')]

        def note(k, f, msg):
            try:
                r = f()
            except Unknown as x:
                res.setdefault(k, [None, ''])
                if res[k][0] is not False:
                    res[k] = [None, str(x)]
                return
            except Fails as x:
                res[k] = [False, '%s (%s)' % (msg, x)]
                return
            if r:
                res.setdefault(k, [True, ''])
            else:
                res[k] = [False, msg]
        txt = 'for shape %s ' % (shape, )
        try:
            site = Part(ctx.world, pick(insts, env), env)
        except Unknown as x:
            rep.und(rule, 'define', str(x))
            return
        # the name of the output is a symbol of the call
        env[P('n', 'str')] = yn
        note('output', lambda: site.output_names() == [yn], txt +
             'the component of a defined output does not have that output')
        note('input', lambda: site.input_names() == [en], txt +
             'the component of a defined output does not read exactly the '
             'expression')
        note('computes', lambda: same_array(
            site.of(yn).forward(), env[(en.sym, 'value')]), txt +
            'a defined output is not the value of the expression')
        note('derivative', lambda: jac_diff(
            site.of(yn).jacobian(en),
            {(i, i): 1 for i in range(A.size(shape))}) is None, txt +
            'the derivative of a defined output is not the identity')
        for kind, nm, v in (('add_output', yn, 'vy'), ('add_input', en,
                                                       've')):
            def val():
                for d, x in site.decls(kind):
                    if site.arg(d, x, 'name') == nm:
                        g = A.arr(site.arg(d, x, 'val', 1))
                        sh = site.arg(d, x, 'shape')
                        sh = g.shape if sh is None else tuple(
                            A.arr(sh).data)
                        return sh == shape and same_array(
                            A.fit(g, shape), env[P(v, 'ndarray')])
                return False
            note(kind, val, txt + 'the %s does not have the shape and '
                 'initial value that were declared' % {
                     'add_output': 'defined output',
                     'add_input': 'expression'}[kind])
    for k, (r, msg) in sorted(res.items()):
        rep.verdict(r, rule, where, 'define ' + k, msg, msg)


def rule_subsystem(ctx, rep):
    """A subsystem keeps its name, system and promotions."""
    rule = 'subsystem-kept'
    w = ctx.world
    where = group_where(ctx, 'add_subsystem')
    F = Facts(rep, rule)
    PR = ('promotes', 'promotes_inputs', 'promotes_outputs')
    for given in itertools.product((False, True), repeat=3):
        sc = Scene(ctx)
        root = sc.h.attr(sc.g, '_root').value
        kw = {k: P(k, 'list') for k, g in zip(PR, given) if g}
        sys = P('sys', 'any')
        r = sc.do(sc.h.call(sc.g, 'add_subsystem', P('n', 'str'), sys,
                            **kw))
        inst = 'add_subsystem(%s)' % ', '.join(sorted(kw))
        try:
            d = objects(sequence(sc, root, 'dependencies'))
            sub = [t for t in sc.h.st.heap if t.op == 'obj' and
                   len(d) == 1 and obj(t) is d[0]]
            if len(sub) != 1:
                raise Unknown('subsystem')
        except Unknown as e:
            rep.und(rule, inst, str(e))
            continue
        sub = sub[0]

        def a(n):
            s = sc.h.attr(sub, n)
            if s.value is None:
                raise Unknown(n)
            return sc.h.pure(s, s.value)

        def keeps():
            for vals in itertools.product(((), ('a', 'b*')),
                                          repeat=len(kw)):
                env = edge_env({P('n', 'str'): 'x'})
                env.update({v: x for v, x in zip(kw.values(), vals)})
                if ev(a('name'), env) != 'x':
                    return False
                for k in PR:
                    want = env[kw[k]] if k in kw else ()
                    if (ev(a(k), env) or ()) != want:
                        return False
            return True
        F.expect(inst, where, keeps, 'a subsystem does not keep the name '
                 'and promotions it was given')
        if not kw:
            F.expect(inst + ' returns', where, lambda: r is sys,
                     'adding a subsystem does not return it')
            f = sc.h.attr(sub, 'build')

            def built():
                if f.value is None:
                    raise Unknown('build')
                s = sc.h.run(lambda: sc.h.it.call_value(
                    f.value, [], {}, sc.h.st, sc.h.node))
                if s.value is None:
                    raise Unknown('build')
                if s.value is sys:
                    return True
                if s.value.op in ('param', 'const'):
                    return False
                raise Unknown('build')
            F.expect(inst + ' builds', where, built, 'the subsystem that is '
                     'added to the model is not the one given')


def rule_created_group(ctx, rep):
    """create_group adds a new group, with everything promoted, and ends
    its definition when the with block is left."""
    rule = 'subsystem-kept'
    w = ctx.world
    F = Facts(rep, rule)
    for name in ('Group', 'ImplicitComponent'):
        cls = w.p.lookup(w.api, name)
        f = cls.find('create_group') if cls is not None else None
        if f is None:
            continue
        where = f.module.path, f.node.lineno
        sc = Scene(ctx)
        it = sc.h.it
        if name == 'Group':
            c = g = sc.g
        else:
            c = sc.h.new(cls).value
            g = sc.h.attr(c, 'group').value
        gcls = w.p.lookup(w.api, 'Group')
        setup = gcls.find('setup')
        it.run_generators = True
        it.watched = (setup.qual, ) if setup is not None else ()
        n = len(sc.h.st.effects)
        try:
            s = sc.h.call(c, 'create_group', P('n', 'str'))
        finally:
            it.run_generators, it.watched = False, ()
        effs = sc.h.st.effects[n:]
        inst = name + '.create_group'
        ys = [e for e in effs if e.kind == 'yield']
        try:
            if s.dead:
                raise Fails('refused')
            if any(e.loops or e.guard for e in ys):
                raise Unknown('conditional yield')
            if name == 'Group':
                if not ys:
                    raise Unknown('not a generator')
                if len(ys) > 1:
                    raise Fails('yields twice')
                child = ys[0].args[0]
            else:
                child = s.value
            child = it.simp(child, sc.h.st) if child is not None else None
            if child is None or child.op not in ('obj', 'param', 'const'):
                raise Unknown('child group')
            d = objects(sequence(sc, sc.h.attr(g, '_root').value,
                                 'dependencies'))
            sub = [t for t in sc.h.st.heap if t.op == 'obj' and
                   len(d) == 1 and obj(t) is d[0]]
            if len(d) > 1 or not d:
                raise Fails('%d subsystems are added' % len(d))
            if len(sub) != 1:
                raise Unknown('subsystem')
        except Unknown as e:
            rep.und(rule, inst, str(e))
            continue
        except Fails as e:
            rep.bad(rule, where, inst, 'the group that is created is not '
                    'added once (%s)' % e)
            continue
        sub = sub[0]
        F.expect(inst + ' is new', where, lambda: child.op == 'obj' and
                 child is not g and child is not c,
                 'what is created is not a new group')

        def a(t, n):
            x = sc.h.attr(t, n)
            if x.value is None:
                raise Unknown(n)
            return ev(sc.h.pure(x, x.value), edge_env({P('n', 'str'): 'x'}))
        F.expect(inst + ' name', where, lambda: a(sub, 'name') == 'x',
                 'the group does not get the name that was given')

        def promoted():
            p = a(sub, 'promotes') or ()
            both = [a(sub, k) or () for k in ('promotes_inputs',
                                              'promotes_outputs')]
            return '*' in p or all('*' in b for b in both)
        F.expect(inst + ' promotes', where, promoted,
                 'not every variable of the group is promoted')

        def built():
            b = sc.h.attr(sub, 'build')
            x = sc.h.run(lambda: it.call_value(
                b.value, [], {}, sc.h.st, sc.h.node))
            if x.value is None or x.value.op not in ('obj', 'param',
                                                     'const'):
                raise Unknown('build')
            return x.value is child
        F.expect(inst + ' builds', where, built, 'the subsystem of the '
                 'model is not the group the user gets')
        if name == 'Group' and setup is not None:
            done = [i for i, e in enumerate(effs) if e.kind == 'entered'
                    and e.args[1] is child]
            at = effs.index(ys[0])

            def ended():
                if any(effs[i].loops or effs[i].guard for i in done):
                    raise Unknown('conditional')
                return len(done) == 1 and done[0] > at
            F.expect(inst + ' ends', where, ended, 'the definition of the '
                     'group is not ended exactly once, after the with block')


def rule_separate(ctx, rep):
    """Groups share nothing they change."""
    rule = 'groups-separate'
    w = ctx.world
    for name in ('Group', ):
        cls = w.p.lookup(w.api, name)
        if cls is None:
            continue
        h = History(w)
        a, b = h.new(cls).value, h.new(cls).value
        where = group_where(ctx, '__init__')
        if a is None or b is None or a.op != 'obj' or a is b:
            rep.und(rule, name, 'not created')
            continue
        ha, hb = h.st.heap.get(a, {}), h.st.heap.get(b, {})
        for k in SHARED:
            if k not in ha or k not in hb:
                continue
            x, y = ha[k], hb[k]
            if x is y and x.op in ('cell', 'obj'):
                rep.bad(rule, where, '%s.%s' % (name, k), 'two groups share '
                        'one object: what is declared in one changes the '
                        'other')
            else:
                rep.ok(rule, '%s.%s' % (name, k))
        # attributes of the class that the constructor does not replace
        for k in SHARED:
            if k in ha:
                continue
            s = h.attr(a, k)
            if s.value is not None and s.value.op in ('cell', 'obj'):
                rep.bad(rule, where, '%s.%s' % (name, k), 'all groups share '
                        'one object')


    # expressions of one group
    for kind in ('create_output', 'create_indep_var', 'declare_input',
                 'create_implicit_output', None):
        sc = Scene(ctx)
        h = sc.h
        if kind is None:
            a, b = h.new(w.variable).value, h.new(w.variable).value
        else:
            a, b = [h.call(sc.g, kind, const(n)).value for n in 'ab']
        inst = kind or 'expression'
        if a is None or b is None or a.op != 'obj':
            rep.und(rule, inst, 'not created')
            continue
        if a is b:
            rep.bad(rule, group_where(ctx, kind), inst,
                    'two calls return one variable')
            continue
        for k in STATE:
            x, y = [h.st.heap.get(o, {}).get(k) for o in (a, b)]
            if x is None and y is None:
                x, y = [h.attr(o, k).value for o in (a, b)] if \
                    has_attr(h, a, k) else (None, None)
            if x is None or x.op not in ('cell', 'obj'):
                continue
            if x is y:
                rep.bad(rule, group_where(ctx, kind) if kind else
                        where_of(sc, a, '__init__'), '%s %s' % (inst, k),
                        'two variables share one object: what is done with '
                        'one changes the other')
            else:
                rep.ok(rule, '%s %s' % (inst, k))


def has_attr(h, o, k):
    c = h.it.obj_class.get(o)
    return c is not None and any(
        isinstance(b, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == k for t in b.targets) or
        isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and
        b.target.id == k for kl in c.mro() if hasattr(kl, 'node')
        for b in kl.node.body)


STATE = ('dependencies', 'dependents', '_tgt_indices', '_tgt_vals',
         'checked_indices', 'overlapping_indices', '_decomp',
         '_src_indices')
SHARED = ('nodes', '_root', 'res_out_map', 'out_vals', 'brackets_map',
          'sorted_builders', 'input_vals', '_most_recently_added_subsystem')

RULES30 = [rule_attributes, rule_indep_component, rule_defined_component,
           rule_subsystem, rule_created_group, rule_separate]
