"""C31: the work of building a model grows with the number of expressions.

Chains of expressions in which each one is used twice by the next are built
and set up abstractly.  A chain of n links has 3n + 1 expressions and 4n
edges, but 2^n paths.  The abstract run is exact on these graphs (every
branch is decided), so how often each function is entered, and how many
expressions are evaluated in it, is a number; the numbers for three lengths
tell growth with the expressions from growth with the paths."""
import ast
from .common import *
from ..history import History, wrapped
from ..om import Model
from ..program import AnalysisError, Class
from ..sites import P
from ..terms import mk, const
from .implicit import Elaborating

LENGTHS = (3, 4, 5)


def must(step, what):
    if step.dead or step.value is None:
        raise AnalysisError('%s does not return' % what)
    return step.value


def api_class(w, name):
    c = w.p.lookup(w.api, name)
    if not isinstance(c, Class):
        raise AnalysisError('omtools.api.%s not found' % name)
    return c


def wrapper(h, w, c, o):
    """Runs that setup on o; returns the step and where it is defined."""
    user, f, where = wrapped(h, w, c)
    return h.run(lambda: h.it.call_value(f, [o], {}, h.st, h.node)), where


class Counted(object):
    """One model of n links, built and set up."""

    def __init__(self, w, kind, n):
        self.w, self.kind = w, kind
        self.h = h = History(w)
        self.it = it = h.it
        self.entries = []
        self.undecided = None
        elab = w.el if hasattr(w, 'el') else w.elab
        with Elaborating(elab, Model()):
            saved = it.entries, it.turns, it.nested
            it.entries, it.turns, it.nested = self.entries, 2000, 40
            try:
                self.build(n)
                self.steps = it.steps
            finally:
                it.entries, it.turns, it.nested = saved
        self.per, self.places = {}, {}
        if any(e.kind == 'recursion' for e in self.h.st.effects):
            self.undecided = 'recursion'
        for f, branch, loops, loop in self.entries:
            if branch or loops:
                self.undecided = 'conditional calls of ' + f.qual
            k = f.qual, loop.lineno if loop is not None else None
            self.places[k] = f, loop
            self.per[k] = self.per.get(k, 0) + 1

    def link(self, name, deps):
        h = self.h
        x = must(h.new(self.w.variable), 'Variable')
        h.st.set(x, '_id', const('_' + name))
        h.st.set(x, 'name', const(name))
        h.st.set(x, 'shape', mk('tup', const(2)))
        h.st.set(x, 'build', P('build_' + name, 'callable'))
        for d in deps:
            must(h.call(x, 'add_dependency_node', d),
                      'add_dependency_node')
        return x

    def chain(self, x, n):
        for i in range(n):
            a = self.link('a%d' % i, [x])
            b = self.link('b%d' % i, [x])
            x = self.link('x%d' % i, [a, b])
        return x

    def build(self, n):
        h = self.h
        s = mk('tup', const(2))
        c = api_class(self.w, self.kind.split(',')[0])
        o = must(h.new(c), 'the constructor')
        explicit = self.kind.startswith('Group')
        g = o if explicit else must(h.attr(o, 'group'), 'group')
        a = 'create_indep_var' if self.kind.endswith('variable') else \
            'declare_input'
        x = must(h.call(g, a, const('x'), shape=s,
                             val=P('v', 'ndarray')), a)
        h.st.set(x, '_id', const('_x'))
        h.st.set(must(h.attr(g, '_root'), '_root'), '_id',
                 const('_root'))
        if self.kind.endswith('explicit output'):
            y = must(h.call(g, 'create_output', const('y'), shape=s,
                                 val=P('u', 'ndarray')), 'create_output')
            h.st.set(y, '_id', const('_y'))
            must(h.call(y, 'define', self.chain(x, n)), 'define')
        elif explicit:
            y = self.chain(x, n)
            must(h.call(g, 'register_output', const('y'), y),
                      'register_output')
        else:
            y = must(h.call(g, 'create_implicit_output', const('y'),
                                 shape=s, val=P('u', 'ndarray')),
                          'create_implicit_output')
            r = self.link('r', [self.chain(self.link('s', [x, y]), n)])
            a = {'ImplicitComponent': ('define_residual', {}),
                 'ImplicitComponent, bracketed': (
                     'define_residual_bracketed',
                     {'x1': const(0), 'x2': const(1)})}[self.kind]
            must(h.call(y, a[0], r, **a[1]), a[0])
        if wrapper(h, self.w, c, o)[0].dead:
            raise AnalysisError('setup does not return')

KINDS = ('Group', 'Group, independent variable', 'Group, explicit output',
         'ImplicitComponent', 'ImplicitComponent, bracketed')


def growth(c):
    """Whether the three counts double with each link."""
    d1, d2 = c[1] - c[0], c[2] - c[1]
    return d1 >= 4 and 10 * d2 >= 18 * d1


def rule_growth(ctx, rep):
    rule = 'visits-grow-with-expressions'
    w = ctx.world
    for kind in KINDS:
        runs = []
        try:
            for n in LENGTHS:
                runs.append(Counted(w, kind, n))
        except AnalysisError as e:
            rep.und(rule, kind, str(e))
            continue
        u = [r.undecided for r in runs if r.undecided]
        if u:
            rep.und(rule, kind, u[0])
            continue
        places = {}
        for r in runs:
            places.update(r.places)
        for k in sorted(places, key=str):
            f, loop = places[k]
            c = [r.per.get(k, 0) for r in runs]
            inst = '%s: %s' % (kind, f.qual.split('omtools.')[-1])
            if loop is not None:
                inst += ', loop'
            if growth(c):
                rep.bad(rule, (f.module.path, (loop or f.node).lineno), inst,
                        'in chains of %d, %d and %d expressions that are '
                        'used twice, %s %d, %d and %d times: the number '
                        'doubles with every expression' % (
                            LENGTHS + (
                                'a turn of the loop is made' if loop is not
                                None else 'it is called', ) + tuple(c)))
            else:
                rep.ok(rule, inst)


RULES = [rule_growth]
