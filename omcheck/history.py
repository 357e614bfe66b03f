"""Histories of calls on objects the library provides, evaluated abstractly:
the arguments are symbols, the conditions under which each call raises and
the state it leaves are formulas over them, and the formulas are compared
with a specification for every combination of a small set of values."""
import ast
from fractions import Fraction
from .terms import *
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval
from .interp import State, Activation, Dead, Budget
from .program import AnalysisError, Class, Func
from .sites import P


class Unknown(Exception):
    pass


class Raises(Exception):
    """Evaluating a condition itself raises (None > 3)."""


class Step(object):
    def __init__(self, pre, raises, events, value, state, dead):
        self.pre = pre            # facts before the step
        self.raises = raises      # [(facts, exception, where, loops)]
        self.events = events
        self.value = value
        self.state = state        # snapshot after the step
        self.dead = dead          # the call never returns

    def outcome(self, env):
        """'raise', [exception names] or 'return' for the values env; None
        when the step is not reached."""
        names = []
        for facts, name, where, loops in self.raises:
            try:
                if all(holds(f, env) for f in facts):
                    names.append((name, where))
            except Raises:
                names.append(('TypeError', where))
        if names:
            return 'raise', names
        return 'return', []


class History(object):
    def __init__(self, world, facts=()):
        self.w = world
        self.it = world.it
        self.it.steps = 0
        self.st = State()
        self.st.facts = tuple(facts)
        self.node = world.api.tree
        self.act = Activation(None, mk('frame', self.it.fresh()), world.api)
        self.st.heap[self.act.frame] = {}
        self.dead = False

    def run(self, fn):
        it = self.it
        pre = self.st.facts
        saved = it.raise_log, it.track
        it.raise_log, it.track = [], []
        it.stack.append(self.act)
        value, dead = None, False
        try:
            try:
                if self.dead:
                    raise Dead()
                value = fn()
                value = it.simp(value, self.st) if isinstance(
                    value, T) else value
            except Dead:
                dead = self.dead = True
            return Step(pre, list(it.raise_log), list(it.track), value,
                        it.snapshot(self.st), dead)
        finally:
            it.stack.pop()
            it.raise_log, it.track = saved

    def new(self, binding, *args, **kw):
        it = self.it
        return self.run(lambda: it.call_value(
            it.binding(binding, self.st), self.terms(args), kw, self.st,
            self.node))

    @staticmethod
    def terms(args):
        return [a if isinstance(a, T) else const(a) for a in args]

    def call(self, o, name, *args, **kw):
        it = self.it

        def go():
            f = it.getattr(o, name, self.st, self.node)
            return it.call_value(f, self.terms(args), kw, self.st,
                                 self.node)
        return self.run(go)

    def getitem(self, o, k):
        return self.run(lambda: self.it.getitem(o, k, self.st, self.node))

    def setitem(self, o, k, v):
        return self.run(lambda: self.it.setitem(o, k, v, self.st, self.node))

    def attr(self, o, name):
        return self.run(lambda: self.it.getattr(o, name, self.st,
                                                self.node))

    def fork(self):
        h = History.__new__(History)
        h.__dict__.update(self.__dict__)
        h.st = self.it.snapshot(self.st)
        return h

    def dict(self, **kw):
        a = []
        for k, v in kw.items():
            a += [const(k), v]
        return self.it.cell(self.st, 'dict', mk('dict', *a))

    def pure(self, step, v=None):
        return self.it.pure(step.state, step.value if v is None else v)


TYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'tuple':
         tuple, 'list': list, 'set': set, 'dict': dict, 'number': (
             int, float), 'builtins.type': type, 'type': type}


class Obj(object):
    """An object without structure, equal to itself only."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, Obj) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


def value(t, env):
    """Value of term t; env: term -> value."""
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == 'const':
        return a[0]
    if op == 'call' and a[0] == 'builtins.object':
        return Obj(str(t))
    if op == 'eq':
        return value(a[0], env) == value(a[1], env)
    if op == 'lt':
        x, y = value(a[0], env), value(a[1], env)
        try:
            return x < y
        except TypeError:
            raise Raises()
    if op == 'not':
        return not value(a[0], env)
    if op in ('and', 'or'):
        # unordered: an operand that decides the result guards the others
        late = None
        for x in a:
            try:
                v = bool(value(x, env))
            except Raises as e:
                late = e
                continue
            if v == (op == 'or'):
                return v
        if late is not None:
            raise late
        return op == 'and'
    if op == 'truth':
        return bool(value(a[0], env))
    if op == 'ite':
        return value(a[1] if value(a[0], env) else a[2], env)
    if op == 'in':
        x, c = value(a[0], env), value(a[1], env)
        try:
            return x in c
        except TypeError:
            raise Raises()
    if op == 'isinst':
        x = value(a[0], env)
        if isinstance(a[1], T):
            c = value(a[1], env)
        else:
            c = TYPES.get(a[1], TYPES.get(str(a[1]).split('.')[-1]))
            if c is None:
                if isinstance(x, Obj):
                    return x.name == a[1]
                if str(a[1]).split('.')[0] in ('numpy', 'openmdao',
                                               'omtools'):
                    return False
                raise Unknown(str(t)[:80])
        try:
            return isinstance(x, tuple(c) if isinstance(
                c, (list, set)) else c)
        except TypeError:
            raise Raises()
    if op == 'tup':
        return tuple(value(x, env) for x in a)
    if op == 'len':
        return len(value(a[0], env))
    if op in ('add', 'mul'):
        xs = [value(x, env) for x in a]
        r = xs[0]
        for x in xs[1:]:
            r = r + x if op == 'add' else r * x
        return r
    if op == 'neg':
        return -value(a[0], env)
    raise Unknown(str(t)[:80])


def holds(f, env):
    return bool(value(f[0], env)) == f[1]


def reached(facts, env):
    return all(holds(f, env) for f in facts)


def wrapped(h, w, c):
    """The setup the metaclass of class c puts around the user's: a symbol
    for the latter, the function, and where it is defined."""
    it = h.it
    user = P('user_setup', 'callable')
    meta = None
    for k in c.node.keywords:
        if k.arg == 'metaclass' and isinstance(k.value, ast.Name):
            meta = w.p.lookup(c.module, k.value.id)
    if not isinstance(meta, Class) or meta.find('__new__') is None:
        raise AnalysisError('metaclass not found')
    d = h.dict(setup=user)
    h.run(lambda: it.call_value(
        it.binding(meta.find('__new__'), h.st),
        [it.binding(meta, h.st), const('C'), mk('tup'), d], {}, h.st,
        h.node))
    f = h.getitem(d, const('setup'))
    if f.dead or f.value is None or f.value.op not in ('clo', 'bound'):
        raise AnalysisError('the wrapper of setup was not found')
    fn = it.funcs[f.value][0]
    return user, f.value, (fn.module.path, fn.node.lineno)


# functions of arrays whose result shares the numbers of its first argument
VIEWS = set(['numpy.' + n for n in (
    'ascontiguousarray', 'reshape', 'ravel', 'squeeze', 'expand_dims',
    'transpose', 'swapaxes', 'moveaxis', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'atleast_3d')])


OVERWRITTEN = ' overwritten'


def shares(v, t, new, depth=0):
    """The value of a place after array t has got the numbers of new."""
    if v is t:
        return new
    if not isinstance(v, T) or depth > 8 or not v.args:
        return v
    if v.op in ('tup', 'list', 'dict'):
        at = range(len(v.args))
    elif v.op == 'ite':
        at = (1, 2)
    elif v.op == 'call' and v.args[0] in VIEWS:
        at = (2, )
    else:
        return v
    a = list(v.args)
    for i in at:
        a[i] = shares(a[i], t, new, depth + 1)
    return v if a == list(v.args) else mk(v.op, *a)


def overwrite(h, env, t):
    """The user changes all numbers of array t: everything that refers to t
    sees the new ones."""
    new = P(t.args[0] + OVERWRITTEN, 'ndarray')
    old = env[t]
    env[new] = type(old)(old.shape, [Fraction(i * i + 3, i + 2) - x
                                     for i, x in enumerate(old.data)], 'f')
    env[mk('attr', new, 'shape')] = tuple(old.shape)
    h.st.heap[new] = dict(h.st.heap.get(t, {}))
    for o, d in h.st.heap.items():
        for k, v in d.items():
            x = shares(v, t, new)
            if x is not v:
                d[k] = x
    return new
