"""Value-graph construction by abstract interpretation of the source.

Statements are evaluated structurally over a symbolic store.  Control-flow
merges join the stores with gated selections (ite), loops over sequences whose
length is unknown are evaluated once with an index symbol and closed to maps,
sums, products or folds, calls to functions of the program are inlined, and
everything the interpreter does not understand becomes an opaque term, which no
rule ever reports on.  Nothing of the program is executed.
"""
import ast

from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, is_num,
                    opaque, subst, contains, subterms, key)
from . import smart as S
from .smart import (not_, and_, or_, ite, eq, lt, truth, item, slice_, add,
                    mul, sub, div, neg, assume, kind_of)
from .program import Class, Func, AnalysisError, Endless

UNDEF = mk('undef')
DELETED = mk('deleted')


class Dead(Exception):
    """No execution continues past this point."""


class Budget(Exception):
    pass


class Effect(object):
    __slots__ = ('kind', 'args', 'guard', 'loops', 'where', 'facts')

    def __init__(self, kind, args, guard, loops, where, facts=()):
        self.kind = kind
        self.args = args
        self.guard = guard
        self.loops = loops
        self.where = where
        self.facts = facts

    def __repr__(self):
        return 'Effect(%s,%r,guard=%r,loops=%r)' % (self.kind, self.args,
                                                    self.guard, self.loops)


class State(object):
    def __init__(self):
        self.heap = {}
        self.facts = ()
        self.branch = ()
        self.effects = []
        self.loops = ()
        self.epoch = 'call'

    def fork(self):
        s = State()
        s.heap = {o: dict(d) for o, d in self.heap.items()}
        s.facts = self.facts
        s.branch = self.branch
        s.effects = list(self.effects)
        s.loops = self.loops
        s.epoch = self.epoch
        return s

    def become(self, o):
        self.heap = o.heap
        self.facts = o.facts
        self.branch = o.branch
        self.effects = o.effects
        self.loops = o.loops
        self.epoch = o.epoch

    def get(self, o, k):
        d = self.heap.get(o)
        if d is None:
            return None
        return d.get(k)

    def set(self, o, k, v):
        self.heap.setdefault(o, {})[k] = v

    def add_branch(self, c, v):
        if c.op == 'const':
            return
        self.branch = self.branch + ((c, v), )
        self.facts = self.facts + ((c, v), )

    def add_fact(self, c, v):
        if c.op == 'const':
            return
        self.facts = self.facts + ((c, v), )


def _common(a, b):
    sb = set(b)
    return tuple(x for x in a if x in sb)


def join(c, s1, s2, base):
    """The state after 'if c' whose branches ended in s1 and s2; base is the
    state the branches were forked from."""
    s = State()
    s.epoch = base.epoch
    s.loops = base.loops
    s.branch = base.branch
    f1 = [x for x in s1.facts if x not in base.facts]
    f2 = [x for x in s2.facts if x not in base.facts]
    facts = list(base.facts)
    for x in f1:
        if x in f2:
            facts.append(x)
    # what each side learned besides the branch condition itself survives as
    # an implication
    for side, fs in ((True, f1), (False, f2)):
        for (t, v) in fs:
            if (t, v) in facts or t is c:
                continue
            guard = not_(c) if side else c
            imp = or_(guard, t if v else not_(t))
            if imp.op != 'const':
                facts.append((imp, True))
    s.facts = tuple(facts)
    heap = {}
    for o in list(s1.heap) + [o for o in s2.heap if o not in s1.heap]:
        d1, d2 = s1.heap.get(o), s2.heap.get(o)
        if d1 is None or d2 is None:
            if o in base.heap or o in SLOTS or o.op in ('param', 'item',
                                                             'attr'):
                d1, d2 = d1 or {}, d2 or {}
            else:
                heap[o] = dict(d1 if d2 is None else d2)
                continue
        d = {}
        for k in list(d1) + [k for k in d2 if k not in d1]:
            v1, v2 = d1.get(k), d2.get(k)
            if v1 is None or v2 is None:
                other = v1 if v2 is None else v2
                missing = missing_value(o, k)
                if v1 is None:
                    d[k] = ite(c, missing, other)
                else:
                    d[k] = ite(c, other, missing)
            elif v1 is v2:
                d[k] = v1
            else:
                d[k] = ite(c, v1, v2)
        heap[o] = d
    s.heap = heap
    n = len(base.effects)
    s.effects = (base.effects + s1.effects[n:] + s2.effects[n:])
    return s


def missing_value(o, k):
    if isinstance(k, str) and o.op in ('param', 'item', 'attr'):
        return mk('attr', o, k)
    if o in SLOTS:
        return mk('initial', o, k)
    return UNDEF


SLOTS = (mk('special', 'outputs'), mk('special', 'partials'))
ALIAS = mk('special', 'alias')


def is_problem(t):
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        while t.op in ('store', 'did') and t not in seen:
            seen.add(t)
            t = t.args[0]
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'ite':
            todo += t.args[1:]
        elif not a_problem(t):
            return False
    return True


def a_problem(t):
    return t.op == 'call' and str(t.args[0]).startswith('openmdao.') and \
        str(t.args[0]).endswith('.Problem')


def is_vector(t):
    return t.op == 'special' and t.args[0] in ('inputs', 'outputs',
                                               'partials')


def weaker(a, b):
    o = ('same', 'whole', 'part')
    return o[max(o.index(a), o.index(b))]


class Activation(object):
    """One inlined call."""

    def __init__(self, func, frame, module):
        self.func = func
        self.frame = frame
        self.module = module
        self.raises = []
        self.globals = set()
        self.places = []


# numpy signatures: parameter names in order, with defaults
SIGS = {
    'numpy.sum': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'numpy.prod': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'numpy.average': ('a', 'axis', 'weights', 'returned', 'keepdims'),
    'numpy.mean': ('a', 'axis', 'dtype', 'out', 'keepdims'),
    'numpy.max': ('a', 'axis', 'out', 'keepdims'),
    'numpy.min': ('a', 'axis', 'out', 'keepdims'),
    'numpy.amax': ('a', 'axis', 'out', 'keepdims'),
    'numpy.amin': ('a', 'axis', 'out', 'keepdims'),
    'numpy.any': ('a', 'axis'),
    'numpy.all': ('a', 'axis'),
    'numpy.ones': ('shape', 'dtype', 'order'),
    'numpy.zeros': ('shape', 'dtype', 'order'),
    'numpy.empty': ('shape', 'dtype', 'order'),
    'numpy.full': ('shape', 'fill_value', 'dtype', 'order'),
    'numpy.eye': ('N', 'M', 'k', 'dtype'),
    'numpy.arange': ('start', 'stop', 'step', 'dtype'),
    'numpy.reshape': ('a', 'shape', 'order'),
    'numpy.ravel': ('a', 'order'),
    'numpy.transpose': ('a', 'axes'),
    'numpy.repeat': ('a', 'repeats', 'axis'),
    'numpy.tile': ('A', 'reps'),
    'numpy.outer': ('a', 'b', 'out'),
    'numpy.dot': ('a', 'b', 'out'),
    'numpy.tensordot': ('a', 'b', 'axes'),
    'numpy.cross': ('a', 'b', 'axisa', 'axisb', 'axisc', 'axis'),
    'numpy.delete': ('arr', 'obj', 'axis'),
    'numpy.append': ('arr', 'values', 'axis'),
    'numpy.unravel_index': ('indices', 'shape', 'order'),
    'numpy.ravel_multi_index': ('multi_index', 'dims', 'mode', 'order'),
    'numpy.array': ('object', 'dtype'),
    'numpy.asarray': ('a', 'dtype', 'order'),
    'numpy.linalg.norm': ('x', 'ord', 'axis', 'keepdims'),
    'numpy.broadcast_to': ('array', 'shape'),
    'numpy.expand_dims': ('a', 'axis'),
    'numpy.squeeze': ('a', 'axis'),
    'numpy.take': ('a', 'indices', 'axis'),
    'numpy.swapaxes': ('a', 'axis1', 'axis2'),
    'numpy.moveaxis': ('a', 'source', 'destination'),
    'numpy.concatenate': ('arrays', 'axis'),
    'numpy.stack': ('arrays', 'axis'),
    'numpy.power': ('x1', 'x2'),
    'numpy.where': ('condition', 'x', 'y'),
    'numpy.copy': ('a', 'order'),
    'numpy.size': ('a', 'axis'),
    'numpy.shape': ('a', ),
    'numpy.full_like': ('a', 'fill_value', 'dtype'),
    'numpy.ones_like': ('a', 'dtype'),
    'numpy.zeros_like': ('a', 'dtype'),
}
DEFAULTS = {
    'axis': NONE, 'dtype': NONE, 'out': NONE, 'keepdims': FALSE,
    'order': const('C'), 'weights': NONE, 'returned': FALSE, 'axes': NONE,
    'mode': const('raise'), 'M': NONE, 'k': const(0),
}
ALIASES = {
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.mean': 'numpy.average', 'numpy.product': 'numpy.prod',
    'numpy.asarray': 'numpy.array', 'numpy.absolute': 'numpy.abs',
    'numpy.add': 'op.add', 'numpy.subtract': 'op.sub',
    'numpy.multiply': 'op.mul', 'numpy.divide': 'op.div',
    'numpy.true_divide': 'op.div', 'numpy.negative': 'op.neg',
    'numpy.power': 'op.pow', 'numpy.float_power': 'op.pow',
    'numpy.matmul': 'op.matmul', 'numpy.square': 'op.square',
    'numpy.reciprocal': 'op.recip',
    'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp',
    'math.log': 'numpy.log', 'math.sin': 'numpy.sin',
    'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan',
    'math.prod': 'numpy.prod', 'math.log10': 'numpy.log10',
    'numpy.acos': 'numpy.arccos', 'numpy.asin': 'numpy.arcsin',
    'numpy.atan': 'numpy.arctan', 'numpy.pow': 'op.pow',
    'numpy.less': 'op.lt', 'numpy.greater': 'op.gt', 'numpy.equal': 'op.eq',
    'numpy.less_equal': 'op.le', 'numpy.greater_equal': 'op.ge',
    'operator.add': 'op.add', 'operator.mul': 'op.mul',
    'operator.sub': 'op.sub', 'operator.truediv': 'op.div',
    'operator.neg': 'op.neg', 'operator.pow': 'op.pow',
    'operator.matmul': 'op.matmul',
    'numpy.float64': 'builtins.float', 'copy.deepcopy': 'copy.copy',
}
# methods of array-valued terms that are spelled as functions
METHODS = {
    'flatten': ('numpy.flatten', ('a', 'order')),
    'ravel': ('numpy.ravel', ('a', 'order')),
    'sum': ('numpy.sum', None), 'prod': ('numpy.prod', None),
    'mean': ('numpy.average', None), 'max': ('numpy.max', None),
    'min': ('numpy.min', None), 'dot': ('numpy.dot', None),
    'repeat': ('numpy.repeat', None), 'copy': ('numpy.copy', None),
    'any': ('numpy.any', None), 'all': ('numpy.all', None),
    'squeeze': ('numpy.squeeze', None), 'take': ('numpy.take', None),
    'swapaxes': ('numpy.swapaxes', None),
}
SIGS['numpy.flatten'] = ('a', 'order')


def call(fn, **kw):
    """A call term with named arguments, defaults dropped."""
    sig = SIGS.get(fn)
    names = [n for n in (sig or sorted(kw)) if n in kw]
    names += sorted(n for n in kw if n not in names)
    out = []
    for n in names:
        if n in DEFAULTS and kw[n] is DEFAULTS[n]:
            continue
        out.append(n)
    return mk('call', fn, ','.join(out), *[kw[n] for n in out])


def call_args(t):
    """{name: term} of a call term."""
    names = t.args[1].split(',') if t.args[1] else []
    return dict(zip(names, t.args[2:]))


def is_call(t, fn):
    return t.op == 'call' and t.args[0] == fn


PLAIN = {'float': 0.5, 'int': 1, 'bool': True, 'str': '', 'none': None,
         'list': [], 'tuple': (), 'dict': {}, 'set': set()}
ARRAY_NAMES = frozenset(('shape', 'size', 'dtype', 'ndim', 'T', 'flat', 'copy',
                         'astype', 'flatten', 'ravel', 'reshape', 'sum',
                         'min', 'max', 'mean', 'item', 'tolist', '__len__',
                         '__iter__', '__getitem__', '__array__'))
NODE_NAMES = frozenset(('name', 'val', 'build', 'dependencies', 'dependents',
                        'group', 'defined', 'add_dependency_node',
                        'times_visited', 'is_residual'))
IMMUTABLE = frozenset(('int', 'float', 'number', 'bool', 'str', 'none',
                       'Variable', 'vars', 'shape', 'tuple'))
INPLACE = frozenset(('numpy.copyto', 'numpy.put', 'numpy.fill_diagonal',
                     'numpy.place', 'numpy.putmask', 'numpy.add.at',
                     'numpy.subtract.at', 'numpy.multiply.at',
                     'numpy.random.shuffle', 'random.shuffle',
                     'numpy.put_along_axis'))


class Interp(object):
    cur_node = None

    MAX_STEPS = 400000

    def __init__(self, program):
        self.p = program
        self.funcs = {}        # clo id -> (Func, frame, cls)
        self.nid = 0
        self.stack = []
        self.visited = set()   # Func quals inlined
        self.steps = 0
        self.warnings = []
        self.modframes = {}
        self.result_places = {}
        self.obj_class = {}    # obj term -> Class / ext name
        self.obj_site = {}
        self.unknown_stmts = []
        self.handlers = {}     # callbacks of the component model
        self.while_loops = {}   # tag -> one turn of the loop
        self.while_init = {}    # value a while loop changes -> its first
        self.node_lists = ()    # attributes of theirs that hold lists
        self.node_class = None
        self.entries = None    # calls, in the order they are made
        self.valcache = {}
        self.inline_components = False
        self.arg_nodes = {}    # Call node -> Activation of the caller

    # ------------------------------------------------------------ helpers
    def fresh(self):
        self.nid += 1
        return self.nid

    def where(self, node):
        act = self.stack[-1] if self.stack else None
        m = act.module if act else None
        return (m.path if m else '?', getattr(node, 'lineno', 0))

    def eff(self, st, kind, args, node):
        st.effects.append(Effect(kind, args, st.branch, st.loops,
                                 self.where(node), st.facts))

    def alloc(self, st, cls, node):
        name = cls.qual if isinstance(cls, Class) else cls
        o = mk('obj', self.fresh(), name)
        st.heap[o] = {}
        self.obj_class[o] = cls
        self.obj_site[o] = self.where(node)
        return o

    def cell(self, st, kind, content):
        c = mk('cell', self.fresh(), kind)
        st.heap[c] = {'$': content}
        return c

    def set_cell(self, st, b, c):
        self.eff(st, 'cellmut', (b, ), self.cur_node)
        st.set(b, '$', c)

    def content(self, st, t):
        """One level of dereference of a list/dict/set cell."""
        if t.op == 'cell':
            v = st.get(t, '$')
            return v if v is not None else opaque('cell')
        return t

    def pure(self, st, t, depth=0):
        """t with every list/dict cell replaced by its contents."""
        if depth > 6:
            return t
        if t.op == 'cell':
            return self.pure(st, self.content(st, t), depth + 1)
        cells = [x for x in subterms(t) if x.op == 'cell']
        if not cells:
            return t
        m = {}
        for c in cells:
            m[c] = self.pure(st, self.content(st, c), depth + 1)
        return subst(t, m)

    def closure(self, func, frame, cls=None):
        c = mk('clo', self.fresh())
        self.funcs[c] = (func, frame, cls)
        return c

    def static_closure(self, func):
        k = id(func)
        c = self.valcache.get(k)
        if c is None:
            c = mk('clo', self.fresh())
            self.funcs[c] = (func, None, func.cls)
            self.valcache[k] = c
        return c

    def binding(self, b, st):
        """Term of a resolved program binding."""
        if isinstance(b, Class):
            return mk('cls', b.qual)
        if isinstance(b, Func):
            return self.static_closure(b)
        if isinstance(b, tuple):
            if b[0] == 'ext':
                return mk('ext', b[1])
            if b[0] == 'mod':
                return mk('mod', b[1])
            if b[0] == 'val':
                return self.module_value(b[1], b[2], st)
        return opaque('binding')

    def module_value(self, module, node, st):
        k = ('mv', id(node))
        v = self.valcache.get(k)
        if v is None:
            self.valcache[k] = opaque('recursive module value')
            act = Activation(None, mk('frame', self.fresh()), module)
            self.stack.append(act)
            try:
                v = self.eval(node, st)
            except Dead:
                v = opaque('module value raises')
            finally:
                self.stack.pop()
            if v.op == 'cell' or v.op == 'obj':
                # shared mutable module-level object
                pass
            self.valcache[k] = v
            self.modframes[v] = dict(st.heap.get(v, {}))
        elif v in self.modframes and v not in st.heap:
            st.heap[v] = dict(self.modframes[v])
        return v

    def cls_of(self, t):
        """Class of an object term (or of a parameter of kind Variable)."""
        c = self.obj_class.get(t)
        if c is not None:
            return c
        k = kind_of(t)
        if k == 'Variable':
            return self.variable_class
        if k is not None and k.startswith('cls:'):
            return self.p.classes.get(k[4:])
        if self.node_class is not None:
            return self.node_class(t)
        return None

    # ---------------------------------------------------------- functions
    def call_func(self, func, args, kwargs, st, node, frame=None,
                  selfterm=None, cls=None):
        """Inline a function of the program.  Returns the result term and
        leaves st as the joined state of all normal returns."""
        self.steps += 50
        if self.steps > self.MAX_STEPS:
            raise Budget()
        again = [a for a in self.stack if a.func is func]
        given = tuple(args) if selfterm is None else \
            (selfterm, ) + tuple(args)
        given_kw = tuple(v for _, v in sorted(kwargs.items()))
        deep = len(self.stack) > (120 if self.endless else 60)
        if again and not isinstance(func.node, ast.Lambda) and \
                not self.descends(again, given, kwargs) or deep:
            if self.endless and (deep or len(again) >= self.nested):
                raise Endless(func.qual, self.where(node),
                              bool(st.branch or st.loops))
            self.eff(st, 'recursion', (func.qual, ) + (
                () if selfterm is None else (selfterm, )) + tuple(args),
                     node)
            return opaque('recursion', func.qual)
        fr = mk('frame', self.fresh())
        st.heap[fr] = {}
        if frame is not None:
            st.heap[fr]['$parent'] = frame
        if selfterm is not None:
            args = [selfterm] + list(args)
        act = Activation(func, fr, func.module)
        act.given = given + given_kw
        act.cls = cls if cls is not None else func.cls
        act.self = args[0] if args else None
        self.visited.add(func.qual)
        self.stack.append(act)
        entry_branch, entry_facts = st.branch, st.facts
        try:
            if not self.bind(func.node.args, args, kwargs, st, fr, node):
                return opaque('arity', func.qual)
            caller = self.arg_nodes.pop(node, None)
            if caller is not None and not isinstance(func.node, ast.Lambda):
                self.link_args(node, 1 if selfterm is not None else 0,
                               func, fr, st, caller)
            if isinstance(func.node, ast.Lambda):
                return self.eval(func.node.body, st)
            if self.entries is not None:
                self.entries.append((func, st.branch, st.loops, None))
            if func.qual in self.watched:
                self.eff(st, 'entered', (func.qual, act.self), node)
            if _is_generator(func.node) and not self.run_generators:
                self.eff(st, 'generator', (func.qual, ), node)
                return opaque('generator', func.qual)
            outs = self.block(func.node.body, st)
        finally:
            self.stack.pop()
        rets = []
        for kind, s, v in outs:
            if kind in ('return', 'normal'):
                rets.append((s, v if kind == 'return' else NONE))
        self.report_raises(act, st)
        if isinstance(node, ast.Call) and self.stack:
            same_place = act.places and all(
                p == act.places[0] for p in act.places)
            self.result_places[node, self.stack[-1].frame] = \
                act.places[0] if same_place else None
        if not rets:
            raise Dead()
        res, s = self.merge_returns(rets, entry_branch, entry_facts, st)
        st.become(s)
        st.branch = entry_branch
        return res

    def descends(self, again, given, kwargs):
        """A recursive call on other objects of a known, finite graph."""
        given = given + tuple(v for _, v in sorted(kwargs.items()))
        return len(again) < self.nested and \
            all(a.op in ('obj', 'const', 'cell') for a in given) and \
            any(a.op == 'obj' for a in given) and \
            (self.endless or
             all(getattr(a, 'given', None) != given for a in again))

    def report_raises(self, act, st):
        if self.stack:
            self.stack[-1].raises.extend(act.raises)

    def merge_returns(self, rets, entry_branch, entry_facts, base):
        n = len(entry_branch)
        s, v = rets[-1]
        if len(rets) == 1:
            return v, s
        for s2, v2 in reversed(rets[:-1]):
            c = and_(*[x if b else not_(x) for x, b in s2.branch[n:]])
            b = base.fork()
            b.facts, b.branch = entry_facts, entry_branch
            b.effects = _common_prefix(s.effects, s2.effects)
            b.loops, b.epoch = s.loops, s.epoch
            v = ite(c, v2, v)
            s = join(c, s2, s, b)
        return v, s

    def bind(self, a, args, kwargs, st, fr, node):
        """Bind actual to formal parameters in frame fr."""
        env = st.heap[fr]
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [
            x.arg for x in a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        kwdef = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                 if d is not None}
        args = list(args)
        kwargs = dict(kwargs)
        # a starred argument of unknown length: *seq
        star = None
        for i, x in enumerate(args):
            if x.op == 'star':
                star = i
                break
        vararg = None
        if star is None:
            for n in pos:
                if args:
                    env[n] = args.pop(0)
            vararg = mk('tup', *args)
            if args and a.vararg is None:
                return False
        else:
            before = args[:star]
            seq = args[star].args[0]
            for n in pos:
                if before:
                    env[n] = before.pop(0)
            rest_names = [n for n in pos if n not in env
                          and n not in kwargs and n not in defaults]
            k = 0
            for n in pos:
                if n not in env and n not in kwargs and (
                        n in rest_names):
                    env[n] = item(seq, const(k))
                    k += 1
            if before:
                vararg = opaque('mixed star')
            elif k:
                vararg = slice_(seq, const(k), NONE, NONE)
            else:
                vararg = seq
            if args[star + 1:]:
                vararg = opaque('mixed star')
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                env[n] = kwargs.pop(n)
            elif n not in env:
                d = defaults.get(n, kwdef.get(n))
                if d is None:
                    if '**' in kwargs:
                        env[n] = item(kwargs['**'], const(n))
                    else:
                        return False
                else:
                    env[n] = self.eval(d, st)
        if a.vararg is not None:
            env[a.vararg.arg] = vararg
        if a.kwarg is not None:
            rest = kwargs.pop('**', None)
            kv = []
            for n, v in kwargs.items():
                kv += [const(n), v]
            d = mk('dict', *kv)
            if rest is not None:
                d = rest if not kv else mk('dictcat', rest, d)
            env[a.kwarg.arg] = self.cell(st, 'dict', d)
        elif kwargs and set(kwargs) != {'**'}:
            return False
        return True

    # --------------------------------------------------------- statements
    def block(self, stmts, st):
        """Evaluate statements; st is consumed.  Returns outcomes
        [(kind, state, value)], kind in normal return break continue."""
        outs = []
        cur = st
        for s in stmts:
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Budget()
            try:
                r = self.stmt(s, cur)
            except Dead:
                return outs
            nxt = None
            for kind, s2, v in r:
                if kind == 'normal':
                    nxt = s2
                else:
                    outs.append((kind, s2, v))
            if nxt is None:
                return outs
            cur = nxt
        outs.append(('normal', cur, None))
        return outs

    def stmt(self, s, st):
        self.cur_node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unknown_stmts.append((type(s).__name__, self.where(s)))
            for t in _stored_names(s):
                self.set_name(t, opaque('stmt', type(s).__name__), st)
            self.eff(st, 'unknown', (type(s).__name__, ), s)
            return [('normal', st, None)]
        return m(s, st)

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return [('normal', st, None)]

    def s_Pass(self, s, st):
        return [('normal', st, None)]

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                b = ('mod', a.name)
                n = a.asname
            else:
                n = a.name.split('.')[0]
                b = ('mod', n)
            self.set_name(n, self.binding(self.p._deref(b), st), st)
        return [('normal', st, None)]

    def s_ImportFrom(self, s, st):
        for a in s.names:
            b = self.p._deref(('from', s.module or '', a.name))
            self.set_name(a.asname or a.name, self.binding(b, st), st)
        return [('normal', st, None)]

    def s_Global(self, s, st):
        self.stack[-1].globals.update(s.names)
        return [('normal', st, None)]

    def s_Nonlocal(self, s, st):
        act = self.stack[-1]
        act.nonlocals = getattr(act, 'nonlocals', set()) | set(s.names)
        return [('normal', st, None)]

    def s_FunctionDef(self, s, st):
        f = Func(self.stack[-1].module, s)
        c = self.closure(f, self.stack[-1].frame)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st)
            c = self.call_value(dv, [c], {}, st, s)
        self.set_name(s.name, c, st)
        return [('normal', st, None)]

    def s_ClassDef(self, s, st):
        self.set_name(s.name, opaque('local class', s.name), st)
        return [('normal', st, None)]

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        act = self.stack[-1]
        pl = None
        if s.value is not None and v.op not in ('const', 'cell'):
            pl = self.place(s.value, st)
            if pl is not None:
                # a place that outlives the call
                pl = [(a, weaker(pl[1], m)) for a, m in self.chain(pl[0], st)
                      if a.args[0] is not act.frame]
                pl = pl[0] if pl else None
        act.places.append(pl)
        return [('return', st, v)]

    def s_Break(self, s, st):
        return [('break', st, None)]

    def s_Continue(self, s, st):
        return [('continue', st, None)]

    def s_Raise(self, s, st):
        name = '?'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            b = self.eval(e, st)
            if b.op not in ('ext', 'cls'):
                b = self.eval(s.exc, st)
            name = self.exception_name(b)
        self.note_raise(st, name, s)
        raise Dead()

    def exception_name(self, t):
        """Name of the built-in exception t is, or '?'."""
        if t.op == 'ext':
            return t.args[0].split('.')[-1]
        if t.op == 'call' and isinstance(t.args[0], str):
            return t.args[0].split('.')[-1]
        if t.op == 'ite':
            a, b = [self.exception_name(x) for x in t.args[1:]]
            return a if a == b else '?'
        c = self.p.classes.get(t.args[0]) if t.op == 'cls' else \
            self.cls_of(t)
        if isinstance(c, Class):
            for x in c.mro():
                if isinstance(x, tuple):
                    return x[1].split('.')[-1]
        return '?'

    def note_raise(self, st, name, node):
        self.stack[-1].raises.append(
            (st.facts, name, self.where(node), st.loops))
        self.eff(st, 'raise', (name, ), node)
        self.raise_log.append((st.facts, name, self.where(node), st.loops))
        if self.track is not None:
            self.track.append(('raise', st.facts, name, self.where(node),
                               self.snapshot(st)))

    # Histories of calls on an object are evaluated with the exceptions of
    # its dictionaries and the handlers that catch them (self.track is a
    # list of the events with the state they happen in).
    track = None

    def snapshot(self, st):
        s = st.fork()
        s.heap = {o: dict(d) for o, d in st.heap.items()}
        return s

    def need_key(self, st, d, k, node):
        h = dict_has(d, k)
        if h is None or h is TRUE:
            return
        h = S.assume(h, st.facts)
        if h is TRUE:
            return
        if h is FALSE:
            self.note_raise(st, 'KeyError', node)
            raise Dead()
        s = st.fork()
        s.add_branch(h, False)
        self.note_raise(s, 'KeyError', node)
        st.add_fact(h, True)

    def caught_by(self, h, name, st):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        up = {'KeyError': ('LookupError', 'Exception', 'BaseException'),
              'IndexError': ('LookupError', 'Exception', 'BaseException')}
        for t in ts:
            v = self.eval(t, st)
            n = v.args[0].split('.')[-1] if v.op in ('ext', 'cls') else None
            if n == name or n in up.get(name, ('Exception',
                                               'BaseException')):
                return True
        return False

    def tracked_try(self, s, st):
        """A try statement whose exceptions are the ones the evaluation of
        its body recorded."""
        n0, n1, n2 = len(self.raise_log), len(self.track), len(
            self.stack[-1].raises)
        outs = self.block(s.body, st.fork())
        res = [o for o in outs if o[0] != 'normal']
        normal = [o for o in outs if o[0] == 'normal']
        logged = self.raise_log[n0:]
        events = [e for e in self.track[n1:] if e[0] == 'raise']
        taken = set()
        for h in s.handlers:
            mine = [i for i, e in enumerate(logged) if i not in taken and
                    self.caught_by(h, e[1], st)]
            taken.update(mine)
            for i in mine:
                s2 = events[i][4] if len(events) == len(logged) else \
                    st.fork()
                s2 = s2.fork()
                s2.facts, s2.branch = logged[i][0], st.branch + tuple(
                    x for x in logged[i][0] if x not in st.facts)
                if h.name:
                    self.set_name(h.name, opaque('exception'), s2)
                for k, s3, v in self.block(h.body, s2):
                    if k != 'normal':
                        res.append((k, s3, v))
                    else:
                        c = and_(*[x if v2 else not_(x)
                                   for x, v2 in s3.facts
                                   if (x, v2) not in st.facts])
                        normal = [('normal', join(c, s3, normal[0][1], st),
                                   None)] if normal else [(k, s3, v)]
        keep = [e for i, e in enumerate(logged) if i not in taken]
        self.raise_log[n0:n0 + len(logged)] = keep
        if len(events) == len(logged):
            gone = set(id(events[i]) for i in taken)
            self.track[n1:] = [e for e in self.track[n1:]
                               if id(e) not in gone]
        if normal and s.orelse:
            oo = self.block(s.orelse, normal[0][1])
            normal = [o for o in oo if o[0] == 'normal']
            res.extend(o for o in oo if o[0] != 'normal')
        if s.finalbody:
            full = []
            for k, s3, v in normal + res:
                for k2, s4, v2 in self.block(s.finalbody, s3):
                    full.append((k, s4, v) if k2 == 'normal'
                                else (k2, s4, v2))
            return full
        return res + normal

    raise_log = ()
    nested = 8              # nested calls of a function on other objects
    endless = False         # whether more of them raise Endless
    turns = 0               # turns of a while loop that are followed
    watched = ()            # functions whose calls are recorded
    run_generators = False  # follow a generator from start to end

    def s_Assert(self, s, st):
        c = self.cond(self.eval(s.test, st), st)
        if c is FALSE:
            self.note_raise(st, 'AssertionError', s)
            raise Dead()
        if c is not TRUE:
            s2 = st.fork()
            s2.add_branch(c, False)
            self.note_raise(s2, 'AssertionError', s)
            st.add_fact(c, True)
        return [('normal', st, None)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_name(t.id, DELETED, st)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval_index(t.slice, st)
                self.eff(st, 'delitem', (b, k), s)
                if b.op == 'cell':
                    if self.track is not None:
                        self.need_key(st, self.content(st, b), k, s)
                    c = self.content(st, b)
                    if b.args[1] == 'list':
                        if c.op == 'tup' and is_const(k) and isinstance(
                                cval(k), int) and -len(c.args) <= cval(
                                    k) < len(c.args):
                            a = list(c.args)
                            del a[cval(k)]
                            self.set_cell(st, b, mk('tup', *a))
                        else:
                            self.set_cell(st, b, mk('lrest', c, self.pure(
                                st, k)))
                    else:
                        self.set_cell(st, b, ddel(c, k))
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                st.set(b, t.attr, DELETED)
        return [('normal', st, None)]

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        pl = None
        if v.op != 'const' and v.op != 'cell' and kind_of(v) not in (
                'str', 'int', 'float', 'bool', 'Variable', 'tuple'):
            pl = self.place(s.value, st)
        for n, t in enumerate(s.targets):
            self.assign(t, v, st, s)
            if isinstance(t, ast.Name):
                me = mk('pl', self.stack[-1].frame, t.id)
                self.unlink(me, st)
                if pl is not None:
                    self.link(me, pl[0], pl[1], st)
            elif isinstance(t, ast.Attribute) and pl is not None:
                me = self.place(t, st)
                if me is not None:
                    self.unlink(me[0], st)
                    self.link(me[0], pl[0], pl[1], st)
        return [('normal', st, None)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return [('normal', st, None)]

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.get_name(t.id, st)
            v = self.eval(s.value, st)
            new = self.aug(cur, s.op, v, st, s)
            me = mk('pl', self.stack[-1].frame, t.id)
            if self.links(st) and cur.op not in ('cell', 'const') and \
                    kind_of(cur) not in ('int', 'float', 'number', 'str',
                                         'tuple'):
                fr = self.find_frame(t.id, st)
                me = mk('pl', fr, t.id) if fr is not None else me
                self.write_place((me, 'same'), new, st, s, None)
            self.set_name(t.id, new, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            cur = self.getattr(b, t.attr, st, t)
            v = self.eval(s.value, st)
            self.setattr(b, t.attr, self.aug(cur, s.op, v, st, s), st, s)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            cur = self.getitem(b, k, st, t)
            v = self.eval(s.value, st)
            new = self.binop(s.op, cur, v, st, s)
            self.setitem(b, k, new, st, s, target=t.value, aug=True)
        return [('normal', st, None)]

    def aug(self, cur, op, v, st, node):
        if cur.op == 'cell':
            if isinstance(op, ast.Add):
                self.list_extend(cur, v, st)
                return cur
            return self.binop(op, self.pure(st, cur), v, st, node)
        if self.aliased(cur):
            self.eff(st, 'mutate', (cur, 'in-place operator'), node)
        return self.binop(op, cur, v, st, node)

    def aliased(self, t):
        """t may be the very object held by an option, an input vector or an
        operand (so that an in-place operation changes that object)."""
        if t.op in ('param', ):
            return kind_of(t) not in IMMUTABLE
        if t.op in ('attr', 'late', 'input'):
            if kind_of(t) in ('tuple', 'str', 'int'):
                return False
            return True
        if t.op in ('item', 'slice'):
            if kind_of(t) in ('tuple', 'str', 'int', 'number', 'Variable'):
                return False
            return self.aliased(t.args[0])
        if t.op == 'ite':
            return self.aliased(t.args[1]) or self.aliased(t.args[2])
        if t.op == 'call' and t.args[0] in (
                'numpy.reshape', 'numpy.ravel', 'numpy.transpose',
                'numpy.squeeze', 'numpy.broadcast_to', 'numpy.asarray',
                'numpy.expand_dims', 'numpy.swapaxes', 'numpy.moveaxis',
                'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.diagonal',
                'numpy.asfarray', 'numpy.ascontiguousarray',
                'numpy.asanyarray'):
            return self.aliased(t.args[2])
        return False

    def s_If(self, s, st):
        c = self.cond(self.eval(s.test, st), st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        a, b = st.fork(), st.fork()
        a.add_branch(c, True)
        b.add_branch(c, False)
        oa = self.block(s.body, a)
        ob = self.block(s.orelse, b)
        return self.merge_if(c, oa, ob, st)

    def merge_if(self, c, oa, ob, st):
        outs = []
        na = [x for x in oa if x[0] == 'normal']
        nb = [x for x in ob if x[0] == 'normal']
        others = [x for x in oa if x[0] != 'normal'] + [
            x for x in ob if x[0] != 'normal']
        outs.extend(others)
        if na and nb:
            s1, s2 = na[0][1], nb[0][1]
            s = join(c, s1, s2, st)
            # conditions under which the merge is reached at all
            ga = s1.branch[len(st.branch) + 1:]
            gb = s2.branch[len(st.branch) + 1:]
            if ga or gb:
                g = or_(and_(c, *[x if v else not_(x) for x, v in ga]),
                        and_(not_(c), *[x if v else not_(x)
                                        for x, v in gb]))
                if g.op != 'const':
                    s.branch = st.branch + ((g, True), )
                    s.facts = s.facts + ((g, True), )
            outs.append(('normal', s, None))
        elif na or nb:
            s = (na or nb)[0][1]
            other = ob if na else oa
            if not [x for x in other if x[0] != 'normal']:
                # the other edge only raises: a fact, not a branch
                extra = s.branch[len(st.branch) + 1:]
                s.branch = st.branch + extra
            outs.append(('normal', s, None))
        return outs

    def s_With(self, s, st):
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, mk('enter', v), st, s)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        self.eff(st, 'try', (), s)
        if self.track is not None:
            return self.tracked_try(s, st)
        outs = self.block(s.body, st.fork())
        res = []
        normal = [o for o in outs if o[0] == 'normal']
        res.extend(o for o in outs if o[0] != 'normal')
        alts = []
        for h in s.handlers:
            s2 = st.fork()
            c = mk('caught', self.fresh())
            s2.add_branch(c, True)
            if h.name:
                self.set_name(h.name, opaque('exception'), s2)
            for n in _stored_in(s.body):
                self.set_name(n, opaque('try', n), s2)
            alts.append((c, self.block(h.body, s2)))
        for c, ho in alts:
            hn = [o for o in ho if o[0] == 'normal']
            res.extend(o for o in ho if o[0] != 'normal')
            if hn:
                if normal:
                    normal = [('normal', join(c, hn[0][1], normal[0][1], st),
                               None)]
                else:
                    normal = hn
        if normal and s.orelse:
            oo = self.block(s.orelse, normal[0][1])
            normal = [o for o in oo if o[0] == 'normal']
            res.extend(o for o in oo if o[0] != 'normal')
        if s.finalbody:
            if normal:
                oo = self.block(s.finalbody, normal[0][1])
                normal = [o for o in oo if o[0] == 'normal']
                res.extend(o for o in oo if o[0] != 'normal')
            res2 = []
            for o in res:
                oo = self.block(s.finalbody, o[1])
                for k, s3, v in oo:
                    if k == 'normal':
                        res2.append((o[0], s3, o[2]))
                    else:
                        res2.append((k, s3, v))
            res = res2
        return res + normal

    # -------------------------------------------------------------- loops
    def turn(self, s, st):
        if self.entries is not None and self.stack:
            f = self.stack[-1].func
            if f is not None:
                self.entries.append((f, st.branch, st.loops, s))

    def s_While(self, s, st):
        for _ in range(self.turns):
            # known conditions: turn by turn
            s1 = st.fork()
            try:
                c = self.cond(self.eval(s.test, s1), s1)
            except Dead:
                break
            if c is FALSE:
                return self.block(s.orelse, s1) if s.orelse else [
                    ('normal', s1, None)]
            if c is not TRUE:
                break
            self.turn(s, s1)
            outs = self.block(s.body, s1)
            if len(outs) != 1:
                break
            kind, s1, v = outs[0]
            if kind not in ('normal', 'continue'):
                return [('normal' if kind == 'break' else kind, s1, v)]
            st = s1
        # unknown trip count: everything the body writes becomes opaque
        s1 = st.fork()
        tag = self.fresh()
        try:
            s0 = s1.fork()
            c0 = self.cond(self.eval(s.test, s0), s0)
        except Dead:
            c0 = opaque('while')
        if c0 is FALSE:
            return [('normal', st, None)]
        written = self.written(s.body, st)
        slots = []
        for (o, k) in written:
            q = opaque('while', tag, key(o), str(k))
            self.while_init[q] = st.get(o, k), o
            slots.append((q, o, k, st.get(o, k)))
            st.set(o, k, q)
        loop = self.while_loops[tag] = dict(
            first=c0, slots=slots, test=None, steps=[])
        s2 = st.fork()
        s2.loops = s2.loops + ((mk('whiledom', tag), mk('whileidx', tag)), )
        try:
            c = self.cond(self.eval(s.test, s2), s2)
            loop['test'] = c
            if c is not TRUE:
                s2.add_branch(c, True)
            nb = len(s2.branch)
            outs = self.block(s.body, s2)
            # one turn of the loop: (how it ends, condition, new values)
            for kind, s3, v in outs:
                loop['steps'].append((
                    kind, and_(*[x if b else not_(x)
                                 for x, b in s3.branch[nb:]]),
                    {q: s3.get(o, k) for q, o, k, _ in slots}))
        except Dead:
            outs = []
        n = len(st.effects)
        seen = set()
        for kind, s3, v in outs:
            for e in s3.effects[n:]:
                if id(e) not in seen:
                    seen.add(id(e))
                    st.effects.append(e)
        res = [('normal', st, None)]
        for kind, s3, v in outs:
            if kind == 'return':
                s4 = st.fork()
                g = opaque('whilereturn', tag)
                s4.add_branch(g, True)
                res.append(('return', s4, v))
        return res

    def written(self, body, st):
        """Store slots of existing objects that one evaluation of body
        changes."""
        s1 = st.fork()
        s1.effects = []
        saved = self.raise_log
        self.raise_log = []
        try:
            outs = self.block(body, s1)
        except Dead:
            outs = []
        self.raise_log = saved
        w = []
        for kind, s2, v in outs:
            for o, d in s2.heap.items():
                base = st.heap.get(o)
                if base is None:
                    continue
                for k, v2 in d.items():
                    if base.get(k) is not v2 and (o, k) not in w:
                        w.append((o, k))
            # objects that had no overlay before
            for o, d in s2.heap.items():
                if o not in st.heap and o.op in ('param', 'attr', 'item'):
                    for k in d:
                        if (o, k) not in w:
                            w.append((o, k))
        return w

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        seq = self.iterate(it, st)
        if isinstance(seq, list):
            outs = []
            cur = st
            broken = []
            for e in seq:
                self.assign(s.target, e, cur, s)
                self.turn(s, cur)
                try:
                    r = self.block(s.body, cur)
                except Dead:
                    return outs
                cur = None
                for kind, s2, v in r:
                    if kind in ('normal', 'continue'):
                        if cur is None:
                            cur = s2
                        else:
                            cur = self.merge_states(s2, cur, st)
                    elif kind == 'break':
                        broken.append(s2)
                    else:
                        outs.append((kind, s2, v))
                if cur is None:
                    break
            if cur is not None and s.orelse:
                r = self.block(s.orelse, cur)
                cur = None
                for kind, s2, v in r:
                    if kind == 'normal':
                        cur = s2
                    else:
                        outs.append((kind, s2, v))
            for b in broken:
                cur = b if cur is None else self.merge_states(b, cur, st)
            if cur is not None:
                cur.branch = cur.branch if not broken else st.branch
                outs.append(('normal', cur, None))
            return outs
        return self.symbolic_for(s, st, seq)

    def merge_states(self, a, b, base):
        n = 0
        while n < len(a.branch) and n < len(b.branch) and \
                a.branch[n] == b.branch[n]:
            n += 1
        c = and_(*[x if v else not_(x) for x, v in a.branch[n:]])
        bs = base.fork()
        bs.branch = a.branch[:n]
        bs.facts = _common(a.facts, b.facts)
        bs.effects = _common_prefix(a.effects, b.effects)
        bs.loops = a.loops
        bs.epoch = a.epoch
        if c.op == 'const':
            return a
        return join(c, a, b, bs)

    def symbolic_for(self, s, st, seq):
        dom, idx, elem = seq
        def run(s0):
            s0.loops = s0.loops + ((dom, idx), )
            self.assign(s.target, elem, s0, s)
            return self.block(s.body, s0)
        # discover the written slots; a slot whose key depends on the index
        # symbol stands for a family of slots, one for each iteration
        written = []
        family = []
        for _ in range(4):
            probe = st.fork()
            for (o, k) in written:
                self.set_carry(probe, st, o, k, idx)
            probe.effects = []
            saved = self.raise_log
            self.raise_log = []
            try:
                outs = run(probe)
            except Dead:
                outs = []
            self.raise_log = saved
            more = []
            for kind, s2, v in outs:
                for o, d in s2.heap.items():
                    base = st.heap.get(o)
                    if base is None:
                        if o.op in ('param', 'attr', 'item', 'opts') and \
                                not contains(o, lambda x: x is idx):
                            base = {}
                        else:
                            continue
                    for k, v2 in d.items():
                        if (o, k) in written or (o, k) in more:
                            continue
                        if isinstance(k, T) and contains(
                                k, lambda x: x is idx):
                            if (o, k) not in family:
                                family.append((o, k))
                            continue
                        if base.get(k) is not v2:
                            more.append((o, k))
            if not more:
                break
            written += more
        body = st.fork()
        for (o, k) in written:
            self.set_carry(body, st, o, k, idx)
        neff = len(body.effects)
        nraise = len(self.stack[-1].raises)
        try:
            outs = run(body)
        except Dead:
            outs = []
        ends = [x for x in outs if x[0] in ('normal', 'continue')]
        breaks = [x for x in outs if x[0] == 'break']
        rets = [x for x in outs if x[0] == 'return']
        res = []
        end = None
        for kind, s2, v in ends:
            end = s2 if end is None else self.merge_states(s2, end, body)
        entry_n = len(st.branch)
        for kind, s2, v in rets:
            g = and_(*[x if b else not_(x) for x, b in s2.branch[entry_n:]])
            s3 = st.fork()
            s3.effects = st.effects + s2.effects[neff:]
            for (o, k) in written:
                s3.set(o, k, opaque('loopreturn', key(o), str(k), idx))
            cond = exists(dom, idx, g)
            s3.add_branch(cond, True)
            res.append(('return', s3, mk('firstwhere', v, g, dom, idx)))
            st.add_branch(cond, False)
        if end is None and not breaks:
            # every iteration leaves the loop: only the empty sequence falls
            # through
            if rets:
                return res
            raise Dead()
        if end is not None:
            st.effects = st.effects + end.effects[neff:]
            # facts the iterations establish by raising otherwise
            for (c, v) in end.facts:
                if (c, v) in body.facts:
                    continue
                if (c, v) in end.branch:
                    continue
                st.facts = st.facts + ((forall(dom, idx,
                                               c if v else not_(c)), True), )
        for (o, k) in written:
            init = st.get(o, k)
            if init is None:
                init = missing_value(o, k)
            if breaks:
                # value at exit unknown
                vals = [e.get(o, k) for e in
                        ([end] if end else []) + [b[1] for b in breaks]]
                c = carry(idx, o, k)
                if all(v is c or v is None for v in vals):
                    st.set(o, k, init)
                else:
                    st.set(o, k, opaque('break', idx, key(o), str(k),
                                        *[v for v in vals if v is not None]))
                continue
            v = end.get(o, k)
            if v is None:
                v = missing_value(o, k)
            if init.op == 'cell' and v.op == 'cell' and \
                    init.args[1] == v.args[1]:
                ct = self.close(self.content(end, v), carry(idx, o, k),
                                self.content(st, init), dom, idx, st)
                st.set(o, k, self.cell(st, init.args[1], ct))
                continue
            cs = cell_leaves(v) if init.op in ('cell', 'ite') else None
            ci = cell_leaves(init) if cs else None
            if ci and len(set(x.args[1] for x in cs + ci)) == 1:
                ct = self.close(self.pure(end, v), carry(idx, o, k),
                                self.pure(st, init), dom, idx, st)
                st.set(o, k, self.cell(st, cs[0].args[1], ct))
                continue
            st.set(o, k, self.close(v, carry(idx, o, k), init, dom, idx, st))
        for (o, k) in family:
            vals = [e.get(o, k) for e in
                    ([end] if end else []) + [b[1] for b in breaks]]
            vals = [v for v in vals if v is not None]
            if len(set(vals)) == 1 and not breaks and not contains(
                    vals[0], lambda x: x.op == 'carry' and x.args[0] is idx):
                st.set(o, k, vals[0])
            elif vals:
                st.set(o, k, opaque('family', idx, *vals))
        # objects allocated by the body stay reachable
        src = end if end is not None else breaks[0][1]
        for o, d in src.heap.items():
            if o not in st.heap:
                st.heap[o] = dict(d)
        if breaks:
            for b in breaks:
                for e in b[1].effects[neff:]:
                    if e not in st.effects:
                        st.effects.append(e)
        if s.orelse and not breaks:
            return res + self.block(s.orelse, st)
        if s.orelse:
            for n in _stored_in(s.orelse):
                self.set_name(n, opaque('forelse', n), st)
        return res + [('normal', st, None)]

    def set_carry(self, s, st, o, k, idx):
        """Give slot (o, k) the value it has at the start of an unspecified
        iteration."""
        init = st.get(o, k)
        c = carry(idx, o, k)
        if init is not None and init.op == 'cell':
            s.set(o, k, self.cell(s, init.args[1], c))
        else:
            s.set(o, k, c)

    def close(self, v, c, init, dom, idx, st):
        if v is c:
            return init
        has_c = contains(v, lambda x: x is c)
        other = contains(v, lambda x: x.op == 'carry' and x is not c
                         and x.args[0] is idx)
        if other:
            return opaque('mutual', idx, v)
        if not has_c:
            return last_of(v, dom, idx)
        if v.op == 'dedup':
            # adding to a duplicate-free list keeps it duplicate-free
            x = strip_dedup(v, c)
            if x is not None and x is not v:
                r = self.close(x, c, init, dom, idx, st)
                if r.op not in ('opaque', 'fold'):
                    return mk('dedup', r)
        if v.op == 'ite':
            cond, a, b = v.args
            if not contains(cond, lambda x: x is c):
                for flag, x, y in ((True, a, b), (False, b, a)):
                    if y is c:
                        g = cond if flag else not_(cond)
                        if x.op == 'cat' and x.args[0] is c:
                            return mk('cat', init, mk(
                                'fmap', x.args[1], g, dom, idx))
            x = guarded_append(v, c)
            if x is not None and x[0] is not None:
                r = mk('cat', init, mk('fmap', x[0], x[1], dom, idx))
                return mk('dedup', r) if contains(
                    v, lambda y: y.op == 'dedup') else r
        if v.op == 'cat' and v.args[0] is c and not contains(
                v.args[1], lambda x: x is c):
            e = v.args[1]
            if e.op == 'tup' and len(e.args) == 1:
                m = mk('map', e.args[0], dom, idx)
                return seqcat(init, m)
            return mk('cat', init, mk('flatmap', e, dom, idx))
        e = linear(v, c)
        if e is not None:
            if kind_of(init) == 'str' or kind_of(e) == 'str':
                return mk('add', init, mk('joinmap', e, dom, idx))
            if kind_of(init) == 'tuple' or e.op == 'tup':
                if e.op == 'tup' and len(e.args) == 1:
                    return seqcat(init, mk('map', e.args[0], dom, idx))
                return mk('cat', init, mk('flatmap', e, dom, idx))
            return add(init, mk('sumf', e, dom, idx))
        if v.op == 'mul':
            a, b = v.args
            for x, y in ((a, b), (b, a)):
                if x is c and not contains(y, lambda z: z is c):
                    return mul(init, mk('prodf', y, dom, idx))
        if is_call(v, 'numpy.maximum') or is_call(v, 'numpy.minimum'):
            a, b = v.args[2], v.args[3]
            for x, y in ((a, b), (b, a)):
                if x is c and not contains(y, lambda z: z is c):
                    return mk('extf', v.args[0], init, y, dom, idx)
        if v.op == 'dset' and v.args[0] is c:
            return mk('dictmap', init, v.args[1], v.args[2], dom, idx)
        return mk('fold', v, c, init, dom, idx)

    def loop_depth(self, dom, st):
        return sum(1 for d, i in st.loops if d is dom)

    def iterate(self, t, st, depth=None):
        """Elements of an iterable: a list of terms when they are known, or
        (domain, index symbol, element term)."""
        t = self.simp(t, st)
        if t.op == 'cell':
            return self.iterate(self.content(st, t), st)
        if t.op == 'tup':
            if any(a.op == 'star' for a in t.args):
                return self.sym(t, st)
            return list(t.args)
        if t.op == 'const' and isinstance(t.args[0], str):
            return [const(ch) for ch in t.args[0]]
        if t.op == 'dict':
            return list(t.args[::2])
        if t.op in ('fromkeys', 'dedup') and t.args[0].op == 'tup' and all(
                x.op == 'const' or self.plain_objects(mk('tup'), x)
                for x in t.args[0].args):
            return list(dict.fromkeys(t.args[0].args))
        if t.op == 'cat' and t.args[0].op == 'tup' and not t.args[0].args:
            return self.iterate(t.args[1], st)
        if t.op == 'map':
            body, dom, ix = t.args
            n = self.loop_depth(dom, st)
            idx = mk('idx', dom, n)
            return (dom, idx, subst(body, {ix: idx}))
        if t.op == 'zip':
            parts = [self.iterate(x, st) for x in t.args]
            if all(isinstance(x, list) for x in parts):
                return [mk('tup', *e) for e in zip(*parts)]
            sym = [x for x in parts if not isinstance(x, list)]
            dom, idx, _ = sym[0]
            elems = []
            for x, p in zip(t.args, parts):
                if isinstance(p, list):
                    elems.append(item(self.pure(st, x), idx))
                else:
                    elems.append(subst(p[2], {p[1]: idx}))
            return (dom, idx, mk('tup', *elems))
        if t.op == 'enum':
            p = self.iterate(t.args[0], st)
            start = t.args[1]
            if isinstance(p, list) and is_const(start):
                return [mk('tup', const(i + cval(start)), e)
                        for i, e in enumerate(p)]
            if isinstance(p, list):
                return self.sym(t, st)
            dom, idx, e = p
            i = idx if is_const(start) and cval(start) == 0 else add(idx,
                                                                     start)
            return (dom, idx, mk('tup', i, e))
        u = unravelled(t)
        if u is not None:
            return u
        if t.op == 'rng':
            a, b, c = t.args
            if all(is_const(x) for x in t.args) and abs(
                    cval(b) - cval(a)) <= 64:
                try:
                    return [const(i) for i in range(cval(a), cval(b),
                                                    cval(c))]
                except Exception:
                    pass
            if is_const(c) and cval(c) == 1 and is_const(a) and \
                    b.op == 'len':
                dom = b.args[0]
                if cval(a) != 0:
                    dom = mk('tail', dom, a)
                n = self.loop_depth(dom, st)
                idx = mk('idx', dom, n)
                return (dom, idx, idx)
            n = self.loop_depth(t, st)
            idx = mk('idx', t, n)
            return (t, idx, idx)
        if t.op in ('keys', 'items', 'values'):
            d = self.content(st, t.args[0])
            if d.op == 'dict':
                ks, vs = d.args[::2], d.args[1::2]
                if t.op == 'keys':
                    return list(ks)
                if t.op == 'values':
                    return list(vs)
                return [mk('tup', k, v) for k, v in zip(ks, vs)]
            if d.op == 'dictmap' and d.args[0].op == 'dict' and \
                    not d.args[0].args:
                _, kb, vb, dom, ix = d.args
                n = self.loop_depth(dom, st)
                idx = mk('idx', dom, n)
                kb, vb = subst(kb, {ix: idx}), subst(vb, {ix: idx})
                e = {'keys': kb, 'values': vb,
                     'items': mk('tup', kb, vb)}[t.op]
                return (dom, idx, e)
            dom = mk('entries', d)
            idx = mk('idx', dom, self.loop_depth(dom, st))
            kb, vb = mk('ekey', d, idx), mk('eval', d, idx)
            e = {'keys': kb, 'values': vb, 'items': mk('tup', kb, vb)}[t.op]
            return (dom, idx, e)
        if t.op == 'reversed':
            p = self.iterate(t.args[0], st)
            if isinstance(p, list):
                return p[::-1]
        if t.op == 'slice' and t.args[2] is NONE and t.args[3] is NONE and \
                is_const(t.args[1]) and cval(t.args[1]) and \
                cval(t.args[1]) > 0:
            base = t.args[0]
            p = self.iterate(base, st)
            if not isinstance(p, list):
                dom, idx, e = p
                d2 = mk('tail', dom, t.args[1])
                i2 = mk('idx', d2, self.loop_depth(d2, st))
                return (d2, i2, subst(e, {idx: i2}))
        if t.op == 'ite':
            p, q = (self.iterate(x, st) for x in t.args[1:])
            if isinstance(p, list) and isinstance(q, list) and \
                    len(p) == len(q):
                return [ite(t.args[0], x, y) for x, y in zip(p, q)]
        return self.sym(t, st)

    def sym(self, dom, st):
        idx = mk('idx', dom, self.loop_depth(dom, st))
        return (dom, idx, item(dom, idx))

    # -------------------------------------------------------- assignments
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [i for i, e in enumerate(t.elts)
                     if isinstance(e, ast.Starred)]
            c = self.content(st, v) if v.op == 'cell' else v
            known = self.iterate(c, st) if c.op in ('tup', 'zip', 'map',
                                                    'const') else None
            if isinstance(known, list) and not stars and len(known) == n:
                for e, x in zip(t.elts, known):
                    self.assign(e, x, st, node)
            elif stars:
                i = stars[0]
                after = n - i - 1
                for j in range(i):
                    self.assign(t.elts[j], item(c, const(j)), st, node)
                rest = slice_(c, const(i), NONE if not after else
                              const(-after), NONE)
                self.assign(t.elts[i].value, self.cell(st, 'list', rest), st,
                            node)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], item(c, const(
                        j - after)), st, node)
            else:
                for j, e in enumerate(t.elts):
                    self.assign(e, item(c, const(j)), st, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval_index(t.slice, st)
            self.setitem(b, k, v, st, node, target=t.value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def find_frame(self, name, st):
        act = self.stack[-1]
        fr = act.frame
        while fr is not None:
            d = st.heap.get(fr)
            if d is None:
                return None
            if name in d and d[name] is not UNDEF:
                return fr
            fr = d.get('$parent')
        return None

    def set_name(self, name, v, st):
        act = self.stack[-1]
        if name in act.globals:
            self.eff(st, 'global', (name, v), ast.Pass())
            return
        if name in getattr(act, 'nonlocals', ()):
            fr = self.find_frame(name, st)
            if fr is not None:
                st.set(fr, name, v)
                return
        st.set(act.frame, name, v)

    def get_name(self, name, st):
        fr = self.find_frame(name, st)
        if fr is not None:
            return st.heap[fr][name]
        act = self.stack[-1]
        b = self.p.lookup(act.module, name)
        if b is not None:
            return self.binding(b, st)
        return mk('ext', 'builtins.' + name)

    def setattr(self, b, name, v, st, node):
        if b.op == 'ite':
            st.set(b, name, v)
        st.set(b, name, v)
        if b.op in ('param', 'item', 'attr') or (
                b.op == 'obj' and st.epoch == 'build') or (
                    b.op != 'obj' and self.node_class is not None and
                    self.node_class(b) is not None):
            self.eff(st, 'setattr', (b, name, v), node)

    def setitem(self, b, k, v, st, node, target=None, aug=False):
        h = self.handlers.get('setitem')
        if h is not None and h(self, b, k, v, st, node, aug):
            return
        c = self.cls_of(b)
        if isinstance(c, Class) and c.find('__setitem__'):
            self.dunder(b, '__setitem__', [k, v], st, node)
            return
        if b.op == 'cell':
            c = self.content(st, b)
            if b.args[1] == 'dict':
                self.set_cell(st, b, dset(c, self.pure(st, k), v))
            else:
                if c.op == 'tup' and is_const(k) and isinstance(
                        cval(k), int) and -len(c.args) <= cval(k) < len(
                            c.args):
                    a = list(c.args)
                    a[cval(k)] = v
                    self.set_cell(st, b, mk('tup', *a))
                elif c.op == 'tup' and k.op == 'sl' and all(
                        x is NONE or (is_const(x) and isinstance(
                            cval(x), int)) for x in k.args) and isinstance(
                                self.iterate(v, st), list) and not any(
                                    x.op == 'star' for x in c.args):
                    a = list(c.args)
                    try:
                        a[slice(*[cval(x) for x in k.args])] = \
                            self.iterate(v, st)
                    except ValueError:
                        raise Dead()
                    self.set_cell(st, b, mk('tup', *a))
                else:
                    self.set_cell(st, b, mk('store', c, self.pure(st, k), v))
            return
        if self.aliased(b):
            self.eff(st, 'mutate', (b, 'item assignment'), node)
            self.eff(st, 'setitem', (b, self.pure(st, k), v), node)
            return
        pl = self.place(target, st) if target is not None else None
        if pl is not None and pl[1] == 'same' and is_vector(
                pl[0].args[0]) and b.op not in ('initial', 'inslot',
                                                'store'):
            b = mk('inslot', pl[0].args[0], pl[0].args[1], b)
        new = mk('store', b, self.pure(st, k), self.pure(st, v))
        if pl is None:
            self.eff(st, 'store', (b, k, v), node)
        else:
            self.write_place(pl, new, st, node, (k, v))

    # ------------------------------------------------- aliases of arrays
    # A place is where an array value is held: a local name, an attribute or
    # a slot of the output or partials vector.  'same': the very object;
    # 'whole': a view of all of it (reshape, ravel); 'part': any other view.
    def place(self, node, st):
        if isinstance(node, ast.Name):
            fr = self.find_frame(node.id, st)
            if fr is None:
                return None
            return mk('pl', fr, node.id), 'same'
        if isinstance(node, ast.Attribute):
            if node.attr == 'T':
                p = self.place(node.value, st)
                return p and (p[0], 'part')
            if isinstance(node.value, ast.Name):
                o = self.eval(node.value, st)
                if o.op == 'obj':
                    return mk('pl', o, node.attr), 'same'
            return None
        if isinstance(node, ast.Subscript):
            b = None
            if isinstance(node.value, (ast.Name, ast.Attribute)):
                b = self.eval(node.value, st)
                if is_vector(b):
                    k = self.pure(st, self.eval_index(node.slice, st))
                    return mk('pl', b, k), 'same'
            p = self.place(node.value, st)
            return p and (p[0], 'part')
        if isinstance(node, ast.Call):
            f = node.func
            p = self.result_places.get((node, self.stack[-1].frame))
            if p is not None:
                return p
            if isinstance(f, ast.Attribute):
                if f.attr in ('reshape', 'ravel', 'view', 'squeeze'):
                    p = self.place(f.value, st)
                    if p is not None:
                        return p[0], ('part' if p[1] == 'part' else 'whole')
                if f.attr in ('transpose', 'swapaxes', 'diagonal'):
                    p = self.place(f.value, st)
                    if p is not None:
                        return p[0], 'part'
                if f.attr in ('reshape', 'ravel', 'asarray', 'transpose',
                              'squeeze', 'swapaxes', 'moveaxis',
                              'expand_dims', 'atleast_1d') and node.args:
                    p = self.place(node.args[0], st)
                    if p is not None:
                        return p[0], ('whole' if p[1] != 'part' and f.attr
                                      in ('reshape', 'ravel', 'asarray',
                                          'squeeze', 'expand_dims')
                                      else 'part')
        return None

    def read_place(self, pl, st):
        return st.get(pl.args[0], pl.args[1])

    def set_place(self, pl, v, st):
        st.set(pl.args[0], pl.args[1], v)

    def links(self, st):
        return st.heap.get(ALIAS) or {}

    def link(self, pl, target, mode, st):
        if pl is target:
            return
        st.set(ALIAS, pl, mk('link', target, mode))

    def unlink(self, pl, st):
        d = st.heap.get(ALIAS)
        if not d:
            return
        up = d.pop(pl, None)
        for k, l in list(d.items()):
            if l.op == 'link' and l.args[0] is pl:
                if up is not None and up.op == 'link':
                    d[k] = mk('link', up.args[0], weaker(
                        up.args[1], l.args[1]))
                else:
                    d.pop(k)

    def chain(self, pl, st):
        """[(place, mode)] from pl up to the place that owns the array."""
        d = self.links(st)
        r = [(pl, 'same')]
        seen = {pl}
        mode = 'same'
        while True:
            l = d.get(r[-1][0])
            if l is None or l.op != 'link' or l.args[0] in seen:
                return r
            mode = weaker(mode, l.args[1])
            seen.add(l.args[0])
            r.append((l.args[0], mode))

    def write_place(self, plm, new, st, node, kv):
        pl, mode = plm
        if mode != 'same' and not self.read_place(pl, st):
            if is_vector(pl.args[0]):
                st.set(pl.args[0], pl.args[1], mk(
                    'initial', pl.args[0], pl.args[1]))
        if is_vector(pl.args[0]):
            self.eff(st, 'slot', (pl.args[0], pl.args[1]), node)
        up = self.chain(pl, st)
        done = set()
        for a, m in up:
            self.update(a, weaker(mode, m), new, st, node, kv)
            done.add(a)
        root = up[-1][0]
        exact = {a for a, m in up if weaker(mode, m) == 'same'}
        for k in list(self.links(st)):
            if k in done:
                continue
            c = self.chain(k, st)
            if c[-1][0] is not root:
                continue
            if any(a in exact and m == 'same' for a, m in c):
                self.set_place(k, new, st)
            else:
                self.set_place(k, opaque('view of a changed array'), st)

    def update(self, a, mode, new, st, node, kv):
        if a.args[0].op == 'obj' and st.epoch == 'build':
            self.eff(st, 'objstore', (a.args[0], a.args[1]), node)
        if mode == 'same':
            self.set_place(a, new, st)
        elif mode == 'whole':
            old = self.read_place(a, st)
            if is_vector(a.args[0]):
                self.eff(st, 'slot', (a.args[0], a.args[1]), node)
                v = mk('reslot', a.args[0], a.args[1], new)
            elif old is not None:
                v = mk('relike', old, new)
            else:
                v = opaque('view store')
            self.set_place(a, v, st)
        else:
            if is_vector(a.args[0]):
                self.eff(st, 'slot', (a.args[0], a.args[1]), node)
            self.set_place(a, opaque('store through a partial view'), st)

    # --------------------------------------------------------- expressions
    def simp(self, t, st):
        """t under the facts of the current path."""
        if not st.facts:
            return t
        if not contains(t, lambda x: x.op in (
                'ite', 'eq', 'lt', 'not', 'isinst', 'truth', 'in', 'len',
                'and', 'or')):
            return t
        return assume(t, st.facts)

    def eval(self, node, st):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return opaque('expr', type(node).__name__)
        return m(node, st)

    def e_Constant(self, n, st):
        if isinstance(n.value, (int, float, str, bool)) or n.value is None:
            return const(n.value)
        if n.value is Ellipsis:
            return mk('ellipsis')
        return opaque('constant', repr(n.value))

    def e_Name(self, n, st):
        v = self.get_name(n.id, st)
        if v.op == 'ite':
            v = self.simp(v, st)
        return v

    def e_Attribute(self, n, st):
        b = self.eval(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def e_Subscript(self, n, st):
        b = self.eval(n.value, st)
        k = self.eval_index(n.slice, st)
        return self.getitem(b, k, st, n)

    def eval_index(self, node, st):
        if isinstance(node, ast.Slice):
            lo = NONE if node.lower is None else self.eval(node.lower, st)
            hi = NONE if node.upper is None else self.eval(node.upper, st)
            sp = NONE if node.step is None else self.eval(node.step, st)
            return mk('sl', lo, hi, sp)
        if isinstance(node, ast.Tuple):
            return mk('tup', *[self.eval_index(e, st) for e in node.elts])
        if node.__class__.__name__ == 'Index':
            return self.eval_index(node.value, st)
        return self.eval(node, st)

    def e_Tuple(self, n, st):
        return mk('tup', *self.elements(n.elts, st))

    def e_List(self, n, st):
        return self.cell(st, 'list', mk('tup', *self.elements(n.elts, st)))

    def e_Set(self, n, st):
        return self.cell(st, 'set', mk('setof', mk(
            'tup', *self.elements(n.elts, st))))

    def elements(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                p = self.iterate(v, st)
                if isinstance(p, list):
                    out.extend(p)
                else:
                    out.append(mk('star', self.pure(st, v)))
            else:
                out.append(self.eval(e, st))
        return out

    def e_Dict(self, n, st):
        d = mk('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.known_keys(self.content(st, self.eval(v, st)))
                if x.op == 'dict':
                    for a, b in zip(x.args[::2], x.args[1::2]):
                        d = dset(d, a, b)
                else:
                    d = mk('dictcat', d, x) if d.args else x
            else:
                kk = self.eval(k, st)
                d = dset(d, self.pure(st, kk), self.eval(v, st))
        return self.cell(st, 'dict', d)

    def known_keys(self, d):
        """dict.fromkeys of known keys, spelled out."""
        if d.op == 'fromkeys' and len(d.args) == 1 and \
                d.args[0].op == 'tup' and all(
                x.op == 'const' or self.plain_objects(mk('tup'), x)
                for x in d.args[0].args):
            return mk('dict', *[y for x in dict.fromkeys(d.args[0].args)
                                for y in (x, NONE)])
        return d

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.eval(v.value, st))
        return fmt_parts(parts)

    def e_FormattedValue(self, n, st):
        return self.eval(n.value, st)

    def e_Lambda(self, n, st):
        return self.closure(Func(self.stack[-1].module, n),
                            self.stack[-1].frame)

    def e_IfExp(self, n, st):
        c = self.cond(self.eval(n.test, st), st)
        if c is TRUE:
            return self.eval(n.body, st)
        if c is FALSE:
            return self.eval(n.orelse, st)
        a, b = st.fork(), st.fork()
        a.add_branch(c, True)
        b.add_branch(c, False)
        try:
            va = self.eval(n.body, a)
        except Dead:
            va = None
        try:
            vb = self.eval(n.orelse, b)
        except Dead:
            vb = None
        if va is None and vb is None:
            raise Dead()
        base = st.fork()
        if va is None:
            st.become(b)
            st.branch = base.branch
            return vb
        if vb is None:
            st.become(a)
            st.branch = base.branch
            return va
        st.become(join(c, a, b, base))
        return ite(c, va, vb)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        vals = []
        cur = st
        base_branch, base_facts = st.branch, st.facts
        for i, v in enumerate(n.values):
            t = self.simp(self.eval(v, st), st)
            c = self.cond(t, st)
            vals.append(t)
            if c is (FALSE if isand else TRUE):
                break
            if i + 1 < len(n.values):
                st.add_branch(c, isand)
        st.branch = base_branch
        st.facts = base_facts
        # value semantics: the last evaluated operand
        if all(S.is_boolish(v) or kind_of(v) == 'bool' for v in vals):
            return (and_ if isand else or_)(*[truth(v) for v in vals])
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            c = truth(v)
            acc = ite(c, acc, v) if isand else ite(c, v, acc)
        return acc

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return not_(truth(self.simp(self.lenform(v, st), st)))
        if isinstance(n.op, ast.USub):
            v = self.pure(st, v)
            if kind_of(v) in ('Variable', 'obj'):
                return self.dunder(v, '__neg__', [], st, n)
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        v = self.pure(st, v)
        return not_(v) if S.is_boolish(v) else mk('invert', v)

    def lenform(self, v, st):
        if v.op == 'cell':
            return not_(eq(S.length(self.content(st, v)), const(0)))
        if v.op == 'ite':
            return ite(v.args[0], self.lenform(v.args[1], st),
                       self.lenform(v.args[2], st))
        return v

    def cond(self, v, st):
        """The condition that a test of v stands for."""
        c = truth(self.simp(self.lenform(v, st), st))
        if self.decide is not None and c.op != 'const':
            r = self.decide(c)
            if r is not None:
                return TRUE if r else FALSE
        return c

    # decides conditions on values that are all known
    decide = None
    # called for methods of objects that are not known
    on_method = None
    # called for the body of a with block
    on_yield = None
    # tell copies of arrays from the arrays
    copies = False

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b, st, n)

    def dunder(self, v, name, args, st, node):
        c = self.cls_of(v)
        if isinstance(c, Class):
            f = c.find(name)
            if f is not None:
                return self.call_func(f, args, {}, st, node, selfterm=v)
        return opaque('dunder', name, v, *args)

    DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul',
              ast.Div: 'truediv', ast.Pow: 'pow', ast.MatMult: 'matmul'}

    def binop(self, op, a, b, st, node):
        ka, kb = kind_of(a), kind_of(b)
        nm = self.DUNDER.get(type(op))
        if nm and isinstance(self.cls_of(a), Class) and self.cls_of(a).find(
                '__%s__' % nm):
            return self.dunder(a, '__%s__' % nm, [b], st, node)
        if nm and isinstance(self.cls_of(b), Class) and self.cls_of(b).find(
                '__r%s__' % nm):
            return self.dunder(b, '__r%s__' % nm, [a], st, node)
        la = a.op == 'cell' and a.args[1] == 'list'
        lb = b.op == 'cell' and b.args[1] == 'list'
        if la or lb:
            x = self.content(st, a) if la else a
            y = self.content(st, b) if lb else b
            if isinstance(op, ast.Add):
                if la and lb:
                    return self.cell(st, 'list', seqcat(x, y))
            elif isinstance(op, ast.Mult):
                if la:
                    return self.cell(st, 'list', seqrep(x, y))
                return self.cell(st, 'list', seqrep(y, x))
        a, b = self.pure(st, a), self.pure(st, b)
        return arith(type(op), a, b)

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st)
            res.append(self.compare(op, left, right, st, n))
            left = right
        return and_(*res) if len(res) > 1 else res[0]

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = same(self.simp(a, st), self.simp(b, st))
            return not_(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.cls_of(b)
            if isinstance(c, Class) and c.find('__contains__'):
                r = truth(self.dunder(b, '__contains__', [a], st, node))
                return not_(r) if isinstance(op, ast.NotIn) else r
        a, b = self.simp(self.pure(st, a), st), self.simp(
            self.pure(st, b), st)
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return not_(eq(a, b))
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        if isinstance(op, ast.LtE):
            return not_(lt(b, a))
        if isinstance(op, ast.GtE):
            return not_(lt(a, b))
        r = contains_(b, a)
        return not_(r) if isinstance(op, ast.NotIn) else r

    def comp(self, n, st, make):
        """Comprehension with one generator (nested ones become opaque)."""
        gens = n.generators
        g = gens[0]
        it = self.eval(g.iter, st)
        p = self.iterate(it, st)
        fr = mk('frame', self.fresh())
        act = self.stack[-1]
        st.heap[fr] = {'$parent': act.frame}
        act2 = Activation(act.func, fr, act.module)
        act2.cls, act2.self = getattr(act, 'cls', None), getattr(
            act, 'self', None)
        act2.raises = act.raises
        self.stack.append(act2)
        try:
            if len(gens) > 1:
                return ('opaque', opaque('nested comprehension',
                                         self.pure(st, it)))
            if isinstance(p, list):
                out = []
                for e in p:
                    self.assign(g.target, e, st, n)
                    c = TRUE
                    for f in g.ifs:
                        c = and_(c, self.cond(self.eval(f, st), st))
                    if c is FALSE:
                        continue
                    v = make(st)
                    if c is not TRUE:
                        return ('opaque', opaque('filter', c, *[
                            x for x in v if isinstance(x, T)]))
                    out.append(v)
                return ('known', out)
            dom, idx, e = p
            saved = st.loops
            st.loops = st.loops + ((dom, idx), )
            self.assign(g.target, e, st, n)
            c = TRUE
            for f in g.ifs:
                c = and_(c, self.cond(self.eval(f, st), st))
            v = make(st)
            st.loops = saved
            return ('sym', dom, idx, v, c)
        finally:
            self.stack.pop()

    def e_ListComp(self, n, st):
        return self.cell(st, 'list', self.seqcomp(n, st))

    def e_GeneratorExp(self, n, st):
        return self.seqcomp(n, st)

    def e_SetComp(self, n, st):
        return self.cell(st, 'set', mk('setof', self.seqcomp(n, st)))

    def seqcomp(self, n, st):
        r = self.comp(n, st, lambda s: (self.eval(n.elt, s), ))
        if r[0] == 'opaque':
            return r[1]
        if r[0] == 'known':
            return mk('tup', *[v[0] for v in r[1]])
        _, dom, idx, v, c = r
        v = self.pure(st, v[0])
        if c is TRUE:
            if v is item(dom, idx):
                return dom
            return mk('map', v, dom, idx)
        return mk('fmap', mk('tup', v), c, dom, idx)

    def e_DictComp(self, n, st):
        r = self.comp(n, st, lambda s: (self.pure(s, self.eval(n.key, s)),
                                        self.eval(n.value, s)))
        if r[0] == 'opaque':
            return self.cell(st, 'dict', r[1])
        if r[0] == 'known':
            d = mk('dict')
            for k, v in r[1]:
                d = dset(d, k, v)
            return self.cell(st, 'dict', d)
        _, dom, idx, (k, v), c = r
        if c is not TRUE:
            return self.cell(st, 'dict', opaque('filtered dict', k, v))
        return self.cell(st, 'dict', mk('dictmap', mk('dict'), k, self.pure(
            st, v), dom, idx))

    def e_Starred(self, n, st):
        return mk('star', self.eval(n.value, st))

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Slice(self, n, st):
        return self.eval_index(n, st)

    def e_Yield(self, n, st):
        if self.run_generators:
            # the caller goes on here and comes back
            v = NONE if n.value is None else self.eval(n.value, st)
            self.eff(st, 'yield', (v, ), n)
            if self.on_yield is not None:
                self.on_yield(v, st)
            return NONE
        return opaque('yield')

    # ------------------------------------------------------ attributes etc.
    def getattr(self, b, name, st, node):
        h = self.handlers.get('getattr')
        if h is not None:
            r = h(self, b, name, st, node)
            if r is not None:
                return r
        if b.op == 'ext' or b.op == 'mod':
            pair = ('ext' if b.op == 'ext' else 'mod', b.args[0])
            r = self.p.member(pair, name)
            return self.binding(r, st)
        if b.op == 'cls':
            v = st.get(b, name)
            if v is not None:
                return v
            c = self.p.classes[b.args[0]]
            a = c.find_attr(name)
            if isinstance(a, Func):
                return self.static_closure(a)
            if a is not None:
                cc, nd = a
                v = st.get(mk('cls', cc.qual), name)
                if v is not None:
                    return v
                return self.module_value(cc.module, nd, st)
            if name == '__name__':
                return const(c.name)
            return mk('attr', b, name)
        if b.op == 'super':
            slf, q = b.args
            c = self.p.classes.get(q)
            own = self.cls_of(slf)
            if isinstance(own, Class) and c is not None:
                f = own.find(name, after=c)
                if f is not None:
                    return mk('bound', slf, self.static_closure(f))
            return mk('extm', slf, 'super.' + name)
        if b.op == 'ite' and name in ('flatten', 'ravel', 'copy') and any(
                is_const(x) and isinstance(cval(x), (int, float))
                for x in b.args[1:]):
            # numpy.where with a number
            return mk('extm', b, name)
        if b.op == 'ite':
            return ite(b.args[0], self.getattr(b.args[1], name, st, node),
                       self.getattr(b.args[2], name, st, node))
        if name == '__class__':
            c = self.cls_of(b)
            if isinstance(c, Class):
                return mk('cls', c.qual)
        if b.op == 'call' and name in ('shape', 'size', 'ndim') and (
                b.args[:2] == ('numpy.copy', 'a') or b.args[:2] == (
                    'numpy.array', 'object') and kind_of(
                        b.args[2]) == 'ndarray'):
            return self.getattr(b.args[2], name, st, node)
        if name == 'shape':
            n = sliced_shape(b)
            if n is not None:
                return n
        v = st.get(b, name)
        if v is None and name in self.node_lists and b.op != 'obj' and \
                self.cls_of(b) is not None:
            v = self.cell(st, 'list', mk('attr', b, name))
            st.set(b, name, v)
        if v is not None and v is not UNDEF:
            if name == 'name' and st.epoch == 'build' and b.op == 'obj':
                return mk('late', b, 'name')
            return v
        c = self.cls_of(b)
        if isinstance(c, Class):
            a = c.find_attr(name)
            if isinstance(a, Func):
                decos = [getattr(d, 'id', '') for d in
                         a.node.decorator_list]
                if 'property' in decos:
                    return self.call_func(a, [], {}, st, node, selfterm=b)
                if 'staticmethod' in decos:
                    return self.static_closure(a)
                return mk('bound', b, self.static_closure(a))
            if a is not None:
                cc, nd = a
                v = st.get(mk('cls', cc.qual), name)
                if v is not None:
                    return v
                return self.module_value(cc.module, nd, st)
        if b.op == 'cell' or b.op in ('keys', 'items', 'values'):
            return mk('extm', b, name)
        if name in METHOD_NAMES and kind_of(b) not in ('Variable', 'obj'):
            return mk('extm', b, name)
        if b.op == 'sl' and name in ('start', 'stop', 'step'):
            return b.args[('start', 'stop', 'step').index(name)]
        if name == 'size' and kind_of(b) not in ('Variable', 'obj'):
            return call('numpy.size', a=self.pure(st, b))
        if name == 'T' and kind_of(b) not in ('Variable', 'obj'):
            return call('numpy.transpose', a=self.pure(st, b))
        if name == 'name' and st.epoch == 'build' and (
                kind_of(b) == 'Variable' or b.op in ('obj', 'param', 'item',
                                                     'ekey')):
            return mk('late', b, 'name')
        return mk('attr', b, name)

    def getitem(self, b, k, st, node):
        if b is NONE or (k is NONE and b.op in ('attr', 'late', 'tup')
                         and kind_of(b) == 'tuple'):
            # None has no elements, and is not a position
            self.note_raise(st, 'TypeError', node)
            raise Dead()
        h = self.handlers.get('getitem')
        if h is not None:
            r = h(self, b, k, st, node)
            if r is not None:
                return r
        c = self.cls_of(b)
        if isinstance(c, Class) and c.find('__getitem__'):
            return self.dunder(b, '__getitem__', [k], st, node)
        if b.op == 'cell' and b.args[1] == 'dict':
            if self.track is not None:
                self.need_key(st, self.content(st, b), self.pure(st, k),
                              node)
            return dget(self.content(st, b), self.pure(st, k))
        if b.op == 'cell':
            b = self.content(st, b)
        if b.op == 'ite' and any(x.op == 'cell' for x in b.args[1:]):
            return ite(b.args[0], self.getitem(b.args[1], k, st, node),
                       self.getitem(b.args[2], k, st, node))
        lst = k.op == 'cell' and k.args[1] == 'list'
        k = self.pure(st, k)
        if b.op == 'dict' or b.op == 'dictmap':
            return dget(b, k)
        if lst:
            k = mk('aslist', k)
        if k.op == 'sl':
            r = slice_(b, *k.args)
            return r
        return item(b, k)

    # --------------------------------------------------------------- calls
    def e_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                self.find_frame('super', st) is None:
            act = self.stack[-1]
            slf = getattr(act, 'self', None)
            cls = getattr(act, 'cls', None)
            if n.args and len(n.args) >= 2:
                slf = self.eval(n.args[1], st)
                cv = self.eval(n.args[0], st)
                if cv.op == 'cls':
                    cls = self.p.classes[cv.args[0]]
            if slf is None or cls is None:
                return opaque('super')
            return mk('super', slf, cls.qual)
        f = self.eval(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                p = self.iterate(v, st)
                if isinstance(p, list):
                    args.extend(p)
                else:
                    args.append(mk('star', self.pure(st, v)))
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.content(st, self.eval(k.value, st))
                if d.op == 'dict' and all(is_const(x)
                                          for x in d.args[::2]):
                    for kk, vv in zip(d.args[::2], d.args[1::2]):
                        kwargs[cval(kk)] = vv
                else:
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        self.arg_nodes[n] = self.stack[-1]
        return self.call_value(f, args, kwargs, st, n)

    def link_args(self, node, nself, func, fr, st, caller):
        """Formal parameters of an inlined call alias the actual arrays."""
        if not isinstance(node, ast.Call) or any(
                isinstance(a, ast.Starred) for a in node.args):
            return
        a = func.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [
            x.arg for x in a.args]
        pairs = list(zip(pos[nself:], node.args)) + [
            (k.arg, k.value) for k in node.keywords if k.arg]
        for n, e in pairs:
            v = st.heap[fr].get(n)
            if v is None or v.op in ('const', 'cell', 'param', 'obj',
                                     'special', 'clo', 'bound') or kind_of(
                    v) in ('str', 'int', 'float', 'bool', 'Variable',
                           'tuple'):
                continue
            self.stack.append(caller)
            try:
                pl = self.place(e, st)
            finally:
                self.stack.pop()
            if pl is not None:
                self.link(mk('pl', fr, n), pl[0], pl[1], st)

    def call_value(self, f, args, kwargs, st, node):
        f = self.simp(f, st)
        if f.op == 'clo':
            func, frame, cls = self.funcs[f]
            return self.call_func(func, args, kwargs, st, node, frame=frame,
                                  cls=cls)
        if f.op == 'bound':
            func, frame, cls = self.funcs[f.args[1]]
            h = self.handlers.get('method')
            if h is not None:
                r = h(self, f.args[0], func, args, kwargs, st, node)
                if r is not None:
                    return r
            return self.call_func(func, args, kwargs, st, node, frame=frame,
                                  selfterm=f.args[0])
        if f.op == 'ite':
            c = f.args[0]
            a, b = st.fork(), st.fork()
            a.add_branch(c, True)
            b.add_branch(c, False)
            va = vb = None
            try:
                va = self.call_value(f.args[1], args, kwargs, a, node)
            except Dead:
                pass
            try:
                vb = self.call_value(f.args[2], args, kwargs, b, node)
            except Dead:
                pass
            br = st.branch
            if va is None and vb is None:
                raise Dead()
            if va is None:
                st.become(b)
            elif vb is None:
                st.become(a)
            else:
                st.become(join(c, a, b, st.fork()))
            st.branch = br
            return vb if va is None else va if vb is None else ite(c, va, vb)
        if f.op == 'cls':
            return self.instantiate(self.p.classes[f.args[0]], args, kwargs,
                                    st, node)
        if f.op == 'ext':
            return self.call_ext(f.args[0], args, kwargs, st, node)
        if f.op == 'extm':
            return self.call_method(f.args[0], f.args[1], args, kwargs, st,
                                    node)
        if f.op == 'partial':
            inner = f.args[0]
            n = f.args[1]
            pre = list(f.args[2:2 + n])
            names = f.args[2 + n].split(',') if f.args[2 + n] else []
            kw = dict(zip(names, f.args[3 + n:]))
            kw.update(kwargs)
            return self.call_value(inner, pre + list(args), kw, st, node)
        if f.op == 'attr' and kind_of(f.args[0]) not in ('Variable', ):
            return self.call_method(f.args[0], f.args[1], args, kwargs, st,
                                    node)
        h = self.handlers.get('unknown_call')
        if h is not None:
            r = h(self, f, args, kwargs, st, node)
            if r is not None:
                return r
        pa = [self.pure(st, a) for a in args]
        self.eff(st, 'call', (f, tuple(pa)), node)
        if self.track is not None:
            self.track.append(('callback', st.facts, f, tuple(pa),
                               self.snapshot(st)))
        return mk('app', f, *pa)

    def instantiate(self, cls, args, kwargs, st, node):
        h = self.handlers.get('new')
        if h is not None:
            r = h(self, cls, args, kwargs, st, node)
            if r is not None:
                return r
        o = self.alloc(st, cls, node)
        self.eff(st, 'new', (o, cls.qual), node)
        f = cls.find('__init__')
        if f is not None:
            self.call_func(f, args, kwargs, st, node, selfterm=o)
        else:
            st.heap[o]['$args'] = mk('tup', *args)
            for k, v in kwargs.items():
                st.heap[o]['$kw:' + k] = v
        return o

    # ---- external functions
    def call_ext(self, name, args, kwargs, st, node):
        if self.copies and name in ('numpy.array', 'numpy.asarray',
                                    'numpy.asanyarray') and args and \
                kind_of(args[0]) == 'ndarray':
            c = kwargs.get('copy')
            if name != 'numpy.array' or c is FALSE or c is NONE:
                return args[0]
            return call('numpy.copy', a=args[0])
        name = ALIASES.get(name, name)
        if name.startswith('builtins.'):
            r = self.builtin(name[9:], args, kwargs, st, node)
            if r is not None:
                return r
        if name.startswith('op.'):
            pa = [self.pure(st, a) for a in args]
            ops = {'op.add': ast.Add, 'op.sub': ast.Sub, 'op.mul': ast.Mult,
                   'op.div': ast.Div, 'op.pow': ast.Pow,
                   'op.matmul': ast.MatMult}
            if name in ops and len(pa) == 2:
                return self.binop(ops[name](), args[0], args[1], st, node)
            if name == 'op.neg' and pa:
                return neg(pa[0])
            if name == 'op.square' and pa:
                return mk('pow', pa[0], const(2))
            if name == 'op.recip' and pa:
                return div(const(1), pa[0])
            cm = {'op.lt': ast.Lt, 'op.gt': ast.Gt, 'op.le': ast.LtE,
                  'op.ge': ast.GtE, 'op.eq': ast.Eq}
            if name in cm and len(pa) == 2:
                return self.compare(cm[name](), pa[0], pa[1], st, node)
        if name in ('functools.partial', ):
            f = args[0]
            names = sorted(kwargs)
            return mk('partial', f, len(args) - 1, *(list(args[1:]) + [
                ','.join(names)] + [kwargs[k] for k in names]))
        if name == 'functools.reduce' and len(args) >= 2:
            seq = self.iterate(args[1], st)
            if isinstance(seq, list) and seq:
                rest = list(seq)
                acc = args[2] if len(args) > 2 else rest.pop(0)
                for e in rest:
                    acc = self.call_value(args[0], [acc, e], {}, st, node)
                return acc
        if name == 'contextlib.contextmanager':
            return args[0]
        if name in ('functools.wraps', ):
            return mk('ext', 'identity_decorator')
        if name in ('identity_decorator', 'functools.lru_cache'):
            return args[0] if args else opaque(name)
        if name == 'copy.copy' and args and args[0].op == 'cell':
            return self.cell(st, args[0].args[1], self.content(st, args[0]))
        if name == 'copy.copy' and args:
            return mk('copy', self.pure(st, args[0]))
        if name == 'itertools.chain':
            acc = mk('tup')
            for a in args:
                acc = seqcat(acc, self.pure(st, a))
            return acc
        if name == 'collections.OrderedDict' and not args:
            return self.cell(st, 'dict', mk('dict'))
        if name in ('sys.exit', 'os._exit', 'os.abort', 'builtins.exit',
                    'builtins.quit', 'os.kill'):
            self.eff(st, 'exit', (name, ), node)
            raise Dead()
        pa = [self.pure(st, a) for a in args]
        pk = {k: self.pure(st, v) for k, v in kwargs.items()}
        for v in [pk.get('out')] + ([pa[0]] if pa and name in INPLACE
                                    else []):
            if v is not None and v is not NONE and self.aliased(v):
                self.eff(st, 'mutate', (v, name), node)
        self.eff(st, 'extcall', (name, tuple(pa), tuple(sorted(
            pk.items()))), node)
        return self.ext_term(name, pa, pk)

    def ext_term(self, name, pa, pk):
        if name.startswith('numpy.'):
            sig = SIGS.get(name)
            if name == 'numpy.arange' and len(pa) == 1 and not (
                    set(pk) - {'dtype'}):
                return call('numpy.arange', start=const(0), stop=pa[0])
            if name == 'numpy.array' and pa:
                if pa[0].op in ('tup', 'map', 'tolist', 'aslist') or \
                        kind_of(pa[0]) in (
                        'number', 'int', 'float', 'tuple', 'list'):
                    return call(name, object=pa[0])
                dt = pk.get('dtype', pa[1] if len(pa) > 1 else None)
                if dt is not None and dt is not NONE:
                    return mk('astype', pa[0], dt)
                return pa[0]
            if name == 'numpy.where' and len(pa) == 3:
                return ite(truth(pa[0]), pa[1], pa[2])
            if name == 'numpy.power' and len(pa) == 2:
                return mk('pow', pa[0], pa[1])
            if name == 'numpy.multiply' and len(pa) == 2:
                return mul(pa[0], pa[1])
            if sig is not None and len(pa) <= len(sig):
                kw = dict(zip(sig, pa))
                if not (set(kw) & set(pk)):
                    kw.update(pk)
                    kw = {ARGALIAS.get((name, k), k): v
                          for k, v in kw.items()}
                    return call(name, **kw)
            if name == 'numpy.sqrt' and len(pa) == 1:
                return mk('pow', pa[0], const(0.5))
        names = ['#%d' % i for i in range(len(pa))]
        return mk('call', name, ','.join(names + sorted(pk)), *(
            pa + [pk[k] for k in sorted(pk)]))

    # ---- methods of external objects
    def call_method(self, b, name, args, kwargs, st, node):
        if b.op == 'cell':
            r = self.cell_method(b, name, args, kwargs, st, node)
            if r is not None:
                return r
        h = self.handlers.get('call_method')
        if h is not None:
            r = h(self, b, name, args, kwargs, st, node)
            if r is not None:
                return r
        pb = self.pure(st, b)
        pa = [self.pure(st, a) for a in args]
        pk = {k: self.pure(st, v) for k, v in kwargs.items()}
        if name == 'format' and (pb.op == 'const' or kind_of(pb) == 'str'):
            if pb.op == 'const' and isinstance(pb.args[0], str):
                r = do_format(pb.args[0], pa, pk)
                if r is not None:
                    return r
            return mk('fmt', pb, *pa)
        if kind_of(pb) == 'str' or pb.op == 'const':
            if name == 'join' and len(pa) == 1:
                p = self.iterate(pa[0], st)
                if isinstance(p, list):
                    parts = []
                    for i, e in enumerate(p):
                        if i and pb is not const(''):
                            parts.append(pb)
                        parts.append(e)
                    return fmt_parts(parts)
                return mk('join', pb, pa[0])
            if pb.op == 'const' and all(is_const(a) for a in pa):
                try:
                    r = getattr(cval(pb), name)(*[cval(a) for a in pa])
                    if isinstance(r, (str, int, bool)):
                        return const(r)
                    if isinstance(r, (list, tuple)):
                        return self.cell(st, 'list', mk(
                            'tup', *[const(x) for x in r]))
                except Exception:
                    pass
            return mk('strm', name, pb, *pa)
        if pb.op in ('dict', 'dictmap', 'dictcat') and name in (
                'items', 'keys', 'values'):
            return mk(name, pb)
        if name in ('items', 'keys', 'values') and not pa:
            return mk(name, pb)
        if name in METHODS and kind_of(pb) not in ('Variable', 'obj'):
            fn, _ = METHODS[name]
            fn = ALIASES.get(fn, fn)
            sig = SIGS.get(fn, ('a', 'b', 'c'))
            kw = {sig[0]: pb}
            for n, v in zip(sig[1:], pa):
                kw[n] = v
            kw.update(pk)
            return call(fn, **kw)
        if name == 'reshape' and kind_of(pb) not in ('Variable', 'obj'):
            if len(pa) == 1 and 'shape' not in pk:
                sh = pa[0]
            elif pa:
                sh = mk('tup', *pa)
            else:
                sh = pk.get('shape', opaque('reshape'))
            return call('numpy.reshape', a=pb, shape=sh)
        if name == 'transpose' and kind_of(pb) not in ('Variable', 'obj'):
            if not pa:
                return call('numpy.transpose', a=pb)
            return call('numpy.transpose', a=pb,
                        axes=pa[0] if len(pa) == 1 else mk('tup', *pa))
        if name == 'astype':
            return mk('astype', pb, pa[0] if pa else pk.get('dtype', NONE))
        if name == 'tolist':
            n = range_array(pb)
            if n is not None:
                return self.cell(st, 'list', mk('tup', *[
                    const(i) for i in range(n)]))
            return mk('tolist', pb)
        if name in ('append', 'extend', 'insert', 'update', 'pop', 'remove',
                    'clear', 'sort', 'reverse', 'add', 'discard',
                    'setdefault', 'fill', 'popitem', 'resize'):
            if self.aliased(pb) or pb.op in ('attr', 'param', 'item'):
                self.eff(st, 'mutate', (pb, name), node)
            self.eff(st, 'method', (pb, name, tuple(pa), tuple(sorted(
                pk.items()))), node)
            # remember appended elements of lists we did not create
            if name == 'append' and pa:
                self.eff(st, 'append', (pb, pa[0]), node)
            return NONE if name not in ('pop', 'setdefault') else mk(
                'app', mk('extm', pb, name), *pa)
        if is_problem(pb):
            r = self.problem_method(pb, name, pa, pk, st, node)
            if r is not None:
                return r
        if self.on_method is not None:
            pa = self.on_method(pb, name, args, pa, st)
        self.eff(st, 'method', (pb, name, tuple(pa), tuple(sorted(
            pk.items()))), node)
        return mk('app', mk('extm', pb, name), *(pa + [
            pk[k] for k in sorted(pk)]))

    def problem_method(self, b, name, args, kwargs, st, node):
        """Operations that change the state of an OpenMDAO problem held in
        a place: the state is a value, changed by an assignment."""
        target = node.func.value if isinstance(node, ast.Call) and \
            isinstance(node.func, ast.Attribute) else None
        if name == 'get_val' and len(args) == 1 and not kwargs:
            return item(b, args[0])
        if name == 'set_val':
            a = dict(kwargs)
            for n, v in zip(('name', 'val'), args):
                a[n] = v
            if sorted(a) == ['name', 'val'] and target is not None:
                self.setitem(b, a['name'], a['val'], st, node,
                             target=target)
                return NONE
        if name in ('run_model', 'setup', 'final_setup', 'set_val',
                    'run_driver'):
            self.eff(st, 'method', (b, name, tuple(args), tuple(sorted(
                kwargs.items()))), node)
            pl = self.place(target, st) if target is not None else None
            if pl is None:
                self.eff(st, 'lost', (b, name), node)
            else:
                self.write_place(pl, mk('did', b, name), st, node,
                                 (const(name), TRUE))
            return NONE
        return None

    def cell_method(self, b, name, args, kwargs, st, node):
        kind = b.args[1]
        c = self.content(st, b)
        if kind == 'list':
            if name == 'append':
                self.set_cell(st, b, seqcat(c, mk('tup', args[0])))
                self.eff(st, 'append', (b, args[0]), node)
                return NONE
            if name == 'extend':
                self.list_extend(b, args[0], st)
                return NONE
            if name == 'copy':
                return self.cell(st, 'list', c)
            if name == 'insert':
                self.eff(st, 'insert', (b, args[0], args[1]), node)
                if c.op == 'tup' and is_const(args[0]) and isinstance(
                        cval(args[0]), int):
                    a = list(c.args)
                    a.insert(cval(args[0]), args[1])
                    self.set_cell(st, b, mk('tup', *a))
                else:
                    self.set_cell(st, b, mk('linsert', c, args[0], args[1]))
                return NONE
            if name == 'index' and args:
                return mk('indexof', self.pure(st, b), self.pure(
                    st, args[0]))
            if name == 'reverse':
                self.set_cell(st, b, rev(c))
                return NONE
            if name == 'sort':
                self.set_cell(st, b, self.sort_of(b, args, kwargs, st, node))
                return NONE
            if name in ('remove', 'pop', 'clear'):
                v = mk('lpop', c, *[self.pure(st, a) for a in args])
                if name == 'pop' and c.op == 'tup' and c.args and (
                        not args or is_const(args[0])):
                    i = cval(args[0]) if args else -1
                    try:
                        a = list(c.args)
                        v = a.pop(i)
                        self.set_cell(st, b, mk('tup', *a))
                        return v
                    except Exception:
                        pass
                if name == 'remove' and args and self.plain_objects(
                        c, args[0]):
                    a = list(c.args)
                    if args[0] in a:
                        a.remove(args[0])
                        self.set_cell(st, b, mk('tup', *a))
                        return NONE
                self.set_cell(st, b, mk('tup') if name == 'clear' else mk(
                    'lrest' if name == 'pop' else 'lremove', c, *[
                        self.pure(st, a) for a in args]))
                return v if name == 'pop' else NONE
        if kind == 'dict':
            if name in ('items', 'keys', 'values'):
                return mk(name, c)
            if name == 'get':
                d = args[1] if len(args) > 1 else NONE
                k = self.pure(st, args[0])
                return ite(contains_(c, k), dget(c, k), d)
            if name == 'update':
                x = self.content(st, args[0]) if args else mk('dict')
                for k, v in kwargs.items():
                    x = dset(x, const(k), v)
                x, c = self.known_keys(x), self.known_keys(c)
                if x.op == 'dict':
                    for k, v in zip(x.args[::2], x.args[1::2]):
                        c = dset(c, k, v)
                    self.set_cell(st, b, c)
                elif c.op == 'dict' and not c.args:
                    self.set_cell(st, b, x)
                else:
                    self.set_cell(st, b, mk('dictcat', c, x))
                return NONE
            if name == 'copy':
                return self.cell(st, 'dict', c)
            if name == 'setdefault' and args:
                k = self.pure(st, args[0])
                d = args[1] if len(args) > 1 else NONE
                has = contains_(c, k)
                v = ite(has, dget(c, k), d)
                if has is not TRUE:
                    self.set_cell(st, b, dset(c, k, v))
                return v
            if name in ('pop', 'clear', 'popitem'):
                k = self.pure(st, args[0]) if args else NONE
                if name == 'clear':
                    self.set_cell(st, b, mk('dict'))
                    return NONE
                if name == 'popitem':
                    if c.op == 'dict' and c.args:
                        self.set_cell(st, b, mk('dict', *c.args[:-2]))
                        return mk('tup', *c.args[-2:])
                    self.set_cell(st, b, opaque('popitem'))
                    return opaque('popitem')
                v = dget(c, k)
                if len(args) > 1:
                    v = ite(contains_(c, k), v, args[1])
                self.set_cell(st, b, ddel(c, k))
                return v
        if kind == 'set':
            if name in ('add', 'discard', 'remove'):
                self.set_cell(st, b, mk('setadd' if name == 'add' else
                                        'setdrop', c,
                                        self.pure(st, args[0])))
                return NONE
            if name in ('update', 'intersection_update',
                        'difference_update', 'symmetric_difference_update'
                        ) and args:
                op = 'union' if name == 'update' else name[:-7]
                self.set_cell(st, b, mk('set' + op, c, *[
                    self.pure(st, a) for a in args]))
                return NONE
            if name in ('union', 'intersection', 'difference',
                        'symmetric_difference'):
                return self.cell(st, 'set', mk('set' + name, c, *[
                    self.pure(st, a) for a in args]))
            if name == 'isdisjoint' and args:
                return eq(S.length(mk('setintersection', c, self.pure(
                    st, args[0]))), const(0))
            if name == 'issubset' and args:
                return eq(S.length(mk('setdifference', c, self.pure(
                    st, args[0]))), const(0))
        return None

    def plain_objects(self, c, x):
        """x and the members of the sequence c are objects the program
        allocated, compared by identity."""
        for o in ((x, ) + c.args if c.op == 'tup' else (None, )):
            cls = None if o is None or o.op != 'obj' else self.cls_of(o)
            if not isinstance(cls, Class) or cls.find('__eq__') is not None:
                return False
        return True

    def sort_of(self, v, args, kwargs, st, node):
        """Term of the sorted elements of v."""
        c = self.pure(st, v)
        k = kwargs.get('key', NONE)
        rv = truth(self.simp(self.pure(st, kwargs.get('reverse', FALSE)),
                             st))
        if k is NONE and rv in (TRUE, FALSE):
            x = c
            if x.op == 'setof' and x.args[0].op == 'tup':
                x = x.args[0]
            if x.op == 'tup' and all(is_num(e) for e in x.args):
                v = [cval(e) for e in x.args]
                return mk('tup', *[const(e) for e in sorted(
                    set(v) if x is not c else v, reverse=rv is TRUE)])
        if k is NONE and rv is FALSE:
            return mk('sorted', c)
        if k is NONE:
            return mk('sortedby', c, c, rv)
        p = self.iterate(v, st)
        if isinstance(p, list):
            keys = mk('tup', *[self.pure(st, self.call_value(
                k, [e], {}, st, node)) for e in p])
            if rv in (TRUE, FALSE) and all(is_num(e) for e in keys.args):
                o = sorted(range(len(p)), key=lambda i: cval(keys.args[i]),
                           reverse=rv is TRUE)
                return mk('tup', *[p[i] for i in o])
        else:
            dom, idx, e = p
            keys = mk('map', self.pure(st, self.call_value(
                k, [e], {}, st, node)), dom, idx)
        return mk('sortedby', c, keys, rv)

    def list_extend(self, b, v, st):
        c = self.content(st, b)
        x = self.content(st, v) if v.op == 'cell' else v
        self.eff(st, 'extend', (b, x), self.cur_node)
        self.set_cell(st, b, seqcat(c, x))

    # ---- builtins
    def builtin(self, name, args, kwargs, st, node):
        a = args
        if name == 'len' and a:
            c = self.content(st, a[0])
            k = self.cls_of(a[0])
            return S.length(self.simp(c, st))
        if name == 'isinstance' and len(a) == 2:
            return self.isinst(self.simp(a[0], st), a[1], st)
        if name == 'range':
            x = [self.simp(self.pure(st, v), st) for v in a]
            if len(x) == 1:
                return mk('rng', const(0), x[0], const(1))
            if len(x) == 2:
                return mk('rng', x[0], x[1], const(1))
            if len(x) == 3:
                return mk('rng', *x)
        if name == 'zip':
            return mk('zip', *[self.pure(st, v) for v in a])
        if name == 'enumerate' and a:
            start = a[1] if len(a) > 1 else kwargs.get('start', const(0))
            return mk('enum', self.pure(st, a[0]), start)
        if name == 'list':
            if not a:
                return self.cell(st, 'list', mk('tup'))
            return self.cell(st, 'list', self.materialise(a[0], st))
        if name == 'tuple':
            if not a:
                return mk('tup')
            return self.materialise(a[0], st)
        if name in ('set', 'frozenset'):
            if not a:
                return self.cell(st, 'set', mk('setof', mk('tup')))
            v = self.pure(st, a[0])
            if is_const(v) and isinstance(cval(v), str):
                v = mk('tup', *[const(c) for c in cval(v)])
            return self.cell(st, 'set', mk('setof', v))
        if name == 'dict':
            d = mk('dict')
            if a:
                x = self.content(st, a[0])
                if x.op in ('dict', 'dictmap', 'dictcat'):
                    d = x
                else:
                    p = self.iterate(a[0], st)
                    if isinstance(p, list) and all(
                            e.op == 'tup' and len(e.args) == 2 for e in p):
                        for e in p:
                            d = dset(d, self.pure(st, e.args[0]), e.args[1])
                    elif not isinstance(p, list) and p[2].op == 'tup' and \
                            len(p[2].args) == 2:
                        d = mk('dictmap', mk('dict'), p[2].args[0],
                               p[2].args[1], p[0], p[1])
                    else:
                        d = opaque('dict', self.pure(st, a[0]))
            for k, v in kwargs.items():
                d = dset(d, const(k), v)
            return self.cell(st, 'dict', d)
        if name == 'reversed' and a:
            return rev(self.pure(st, a[0]))
        if name == 'sorted' and a:
            return self.cell(st, 'list', self.sort_of(a[0], [], kwargs, st,
                                                      node))
        if name == 'sum' and a:
            p = self.iterate(a[0], st)
            start = self.pure(st, a[1]) if len(a) > 1 else const(0)
            if isinstance(p, list):
                acc = start
                for e in p:
                    acc = self.binop(ast.Add(), acc, e, st, node)
                return acc
            dom, idx, e = p
            e = self.pure(st, e)
            return add(start, mk('sumf', e, dom, idx))
        if name in ('any', 'all') and a:
            p = self.iterate(a[0], st)
            if isinstance(p, list):
                return (or_ if name == 'any' else and_)(*[truth(
                    self.simp(self.pure(st, e), st)) for e in p])
            dom, idx, e = p
            e = truth(self.pure(st, e))
            return exists(dom, idx, e) if name == 'any' else forall(
                dom, idx, e)
        if name == 'map' and len(a) == 2:
            p = self.iterate(a[1], st)
            if isinstance(p, list):
                return mk('tup', *[self.call_value(a[0], [e], {}, st, node)
                                   for e in p])
            dom, idx, e = p
            saved = st.loops
            st.loops = st.loops + ((dom, idx), )
            v = self.pure(st, self.call_value(a[0], [e], {}, st, node))
            st.loops = saved
            return mk('map', v, dom, idx)
        if name == 'print':
            return NONE
        if name in ('exit', 'quit'):
            self.eff(st, 'exit', (name, ), node)
            raise Dead()
        if name in ('repr', 'str'):
            x = self.pure(st, a[0]) if a else const('')
            if kind_of(x) == 'str':
                return x
            if is_const(x) and name == 'str':
                return const(str(cval(x)))
            return mk('strof', x)
        if name in ('int', 'float') and a:
            x = self.pure(st, a[0])
            if is_num(x):
                try:
                    return const(int(cval(x)) if name == 'int' else float(
                        cval(x)))
                except Exception:
                    pass
            if name == 'int' and x.op == 'div' and all(
                    is_num(y) and isinstance(cval(y), int)
                    and abs(cval(y)) < 2**50 for y in x.args) and cval(
                        x.args[1]) != 0:
                return const(int(cval(x.args[0]) / cval(x.args[1])))
            if name == 'int' and kind_of(x) == 'int':
                return x
            if name == 'float':
                return x
            return mk('intof', x)
        if name == 'divmod' and len(a) == 2:
            x, y = [self.pure(st, v) for v in a]
            if not any(isinstance(self.cls_of(v), Class) for v in (x, y)):
                return mk("tup", arith(ast.FloorDiv, x, y),
                          arith(ast.Mod, x, y))
        if name == 'abs' and a:
            return mk('call', 'numpy.abs', '#0', self.pure(st, a[0]))
        if name == 'type' and len(a) == 1:
            c = self.cls_of(a[0])
            if isinstance(c, Class) and a[0].op == 'obj':
                return mk('cls', c.qual)
            return mk('typeof', self.pure(st, a[0]))
        if name == 'slice':
            x = list(a) + [NONE] * (3 - len(a))
            if len(a) == 1:
                x = [NONE, a[0], NONE]
            return mk('sl', *x)
        if name == 'getattr' and len(a) >= 2 and is_const(a[1]) and \
                isinstance(cval(a[1]), str):
            return self.getattr(a[0], cval(a[1]), st, node)
        if name == 'setattr' and len(a) == 3 and is_const(a[1]):
            self.setattr(a[0], cval(a[1]), a[2], st, node)
            return NONE
        if name == 'bool' and len(a) == 1:
            return self.cond(a[0], st)
        if name == 'hasattr' and len(a) == 2 and a[0].op == 'obj' and \
                is_const(a[1]):
            c = self.cls_of(a[0])
            if st.get(a[0], cval(a[1])) is not None or isinstance(
                    c, Class) and c.find(cval(a[1])) is not None:
                return TRUE
        if name == 'hasattr' and len(a) == 2 and is_const(a[1]):
            k = kind_of(a[0])
            r = None
            if k in PLAIN:
                r = hasattr(PLAIN[k], cval(a[1]))
            elif k == 'ndarray' and cval(a[1]) in ARRAY_NAMES:
                r = True
            elif k == 'ndarray' and cval(a[1]) in NODE_NAMES:
                r = False
            if r is not None:
                return TRUE if r else FALSE
        if name == 'hasattr':
            return opaque('hasattr', *[self.pure(st, x) for x in a])
        if name == 'dict.fromkeys' and len(a) == 1:
            return self.cell(st, 'dict', mk('fromkeys', self.pure(st, a[0])))
        if name in ('min', 'max') and len(a) > 2 and not kwargs:
            r = a[0]
            for x in a[1:]:
                r = self.builtin(name, [r, x], {}, st, node)
            return r
        if name in ('min', 'max') and len(a) == 2 and not kwargs:
            if all(is_const(x) and isinstance(cval(x), (int, float))
                   for x in a):
                return const((min if name == 'min' else max)(
                    *[cval(x) for x in a]))
            return mk('call', 'numpy.maximum' if name == 'max' else
                      'numpy.minimum', '#0,#1', *[self.pure(st, x)
                                                  for x in a])
        if name in ('min', 'max') and len(a) == 1 and not kwargs:
            x = self.pure(st, a[0])
            if x.op == 'tup' or kind_of(x) in ('tuple', 'list', 'shape'):
                return call('numpy.' + name, a=x)
        if name == 'pow' and len(a) == 2:
            return arith(ast.Pow, self.pure(st, a[0]), self.pure(st, a[1]))
        return None

    def materialise(self, v, st):
        """tuple(v) / list(v)."""
        c = self.content(st, v) if v.op == 'cell' else v
        if c.op in ('zip', 'enum', 'keys', 'items', 'values', 'rng',
                    'reversed'):
            p = self.iterate(c, st)
            if isinstance(p, list):
                return mk('tup', *p)
            dom, idx, e = p
            if e is idx:
                return c
            return mk('map', e, dom, idx)
        if c.op == 'dict':
            return mk('tup', *c.args[::2])
        if c.op == 'fromkeys':
            d = c.args[0]
            if d.op == 'tup' and all(x.op in ('obj', 'const')
                                     for x in d.args):
                return mk('tup', *dict.fromkeys(d.args))
            return mk('dedup', d)
        if c.op == 'const' and isinstance(c.args[0], str):
            return mk('tup', *[const(ch) for ch in c.args[0]])
        if kind_of(c) == 'ndarray':
            n = known_ints(c)
            if n is not None:
                return mk('tup', *[const(i) for i in n])
            return mk('tolist', c)
        return c

    NAMED = {
        'numbers.Number': 'number', 'numbers.Real': 'number',
        'builtins.int': 'int', 'builtins.float': 'float',
        'builtins.str': 'str', 'builtins.tuple': 'tuple',
        'builtins.list': 'list', 'builtins.dict': 'dict',
        'builtins.slice': 'slice', 'numpy.ndarray': 'ndarray',
        'builtins.bool': 'bool', 'builtins.set': 'set',
        'numbers.Integral': 'int', 'numpy.integer': 'npint',
    }

    def isinst(self, x, c, st):
        if c.op == 'cell':
            c = self.content(st, c)
        if c.op == 'tup':
            return or_(*[self.isinst(x, y, st) for y in c.args])
        if x.op == 'ite':
            return ite(x.args[0], self.isinst(x.args[1], c, st),
                       self.isinst(x.args[2], c, st))
        cx = self.cls_of(x)
        k = kind_of(x)
        if c.op == 'cls':
            cc = self.p.classes[c.args[0]]
            if isinstance(cx, Class):
                if cx.is_sub(cc):
                    return TRUE
                if x.op == 'obj':
                    return FALSE
                if not cc.is_sub(cx):
                    return FALSE
                # a Variable parameter may be of a subclass
                return mk('isinst', x, c.args[0])
            if k is not None and k not in ('obj', ):
                return FALSE
            if x.op == 'sl':
                return FALSE
            return mk('isinst', x, c.args[0])
        if c.op == 'ext':
            want = self.NAMED.get(c.args[0])
            if want is None:
                if isinstance(cx, Class):
                    return const(('ext', c.args[0]) in cx.mro())
                return mk('isinst', x, c.args[0])
            if x.op == 'sl':
                return const(want == 'slice')
            if isinstance(cx, Class):
                return FALSE
            if k is not None:
                k2 = {'vars': 'tuple', 'shape': 'tuple', 'ints': 'tuple',
                      'obj': 'other', 'Variable': 'other'}.get(k, k)
                if want == k2:
                    return TRUE
                if want == 'number' and k2 in ('int', 'float', 'bool'):
                    return TRUE
                if k2 == 'number' and want in ('int', 'float', 'bool'):
                    return mk('isinst', x, want)
                if want == 'int' and k2 == 'bool':
                    return TRUE
                return FALSE
            return mk('isinst', x, want)
        return mk('isinst', x, c)


METHOD_NAMES = set(METHODS) | {
    'reshape', 'transpose', 'astype', 'format', 'append', 'extend', 'items',
    'keys', 'values', 'join', 'split', 'index', 'get', 'update', 'replace',
    'startswith', 'endswith', 'tolist', 'insert', 'pop', 'remove', 'strip',
    'isalpha', 'lower', 'upper', 'add', 'union', 'intersection', 'count',
    'setdefault', 'sort', 'reverse', 'clear', 'fill', 'discard',
    'difference', 'item', 'fromkeys',
}
ARGALIAS = {('numpy.reshape', 'newshape'): 'shape',
            ('numpy.sum', 'x'): 'a'}


def _common_prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    return a[:n]


def carry(idx, o, k):
    return mk('carry', idx, key(o), str(k))


def forall(dom, idx, c):
    if c.op == 'const':
        return c
    return mk('forall', c, dom, idx)


def exists(dom, idx, c):
    if c.op == 'const':
        return c
    return not_(mk('forall', not_(c), dom, idx))


def cell_leaves(v):
    """The cells a (gated) reference may denote, or None."""
    if v.op == 'cell':
        return [v]
    if v.op == 'ite':
        a, b = cell_leaves(v.args[1]), cell_leaves(v.args[2])
        return a + b if a and b else None
    return None


def guarded_append(v, c):
    """(elements, guard) when v is c with the elements appended where the
    guard holds; (None, FALSE) for c itself; else None."""
    v2 = strip_dedup(v, c)
    if v2 is c:
        return None, FALSE
    if v2 is not None and v2.args[0] is c:
        return v2.args[1], TRUE
    if v.op == 'dedup':
        return guarded_append(v.args[0], c)
    if v.op == 'ite' and not contains(v.args[0], lambda x: x is c):
        a = guarded_append(v.args[1], c)
        b = guarded_append(v.args[2], c)
        if a is None or b is None:
            return None
        e = a[0] if a[0] is not None else b[0]
        if a[0] is not None and b[0] is not None and a[0] is not b[0]:
            return None
        return e, or_(and_(v.args[0], a[1]), and_(not_(v.args[0]), b[1]))
    return None


def strip_dedup(v, c):
    """v without the duplicate removals around the loop-carried c."""
    if v is c:
        return c
    if v.op == 'dedup':
        return strip_dedup(v.args[0], c)
    if v.op == 'cat' and not contains(v.args[1], lambda x: x is c):
        a = strip_dedup(v.args[0], c)
        return None if a is None else mk('cat', a, v.args[1])
    return None


def last_of(v, dom, idx):
    if not contains(v, lambda x: x is idx):
        return v
    if dom.op in ('rng', 'tail', 'entries', 'setof', 'sorted'):
        return mk('lastof', v, dom, idx)
    return subst(v, {idx: const(-1)})


def linear(v, c):
    """e when v == c + e with c not in e, else None."""
    if v is c:
        return const(0)
    if v.op == 'add':
        a, b = v.args
        for x, y in ((a, b), (b, a)):
            if contains(x, lambda z: z is c):
                if contains(y, lambda z: z is c):
                    return None
                e = linear(x, c)
                if e is None:
                    return None
                if e is const(0):
                    return y
                return add(e, y) if x is a else add(y, e)
    if v.op == 'sub':
        a, b = v.args
        if contains(b, lambda z: z is c):
            return None
        e = linear(a, c)
        if e is None:
            return None
        return neg(b) if e is const(0) else sub(e, b)
    return None


def seqcat(a, b):
    if a.op == 'tup' and not a.args:
        return b
    if b.op == 'tup' and not b.args:
        return a
    if a.op == 'tup' and b.op == 'tup':
        return mk('tup', *(a.args + b.args))
    if a.op == 'carry':
        return mk('cat', a, b)
    if a.op == 'cat' and b.op == 'tup' and a.args[1].op == 'tup':
        return mk('cat', a.args[0], mk('tup', *(a.args[1].args + b.args)))
    return mk('cat', a, b)


def sliced_shape(t):
    """The shape of broadcast_to(x, shape)[slices] for constants."""
    if t.op != 'item' or not is_call(t.args[0], 'numpy.broadcast_to') or \
            t.args[0].args[1] != 'array,shape':
        return None
    sh, ks = t.args[0].args[3], t.args[1]
    ks = ks.args if ks.op == 'tup' else (ks, )
    if sh.op != 'tup' or len(ks) > len(sh.args) or not all(
            is_const(x) and isinstance(cval(x), int) for x in sh.args) or \
            not all(k.op == 'sl' and all(is_const(x) and isinstance(
                cval(x), (int, type(None))) for x in k.args) and cval(
                    k.args[2]) != 0 for k in ks):
        return None
    r = [len(range(*slice(*[cval(x) for x in k.args]).indices(cval(n))))
         for n, k in zip(sh.args, ks)]
    return mk('tup', *([const(x) for x in r] + list(sh.args[len(ks):])))


def known_ints(t):
    """The integers of a tuple or of an array made of known ones."""
    if t.op == 'tup':
        if all(is_const(x) and type(cval(x)) is int for x in t.args):
            return [cval(x) for x in t.args]
        return None
    if is_call(t, 'numpy.delete') and t.args[1] == 'arr,obj':
        n = known_ints(t.args[2])
        k = t.args[3]
        k = [cval(k)] if is_const(k) and type(cval(k)) is int else \
            known_ints(k)
        if n is None or k is None or any(
                not -len(n) <= i < len(n) for i in k):
            return None
        k = set(i % len(n) for i in k)
        return [x for i, x in enumerate(n) if i not in k]
    if is_call(t, 'numpy.append') and t.args[1] == 'arr,values':
        a, b = known_ints(t.args[2]), known_ints(t.args[3])
        return None if a is None or b is None else a + b
    return None


def unravelled(t):
    """The index arrays unravel_index gives for a shape of known length."""
    if is_call(t, 'numpy.unravel_index'):
        names = t.args[1].split(',')
        sh = t.args[2:][names.index('shape')] if 'shape' in names else None
        if sh is not None and sh.op == 'tup' and not any(
                x.op == 'star' for x in sh.args):
            return [item(t, const(i)) for i in range(len(sh.args))]
    return None


def range_array(t):
    """n when t is numpy.arange(n) for a small known n."""
    if is_call(t, 'numpy.arange') and t.args[1] == 'start,stop' and \
            t.args[2] is const(0) and is_const(t.args[3]) and \
            isinstance(cval(t.args[3]), int) and \
            0 <= cval(t.args[3]) <= 64:
        return cval(t.args[3])
    return None


def seqrep(seq, n):
    if seq.op == 'tup' and is_const(n) and isinstance(cval(n), int):
        return mk('tup', *(seq.args * cval(n)))
    if seq.op == 'tup' and len(seq.args) == 1 and n.op == 'len':
        return mk('map', seq.args[0], n.args[0], mk('idx', n.args[0], 0))
    return mk('seqrep', seq, n)


def rev(c):
    if c.op == 'tup':
        return mk('tup', *c.args[::-1])
    if c.op == 'reversed':
        return c.args[0]
    return mk('reversed', c)


def dset(d, k, v):
    if d.op == 'dict':
        a = list(d.args)
        for i in range(0, len(a), 2):
            e = eq(a[i], k)
            if e is TRUE:
                a[i + 1] = v
                return mk('dict', *a)
            if e is not FALSE:
                return mk('dset', d, k, v)
        return mk('dict', *(a + [k, v]))
    return mk('dset', d, k, v)


def dict_has(d, k):
    """Condition for key k to be in the dictionary d, None: unknown."""
    if d.op == 'dict':
        return or_(FALSE, *[eq(x, k) for x in d.args[::2]])
    if d.op == 'dset':
        r = dict_has(d.args[0], k)
        return None if r is None else or_(eq(d.args[1], k), r)
    if d.op == 'ddel':
        r = dict_has(d.args[0], k)
        return None if r is None else and_(not_(eq(d.args[1], k)), r)
    if d.op == 'ite':
        a, b = dict_has(d.args[1], k), dict_has(d.args[2], k)
        return None if a is None or b is None else ite(d.args[0], a, b)
    return None


def ddel(d, k):
    if d.op == 'dict':
        es = [eq(x, k) for x in d.args[::2]]
        if all(e is TRUE or e is FALSE for e in es):
            r = []
            for i, e in enumerate(es):
                if e is FALSE:
                    r.extend(d.args[2 * i:2 * i + 2])
            return mk('dict', *r)
    return mk('ddel', d, k)


def dget(d, k):
    if d.op == 'dict':
        for i in range(0, len(d.args), 2):
            e = eq(d.args[i], k)
            if e is TRUE:
                return d.args[i + 1]
            if e is not FALSE:
                return mk('dget', d, k)
        return mk('dget', d, k)
    if d.op == 'dset':
        e = eq(d.args[1], k)
        if e is TRUE:
            return d.args[2]
        if e is FALSE:
            return dget(d.args[0], k)
    if d.op == 'ddel' and eq(d.args[1], k) is FALSE:
        return dget(d.args[0], k)
    if d.op == 'dictmap':
        base, kb, vb, dom, idx = d.args
        if not base.args:
            # d[kb(i)] is vb(i)
            m = match_key(kb, k, idx)
            if m is not None:
                return subst(vb, {idx: m})
    if d.op == 'ite':
        return ite(d.args[0], dget(d.args[1], k), dget(d.args[2], k))
    return mk('dget', d, k)


def match_key(kb, k, idx):
    """The i for which kb(i) is k, when that is syntactically evident."""
    if kb is k:
        return idx
    if kb.op != k.op or len(kb.args) != len(k.args):
        return None
    found = None
    for x, y in zip(kb.args, k.args):
        if x is y or x == y:
            continue
        if x is idx:
            m = y
        elif isinstance(x, T) and isinstance(y, T):
            m = match_key(x, y, idx)
        else:
            return None
        if m is None or (found is not None and found is not m):
            return None
        found = m
    return found


def contains_(c, x):
    """x in c"""
    if c.op == 'tup':
        return or_(*[eq(e, x) for e in c.args])
    if c.op == 'dict':
        return or_(*[eq(e, x) for e in c.args[::2]])
    if c.op == 'setof':
        return contains_(c.args[0], x)
    if c.op == 'setadd' or c.op == 'setunion':
        return or_(contains_(c.args[0], x), *[
            eq(e, x) if c.op == 'setadd' else contains_(e, x)
            for e in c.args[1:]])
    if c.op == 'setdrop':
        return and_(not_(eq(c.args[1], x)), contains_(c.args[0], x))
    if c.op == 'keys':
        return contains_(c.args[0], x)
    if c.op == 'values' and c.args[0].op == 'dict' and len(set(
            c.args[0].args[::2])) * 2 == len(c.args[0].args):
        return or_(*[eq(e, x) for e in c.args[0].args[1::2]])
    if c.op == 'dset':
        return or_(eq(c.args[1], x), contains_(c.args[0], x))
    if c.op == 'ddel':
        return and_(not_(eq(c.args[1], x)), contains_(c.args[0], x))
    if c.op == 'const' and x.op == 'const' and isinstance(
            cval(c), str) and isinstance(cval(x), str):
        return const(cval(x) in cval(c))
    return mk('in', x, c)


def fmt_parts(parts):
    """Concatenation of string parts."""
    out = []
    for p in parts:
        ps = p.args if p.op == 'concat' else (p, )
        for q in ps:
            if q.op == 'const':
                q = const(str(q.args[0]))
                if q.args[0] == '':
                    continue
                if out and out[-1].op == 'const':
                    out[-1] = const(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and kind_of(out[0]) == 'str':
        return out[0]
    return mk('concat', *out)


def do_format(tpl, args, kw):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(tpl):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if spec or conv:
                return None
            if field == '':
                parts.append(args[auto])
                auto += 1
            elif field.isdigit():
                parts.append(args[int(field)])
            elif field in kw:
                parts.append(kw[field])
            else:
                return None
    except Exception:
        return None
    return fmt_parts(parts)


def arith(op, a, b):
    if op is ast.Add:
        if kind_of(a) == 'str' or kind_of(b) == 'str' or \
                'concat' in (a.op, b.op):
            return fmt_parts([a, b])
        return add(a, b)
    if op is ast.Sub:
        return sub(a, b)
    if op is ast.Mult:
        return mul(a, b)
    if op is ast.Div:
        return div(a, b)
    if op is ast.Pow:
        return mk('pow', a, b)
    if op is ast.MatMult:
        return mk('matmul', a, b)
    if op is ast.FloorDiv:
        if is_num(a) and is_num(b) and cval(b):
            return const(cval(a) // cval(b))
        return mk('floordiv', a, b)
    if op is ast.Mod:
        if is_num(a) and is_num(b) and cval(b):
            return const(cval(a) % cval(b))
        return mk('mod', a, b)
    if op is ast.BitAnd:
        if S.is_boolish(a) or S.is_boolish(b):
            return and_(a, b)
        return mk('bitand', a, b)
    if op is ast.BitOr:
        if S.is_boolish(a) or S.is_boolish(b):
            return or_(a, b)
        return mk('bitor', a, b)
    return mk('binop', op.__name__, a, b)


def same(a, b):
    """a is b; unlike a comparison, identity with True or False does not
    hold for numbers."""
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and isinstance(x.args[0], bool) and \
                y.op not in ('const', 'eq', 'lt', 'not', 'and', 'or',
                             'isinst') and kind_of(y) != 'bool':
            return mk('is', y, x)
    return eq(a, b)


def _is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _stored_names(s):
    return [n.id for n in ast.walk(s)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]


def _stored_in(body):
    out = []
    for s in body:
        out.extend(_stored_names(s))
    return out
