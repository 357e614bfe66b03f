"""Model of OpenMDAO components: what a component declares, computes and
differentiates, extracted from its source for one build site."""
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, opaque,
                    subst, contains, subterms, key)
from . import smart as S
from .smart import not_, and_, or_, ite, eq, assume, kind_of
from .interp import Interp, State, Activation, Dead, Budget, UNDEF, forall
from .program import Class, Func, AnalysisError
from . import interp as I

EXPLICIT = 'openmdao.api.ExplicitComponent'
IMPLICIT = 'openmdao.api.ImplicitComponent'
GROUP = 'openmdao.api.Group'

OMBASES = (EXPLICIT, IMPLICIT, GROUP, 'openmdao.api.Component',
           'openmdao.api.IndepVarComp', 'openmdao.api.Problem')

INPUTS = mk('special', 'inputs')
OUTPUTS = mk('special', 'outputs')
PARTIALS = mk('special', 'partials')
VECTORS = (INPUTS, OUTPUTS, PARTIALS)

S.NO_DISTRIBUTE = True


class Decl(object):
    """One add_input/add_output/declare_partials call."""

    def __init__(self, kind, args, guard, loops, where, facts):
        self.kind = kind
        self.args = args            # name -> term
        self.guard = guard
        self.loops = loops
        self.where = where
        self.facts = facts

    def __repr__(self):
        return '%s(%s)%s%s' % (self.kind, ', '.join(
            '%s=%r' % kv for kv in sorted(self.args.items())),
            ' if %r' % (self.guard, ) if self.guard else '',
            ' for %r' % (self.loops, ) if self.loops else '')


def given_either_way(d, name):
    if d.op == 'dict' and all(is_const(x) for x in d.args[::2]):
        return dict(zip([cval(x) for x in d.args[::2]], d.args[1::2]))
    if d.op == 'ite':
        x, y = [given_either_way(z, name) for z in d.args[1:]]
        if name not in x and name not in y:
            return {k: ite(d.args[0], x.get(k, NONE), y.get(k, NONE))
                    for k in sorted(set(x) | set(y))}
    return {name: d}


ARGNAMES = {
    'add_input': ('name', 'val', 'shape', 'src_indices', 'flat_src_indices',
                  'units', 'desc'),
    'add_output': ('name', 'val', 'shape', 'units', 'res_units', 'desc',
                   'lower', 'upper', 'ref'),
    'declare_partials': ('of', 'wrt', 'dependent', 'rows', 'cols', 'val',
                         'method', 'step'),
    'declare_coloring': (), 'set_check_partial_options': (),
    'add_discrete_input': ('name', 'val'),
    'add_discrete_output': ('name', 'val'),
}


class Model(object):
    """What was extracted for one component instance."""

    def __init__(self):
        self.cls = None
        self.options = {}        # declared: name -> (default, types)
        self.kwargs = {}
        self.decls = []
        self.forward = {}        # name term -> value
        self.partials = {}       # (of, wrt) tup term -> value
        self.compute_effects = []
        self.partials_effects = []
        self.setup_raises = []
        self.compute_raises = []
        self.option_reads = []
        self.notes = []
        self.fwd_state = None
        self.par_state = None
        self.par_reads_attrs = []
        self.missing_options = []
        self.facts = ()

    def inputs(self):
        return [d for d in self.decls if d.kind == 'add_input']

    def outputs(self):
        return [d for d in self.decls if d.kind == 'add_output']

    def declared(self):
        return [d for d in self.decls if d.kind == 'declare_partials']


def is_component(cls):
    return isinstance(cls, Class) and any(
        b in OMBASES or b.startswith('openmdao.') for b in cls.ext_bases())


class Elaborator(object):
    """Installs the component handlers in an interpreter."""

    def __init__(self, interp):
        self.it = interp
        self.cur = None            # Model being elaborated
        self.reads = None
        interp.handlers.update({
            'new': self.h_new, 'getattr': self.h_getattr,
            'getitem': self.h_getitem, 'setitem': self.h_setitem,
            'call_method': self.h_call_method,
        })
        self.options = {}          # component obj -> {name: term}

    # ------------------------------------------------------------ handlers
    def h_new(self, it, cls, args, kwargs, st, node):
        if not is_component(cls):
            return None
        if cls.find('__init__') is not None:
            return None
        o = it.alloc(st, cls, node)
        kw = mk('dict', *[x for k, v in kwargs.items()
                          for x in (const(k), v)])
        st.heap[o]['$kwargs'] = kw
        st.heap[o]['$args'] = mk('tup', *args)
        it.eff(st, 'newcomp', (o, cls.qual), node)
        return o

    def h_getattr(self, it, b, name, st, node):
        if b.op == 'obj' and name == 'options' and is_component(
                it.obj_class.get(b)):
            v = st.get(b, name)
            return v if v is not None else mk('opts', b)
        if b in VECTORS:
            return mk('extm', b, name)
        if b.op == 'opts':
            return mk('extm', b, name)
        return None

    def option(self, it, o, k, st, node):
        m = self.cur
        if is_const(k):
            n = cval(k)
            if m is not None:
                m.option_reads.append((n, it.where(node)))
            kw = st.get(o, '$kwargs')
            d = I.dget(kw, k) if kw is not None else None
            set_ = st.get(mk('opts', o), n)
            if set_ is not None:
                return set_
            if d is not None and d.op != 'dget':
                return d
            if m is not None and n in m.options:
                df = m.options[n].get('default')
                if df is not None:
                    return df
                m.missing_options.append((n, it.where(node), 'required'))
                return opaque('unset option', n)
            if m is not None:
                m.missing_options.append((n, it.where(node), 'undeclared'))
            return opaque('undeclared option', n)
        return opaque('option', k)

    def h_getitem(self, it, b, k, st, node):
        if b.op == 'opts':
            return self.option(it, b.args[0], it.pure(st, k), st, node)
        if b is INPUTS:
            k = it.pure(st, k)
            v = st.get(b, k)
            if v is not None:
                return v
            return mk('input', k)
        if b in (OUTPUTS, PARTIALS):
            k = it.pure(st, k)
            v = st.get(b, k)
            if v is None and b is PARTIALS and k.op == 'tup':
                v = None
            if v is not None:
                return mk('inslot', b, k, v) if is_const(v) else v
            # another slot that may be the same one?
            for k2 in st.heap.get(b, {}):
                if isinstance(k2, T) and eq(k2, k) is not FALSE:
                    return opaque('slot', b, k)
            return mk('initial', b, k)
        return None

    def h_setitem(self, it, b, k, v, st, node, aug):
        if b in (OUTPUTS, PARTIALS):
            k = it.pure(st, k)
            st.set(b, k, it.pure(st, v))
            it.eff(st, 'slot', (b, k), node)
            return True
        if b is INPUTS:
            it.eff(st, 'mutate', (b, 'item assignment'), node)
            return True
        if b.op == 'opts':
            k = it.pure(st, k)
            if is_const(k):
                st.set(b, cval(k), v)
            it.eff(st, 'mutate', (b, 'option assignment'), node)
            return True
        return False

    def h_call_method(self, it, b, name, args, kwargs, st, node):
        if b.op == 'opts':
            o = b.args[0]
            if name == 'declare' and args:
                d = {}
                names = ('name', 'default', 'values', 'types', 'desc')
                for n, v in zip(names, args):
                    d[n] = v
                d.update(kwargs)
                if self.cur is not None and is_const(it.pure(
                        st, d['name'])):
                    self.cur.options[cval(d['name'])] = {
                        k: it.pure(st, v) for k, v in d.items()}
                    self.cur.options[cval(d['name'])]['$where'] = it.where(
                        node)
                return NONE
            if name == 'update':
                return NONE
            return opaque('options.' + name)
        if b.op == 'obj' and is_component(it.obj_class.get(b)):
            if name in ARGNAMES:
                a = {}
                for n, v in zip(ARGNAMES[name], args):
                    a[n] = it.pure(st, v)
                for k, v in kwargs.items():
                    if k == '**':
                        # not given counts as None
                        a.update(given_either_way(it.pure(st, v), k))
                    else:
                        a[k] = it.pure(st, v)
                if self.cur is not None:
                    it.eff(st, 'decl', (name, tuple(sorted(a.items()))),
                           node)
                return NONE
        if b in VECTORS:
            if name in ('keys', 'items', 'values'):
                return opaque('vector.' + name)
            return opaque('vector.' + name)
        if b.op == 'extm' and b.args[1].startswith('super.'):
            return NONE
        return None

    # ---------------------------------------------------------- elaborate
    def run_method(self, o, cls, name, args, st):
        f = cls.find(name)
        if f is None:
            return None
        try:
            self.it.call_func(f, args, {}, st, f.node, selfterm=o, cls=None)
        except Dead:
            return False
        return True

    def elaborate(self, o, st, parts=('setup', 'compute',
                                      'compute_partials'), epoch='build',
                  again=None):
        """Model of the component object o, in a copy of state st; again: its
        model, when it has been set up in that state."""
        it = self.it
        m = Model()
        cls = it.obj_class[o]
        m.cls = cls
        m.facts = st.facts
        saved, self.cur = self.cur, m
        savedlog, it.raise_log = it.raise_log, []
        it.stack.append(Activation(None, mk('frame', it.fresh()),
                                   cls.module))
        try:
            s = st.fork()
            s.epoch = epoch
            s.effects = []
            kw = s.get(o, '$kwargs')
            m.kwargs = dict(zip([cval(k) for k in kw.args[::2]],
                                [it.pure(s, v) for v in kw.args[1::2]])
                            ) if kw is not None and kw.op == 'dict' else {}
            if again is None:
                self.run_method(o, cls, 'initialize', [], s)
            else:
                m.options = again.options
                m.decls = again.decls
                m.setup_ok = again.setup_ok
            s.effects = []
            raw = dict(zip([cval(k) for k in kw.args[::2]], kw.args[1::2])
                       ) if kw is not None and kw.op == 'dict' else {}
            for n, d in m.options.items() if again is None else ():
                v = raw.get(n, d.get('default'))
                if v is not None:
                    s.set(mk('opts', o), n, v)
            it.raise_log = []
            if 'setup' in parts:
                m.setup_ok = self.run_method(o, cls, 'setup', [], s)
                m.setup_raises = list(it.raise_log)
                m.setup_effects = s.effects
                for e in s.effects:
                    if e.kind == 'decl':
                        nm, a = e.args
                        m.decls.append(Decl(nm, dict(a), e.guard, e.loops,
                                            e.where, e.facts))
            base = s
            m.setup_state = base
            if 'compute' in parts:
                f = base.fork()
                f.effects = []
                it.raise_log = []
                m.compute_ok = self.run_method(o, cls, 'compute',
                                               [INPUTS, OUTPUTS], f)
                m.compute_raises = list(it.raise_log)
                m.compute_effects = f.effects
                m.fwd_state = f
                m.forward = {k: v for k, v in f.heap.get(
                    OUTPUTS, {}).items()}
            if 'compute_partials' in parts:
                f = base.fork()
                f.effects = []
                it.raise_log = []
                m.partials_ok = self.run_method(
                    o, cls, 'compute_partials', [INPUTS, PARTIALS], f)
                m.partials_raises = list(it.raise_log)
                m.partials_effects = f.effects
                m.par_state = f
                m.partials = {k: v for k, v in f.heap.get(
                    PARTIALS, {}).items()}
        finally:
            it.stack.pop()
            self.cur = saved
            it.raise_log = savedlog
        return m
