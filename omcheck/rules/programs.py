"""C21 over whole programs: declarations, definitions and registrations of a
group are made one after the other, and the wrapped setup is evaluated on the
graph they leave.  The order of the components that are added is compared
with what the program says."""
import random
import time
from .common import *
from ..history import History, wrapped
from ..interp import Dead
from ..terms import NONE
from ..om import Model
from ..program import AnalysisError, Endless
from ..sites import P
from ..terms import mk, const, is_const, cval
from .implicit import Elaborating
from .traversal import api_class, must

SH = mk('tup', const(2))


def cyclic(before):
    state = {}

    def visit(x):
        if state.get(x) == 1:
            return True
        if x in state:
            return False
        state[x] = 1
        r = any(visit(y) for y in before.get(x, ()))
        state[x] = 2
        return r
    return any(visit(x) for x in list(before))


def below(before, x):
    s, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y not in s:
            s.add(y)
            todo.extend(before[y])
    return s


def defined(before, o, e):
    """The relation once o is defined by e: inputs stand for o in its own
    definition.  None if the program is cyclic in another way."""
    b = dict(before)
    for y in below({**before, o: set()}, e):
        if o in b[y]:
            if y.startswith('s'):
                return None
            b[y] = b[y] - {o}
    b[o] = {e}
    return None if cyclic(b) else b


class Program(object):
    """Statements: ('in', x, name) ('indep', x) ('expr', x, deps)
    ('reg', x) ('out', x) ('def', x, e) ('sub', x)."""

    def __init__(self):
        self.stmts = []
        self.kind = {}
        self.before = {}    # direct requirements
        self.roots = []
        self.sub = None

    def __str__(self):
        f = {'in': '%s = input %s', 'indep': '%s = independent',
             'expr': '%s = f(%s)', 'reg': 'register %s', 'out': '%s = output',
             'def': '%s := %s', 'sub': 'subsystem %s'}
        return '; '.join(f[s[0]] % tuple(
            ','.join(x) if isinstance(x, tuple) else x for x in s[1:])
            for s in self.stmts)

    def add(self, *s):
        k, x = s[:2]
        b = self.before
        if k == 'def':
            r = defined(b, x, s[2])
            if r is None:
                return False
            self.before = r
        elif k == 'in':
            b[x] = {self.sub} if self.sub else set()
        elif k == 'expr':
            b[x] = set(s[2])
        elif k == 'sub':
            b[x] = set(self.roots)
            self.sub = x
        elif k != 'reg':
            b[x] = set()
        if k in ('indep', 'reg', 'out', 'sub'):
            self.roots.append(x)
        self.kind.setdefault(x, k)
        self.stmts.append(s)
        return True

    def expected(self):
        """What is added, and what must have been added before it."""
        need = set()
        for x in self.roots:
            need |= below(self.before, x)
        added = [x for x in sorted(need) if self.kind[x] != 'in']
        first = {x for x in added if self.kind[x] == 'indep'}
        after = {}
        for x in added:
            s = below(self.before, x) - {x}
            if x not in first:
                s |= first
            after[x] = {y for y in s if self.kind[y] != 'in'}
        return added, after


def generate(rng):
    """One valid program without mutual cycles."""
    p = Program()
    pool, exprs, undefined, regs = [], [], [], []

    def definition():
        o = rng.choice(undefined)
        for e in rng.sample(exprs, len(exprs)):
            if p.add('def', o, e):
                undefined.remove(o)
                return True
        return False

    def expression(d):
        x = 'e%d' % len(p.stmts)
        p.add('expr', x, tuple(d))
        pool.append(x)
        exprs.append(x)
    for _ in range(rng.randint(5, 11)):
        c = rng.choices(('in', 'indep', 'expr', 'reg', 'out', 'def', 'sub'),
                        (2, 1, 7, 3, 1, 2, 1))[0]
        if c == 'expr' and not pool:
            c = 'in'
        if c in ('in', 'indep', 'out', 'sub'):
            x = {'in': 'x', 'indep': 'u', 'out': 'o', 'sub': 's'}[c] + str(
                len(p.stmts))
            if c == 'in':
                # sometimes one that is declared already
                y = rng.choice([s[2] for s in p.stmts if s[0] == 'in']
                               or [x])
                p.add(c, x, y if rng.random() < 0.4 else x)
            else:
                p.add(c, x)
            if c != 'sub':
                pool.append(x)
            if c == 'out':
                undefined.append(x)
        elif c == 'expr':
            expression(rng.sample(pool, min(len(pool), rng.choice(
                (1, 1, 2, 2, 3)))))
        elif c == 'reg':
            f = [x for x in exprs if x not in regs]
            if f:
                regs.append(rng.choice(f))
                p.add('reg', regs[-1])
        elif c == 'def' and undefined and exprs:
            definition()
    if not exprs:
        if not pool:
            p.add('in', 'x', 'x')
            pool.append('x')
        expression(pool[-1:])
    while undefined:
        if not definition():
            return None
    if exprs[-1] not in regs:
        p.add('reg', exprs[-1])
    return p


def large():
    """Programs with many statements of one kind."""
    def expr(n, *deps):
        return ('expr', 'e%d' % n, deps)
    x = ('in', 'x0', 'x0')
    # registered expressions before and after a subsystem
    many = (x, ) + tuple(s for i in range(1, 35) for s in (
        expr(i, 'x0'), ('reg', 'e%d' % i)))
    yield many + (('sub', 's90'), ('in', 'x91', 'x91'),
                  expr(92, 'x91', 'e1', 'e34'), ('reg', 'e92'))
    # independent variables, some of them used
    many = tuple(('indep', 'u%d' % i) for i in range(1, 21))
    yield many[:12] + (x, expr(30, 'u1', 'u12', 'x0'), ('reg', 'e30')
                       ) + many[12:] + (expr(31, 'u20', 'e30'),
                                        ('reg', 'e31'), ('sub', 's90'))
    # inputs and one expression of all of them
    many = tuple(('in', 'x%d' % i, 'x%d' % i) for i in range(1, 20))
    yield many + (expr(30, *['x%d' % i for i in range(1, 20)]),
                  expr(31, 'e30', 'x3', 'x19'), ('reg', 'e31'))
    # a long chain, each expression of the two before
    yield (x, expr(1, 'x0'), expr(2, 'e1', 'x0')) + tuple(
        expr(i, 'e%d' % (i - 1), 'e%d' % (i - 2)) for i in range(3, 30)) + (
            ('reg', 'e29'), ('reg', 'e4'), ('reg', 'e17'))
    # subsystems, each followed by an expression of what it computes
    yield (x, ) + tuple(s for i in range(1, 9) for s in (
        ('sub', 's%d' % (10 * i)), ('in', 'x%d' % (10 * i + 1),
                                    'x%d' % (10 * i + 1)),
        expr(10 * i + 2, 'x%d' % (10 * i + 1), 'x0'),
        ('reg', 'e%d' % (10 * i + 2))))
    # outputs defined in the end, in another order
    yield (x, ) + tuple(('out', 'o%d' % i) for i in range(1, 13)) + tuple(
        s for i in range(12, 0, -1) for s in (
            expr(20 + i, *(['x0'] + ['o%d' % j for j in range(1, i, 3)])),
            ('def', 'o%d' % i, 'e%d' % (20 + i))))


def written():
    """Programs that are seldom generated."""
    x, e, r = ('in', 'x0', 'x0'), ('expr', 'e8', ('x0', )), ('reg', 'e8')
    again = ('in', 'x3', 'x0')
    late = ('expr', 'e9', ('x3', )), ('reg', 'e9')
    both = ('expr', 'e9', ('x0', 'x3')), ('reg', 'e9')
    for stmts in (
            # independent variables that nothing uses
            (('indep', 'u1'), ),
            (('indep', 'u3'), ),
            (('indep', 'u1'), x, e, r),
            (x, e, r, ('indep', 'u1'), ('indep', 'u2')),
            (('sub', 's5'), ('indep', 'u1')),
            (('indep', 'u1'), ('sub', 's5'), ('indep', 'u2')),
            (('indep', 'u1'), ('indep', 'u2'), ('expr', 'e9', ('u2', )),
             ('reg', 'e9')),
            # inputs declared again
            (x, ('sub', 's5'), again) + late,
            (x, ('sub', 's5'), again) + both,
            (x, e, r, ('sub', 's5'), again) + late,
            (x, e, r, ('sub', 's5'), again) + both,
            (('sub', 's4'), x, e, r, ('sub', 's5'), again) + late,
            (x, again, ('sub', 's5'), ('in', 'x6', 'x0'), ('expr', 'e9', (
                'x6', 'x3')), ('reg', 'e9')),
            (('sub', 's5'), x, again) + late,
            (('sub', 's5'), x, again) + both,
            (('sub', 's5'), x, e, r, again) + late,
            (('sub', 's5'), x, ('sub', 's2'), again) + late,
            # outputs far inside their own definitions
            (x, ('in', 'x1', 'x1'), ('out', 'o2'), ('expr', 'e3', ('o2', )),
             ('expr', 'e8', ('x0', 'x1', 'e3', 'x0')), ('def', 'o2', 'e8')),
            (x, ('out', 'o2'), ('expr', 'e3', ('o2', )),
             ('expr', 'e4', ('x0', 'e3')), ('expr', 'e5', ('e4', 'e3')),
             ('expr', 'e6', ('x0', 'e5', 'e4', 'e3')),
             ('expr', 'e8', ('e6', 'x0', 'e5', 'e4', 'o2')),
             ('def', 'o2', 'e8'), r),
            (x, ('out', 'o2'), ('out', 'o1'), ('expr', 'e3', ('o2', )),
             ('expr', 'e4', ('o1', 'x0')), ('expr', 'e5', ('x0', 'e4', 'e3')),
             ('def', 'o1', 'e4'), ('def', 'o2', 'e5')),
            # subsystems one after another
            (('sub', 's1'), ('sub', 's2'), ('sub', 's3')),
            (x, e, r, ('sub', 's1'), ('sub', 's2'), again) + both,
    ) + tuple(large()):
        p = Program()
        for s in stmts:
            p.add(*s)
        yield p


def programs(tier):
    rng = random.Random(7)
    out = list(written())
    seen = set(str(p) for p in out)
    n = 101 if tier == 'quick' else 600
    while len(out) < n:
        p = generate(rng)
        if p is not None and str(p) not in seen:
            seen.add(str(p))
            out.append(p)
    return out


def designed(x):
    """Whether independent variable x is a design variable."""
    return int(x[1:]) % 3 > 0


class Built(object):
    """One program, built and set up abstractly.

    prefix: how many statements are executed before the setup of the group
    (all of them if None), the others are executed in it; times: how often
    the group is set up."""

    def __init__(self, w, p, prefix=None, times=1):
        self.prefix = len(p.stmts) if prefix is None else prefix
        self.times = times
        self.failed = None
        self.h = h = History(w)
        self.w, self.it = w, h.it
        self.objs = {}
        it = h.it
        elab = w.el if hasattr(w, 'el') else w.elab
        with Elaborating(elab, Model()):
            saved = it.turns, it.nested, dict(it.handlers)
            it.turns, it.nested, it.endless = 2000, 40, True
            it.handlers['unknown_call'] = self.user_setup
            try:
                self.build(p)
            finally:
                it.turns, it.nested = saved[:2]
                it.endless = False
                it.handlers.clear()
                it.handlers.update(saved[2])

    def build(self, p):
        h = self.h
        c = api_class(self.w, 'Group')
        # objects are numbered from one on
        h.st.set(h.it.binding(self.w.variable, h.st), '_count', const(0))
        self.g = must(h.new(c), 'the constructor')
        self.user, f, self.where = wrapped(h, self.w, c)
        self.statements(p.stmts[:self.prefix])
        self.rest = p.stmts[self.prefix:]
        for _ in range(self.times):
            n = len(h.st.effects)
            self.step = h.run(lambda: h.it.call_value(
                f, [self.g], {}, h.st, h.node))
            if self.failed is not None:
                raise AnalysisError(self.failed)
            if self.step.dead:
                break
        self.effects = h.st.effects[n:]

    def user_setup(self, it, f, args, kwargs, st, node):
        if f is not self.user:
            return None
        saved, self.h.st = self.h.st, st
        try:
            self.statements(self.rest)
        except AnalysisError as e:
            self.failed = str(e)
        finally:
            self.h.st = saved
        if self.failed is not None:
            raise Dead()
        return NONE

    def statements(self, stmts):
        h, g = self.h, self.g
        for s in stmts:
            k, x = s[:2]
            if k == 'expr':
                t = must(h.new(self.w.variable), 'Variable')
                h.st.set(t, 'name', const(x))
                h.st.set(t, 'shape', SH)
                h.st.set(t, 'build', P('build_' + x, 'callable'))
                for d in s[2]:
                    must(h.call(t, 'add_dependency_node', self.objs[d]),
                         'add_dependency_node')
            elif k == 'reg':
                must(h.call(g, 'register_output', const(x), self.objs[x]),
                     'register_output')
                continue
            elif k == 'def':
                must(h.call(self.objs[x], 'define', self.objs[s[2]]),
                     'define')
                continue
            elif k == 'sub':
                must(h.call(g, 'add_subsystem', const(x),
                            P(x, 'system')), 'add_subsystem')
                continue
            else:
                a = {'in': 'declare_input', 'indep': 'create_indep_var',
                     'out': 'create_output'}[k]
                t = must(h.call(g, a, const(s[-1]), shape=SH,
                                val=P('val_' + x, 'ndarray'), **(
                                    {'dv': const(designed(x))}
                                    if k == 'indep' else {})), a)
            self.objs[x] = t


def name_of(t):
    """The name a component is added under, without the prefix."""
    if t.op == 'concat':
        t = t.args[-1]
    if not is_const(t) or not isinstance(cval(t), str):
        return None
    n = cval(t)
    return n[5:] if n.startswith('comp_') else n


def added(b, p):
    """The names of what is added, in order; None and why: not decided."""
    r = []
    for e in b.effects:
        if e.kind == 'recursion':
            return None, 'recursion'
        if e.kind != 'extcall' or not e.args[0].endswith(
                'Group.add_subsystem'):
            continue
        if e.guard or e.loops:
            return None, 'conditional components'
        a, kw = e.args[1], dict(e.args[2])
        t = a[1] if len(a) > 1 else kw.get('name')
        n = name_of(t) if t is not None else None
        if n not in p.kind:
            return None, 'name of a component: %s' % t
        r.append(n)
    return r, None


def differs(got, p):
    """What is wrong with the order, None: nothing."""
    need, after = p.expected()
    for x in need:
        if x not in got:
            return '%s is not added' % x
    for x in got:
        if got.count(x) > 1:
            return '%s is added %d times' % (x, got.count(x))
    seen = set()
    for x in got:
        for y in sorted(after.get(x, ())):
            if y not in seen:
                return '%s is added before %s, which it needs' % (x, y) \
                    if y in below(p.before, x) else \
                    '%s is added before the independent variable %s' % (x, y)
        seen.add(x)
    for x in got:
        if x not in need and p.kind[x] != 'expr':
            return '%s is added, but nothing needs it' % x
    return None


def design_variables(b):
    """The names of the design variables, None: not decided."""
    r = []
    for e in b.effects:
        if e.kind == 'method' and e.args[1] == 'add_design_var':
            a, kw = e.args[-2], dict(e.args[-1])
            t = a[0] if a else kw.get('name')
        elif e.kind == 'extcall' and str(e.args[0]).endswith(
                'add_design_var'):
            a, kw = e.args[1], dict(e.args[2])
            t = a[1] if len(a) > 1 else kw.get('name')
        else:
            continue
        if e.guard or e.loops or not is_const(t):
            return None
        r.append(cval(t))
    return r


def rule_design(ctx, rep):
    """The design variables of a model are those declared."""
    rule = 'design-variables-of-programs'
    for p in programs(ctx.tier):
        names = [s[1] for s in p.stmts if s[0] == 'indep']
        if not names:
            continue
        inst = str(p)
        if time.time() > ctx.deadline:
            rep.und(rule, inst, 'out of time')
            continue
        try:
            b = Built(ctx.world, p)
        except AnalysisError as e:
            rep.und(rule, inst, str(e))
            continue
        got = None if b.step.dead else design_variables(b)
        if got is None:
            rep.und(rule, inst, 'the setup is not decided')
            continue
        want = sorted(x for x in names if designed(x))
        rep.verdict(sorted(got) == want, rule, b.where, inst,
                    'the design variables are %s instead of %s' % (
                        ', '.join(got) or 'none', ', '.join(want) or 'none'))


def rule_programs(ctx, rep):
    for i, p in enumerate(programs(ctx.tier)):
        in_order(ctx, rep, 'programs-in-order', p,
                 prefix=None if i % 4 else 0)


def rule_programs_again(ctx, rep):
    """The same when the group is set up a second time."""
    for i, p in enumerate(programs(ctx.tier)):
        in_order(ctx, rep, 'programs-in-order-again', p, times=2,
                 prefix=(0, None, 0, part(p))[i % 4])


def part(p):
    """Half of the statements; all definitions of outputs of the first half
    belong to it."""
    n = len(p.stmts) // 2
    first = {s[1] for s in p.stmts[:n] if s[0] == 'out'}
    while any(s[0] == 'def' and s[1] in first for s in p.stmts[n:]):
        n += 1
    return n


def in_order(ctx, rep, rule, p, **how):
    inst = str(p)
    if time.time() > ctx.deadline:
        rep.und(rule, inst, 'out of time')
        return
    try:
        b = Built(ctx.world, p, **how)
    except Endless as e:
        if e.conditional:
            rep.und(rule, inst, str(e))
        else:
            rep.bad(rule, e.where, inst, 'the model cannot be built: '
                    '%s' % e)
        return
    except AnalysisError as e:
        rep.und(rule, inst, str(e))
        return
    if b.step.dead:
        pre = set(b.step.pre)
        r = [(n, at) for facts, n, at, loops in b.step.raises
             if not loops and set(facts) <= pre]
        if r:
            rep.bad(rule, r[0][1], inst, 'the model cannot be built: '
                    '%s is raised' % r[0][0])
        else:
            rep.und(rule, inst, 'the setup does not return')
        return
    got, why = added(b, p)
    if got is None:
        rep.und(rule, inst, why)
        return
    m = differs(got, p)
    if m is None:
        rep.ok(rule, inst, ', '.join(got))
    else:
        rep.bad(rule, b.where, inst, '%s (order: %s)' % (
            m, ', '.join(got) or 'nothing'))


RULES = [rule_programs]
RULES34 = [rule_programs_again]
