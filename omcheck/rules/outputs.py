"""C22: histories of definitions, assignments and registrations of outputs."""
import itertools
from .common import *
from ..history import History
from ..sites import P
from ..program import AnalysisError
from .. import arrays                                       # noqa: evaluators
from ..evalu import Unknown, Fails, Obj, ev, truthv
from .shapes import raised, reach

SHAPES = ((1, ), (2, ), (3, ), (2, 2), (2, 3), (3, 2), (1, 3))
SY = P('sy', 'shape')


def SE(n):
    return P('s%d' % n, 'shape')


def bind(**kw):
    env = {'$arrays': True, '$memo': {}}
    return env


class Scene(object):
    """A history in a new group."""

    def __init__(self, ctx):
        w = ctx.world
        g = w.p.lookup(w.api, 'Group')
        if g is None:
            raise AnalysisError('omtools.api.Group not found')
        self.w = w
        self.h = History(w)
        self.steps = []
        self.g = self.do(self.h.new(g))
        self.n = 0

    def do(self, step):
        self.steps.append(step)
        return step.value

    def output(self, name='y', shape=SY, kind='create_output'):
        return self.do(self.h.call(self.g, kind, const(name), shape=shape))

    def input(self, n):
        return self.do(self.h.call(self.g, 'declare_input',
                                   const('e%d' % n), shape=SE(n)))

    def expr(self, n):
        """An expression that is not an input."""
        return self.do(self.h.new(self.w.variable, shape=SE(n)))

    def last(self):
        return self.steps[-1]


def undecided(step, env):
    """Why the conditions of a step are not decided."""
    for facts, exc, where, loops in step.raises:
        for c, v in facts:
            try:
                if truthv(ev(c, env)) != v:
                    break
            except Unknown as e:
                return 'condition: %s' % e
            except Fails:
                break
    return 'condition'


def step_raises(step, env):
    """(True, where), (False, None) or (None, None)."""
    if step.dead:
        for facts, exc, where, loops in step.raises:
            return True, where
        return True, None
    return raised(step.raises, env)


def before_ok(steps, env):
    """All the steps return."""
    for s in steps:
        r = step_raises(s, env)[0]
        if r is not False:
            return r
    return False


class Verdict(object):
    def __init__(self, rep, rule, name, where):
        self.rep, self.rule, self.name, self.where = rep, rule, name, where
        self.n = 0
        self.und = None
        self.fail = None

    def note(self, r, msg='', where=None):
        if r is True:
            self.n += 1
        elif r is None:
            self.und = self.und or msg or 'not decided'
        elif self.fail is None:
            self.fail = msg, where

    def done(self):
        if self.fail:
            self.rep.bad(self.rule, self.fail[1] or self.where, self.name,
                         self.fail[0])
        elif self.und or not self.n:
            self.rep.und(self.rule, self.name, self.und or
                         'no assignment reaches it')
        else:
            self.rep.ok(self.rule, self.name)
            self.rep.notes['assignments'] = self.rep.notes.get(
                'assignments', 0) + self.n


def shape_env(**kw):
    env = {'$arrays': True, '$memo': {}}
    for k, v in kw.items():
        env[P(k, 'shape')] = v
    return env


def where_of(sc, o, name):
    c = sc.h.it.obj_class.get(o)
    f = c.find(name) if c is not None and hasattr(c, 'find') else None
    return (f.module.path, f.node.lineno) if f is not None else (
        'omtools/core/group.py', 1)


def last_verdict(rep, rule, name, sc, where, envs, want, text):
    """The last step of the scene raises exactly when want(env values)."""
    v = Verdict(rep, rule, name, where)
    st = sc.last()
    for vals in envs:
        w = want(vals)
        if w is None:
            continue
        env = shape_env(**vals)
        b = before_ok(sc.steps[:-1], env)
        if b is None:
            v.note(None, 'an earlier step')
            continue
        if b is True:
            continue
        r, loc = step_raises(st, env)
        if r is None:
            v.note(None, undecided(st, env))
        elif r == w:
            v.note(True)
        else:
            v.note(False, '%s %s (%s)' % (
                text, 'is refused' if r else 'is accepted',
                ', '.join('%s=%s' % kv for kv in sorted(vals.items()))
                or 'always'), loc)
    v.done()


def combos(*names):
    for c in itertools.product(SHAPES, repeat=len(names)):
        yield dict(zip(names, c))


ONE = mk('sl', const(0), const(1), NONE)
REST = mk('sl', const(1), NONE, NONE)


# ------------------------------------------------------------------- rules
def rule_explicit(ctx, rep):
    """Sequences of whole and indexed definitions of an explicit output."""
    rule = 'explicit-output-defined-once'

    def scene(*acts):
        """acts: 'self', ('whole', n), ('index', key, n)"""
        sc = Scene(ctx)
        y = sc.output()
        exprs = {}
        for a in acts:
            if a != 'self':
                exprs.setdefault(a[-1], None)
        for n in sorted(exprs):
            exprs[n] = sc.expr(n)
        for a in acts:
            if a == 'self':
                sc.do(sc.h.call(y, 'define', y))
            elif a[0] == 'whole':
                sc.do(sc.h.call(y, 'define', exprs[a[1]]))
            else:
                sc.do(sc.h.setitem(y, a[1], exprs[a[2]]))
        return sc, y
    eq1 = lambda v: v['sy'] != v['s1']

    def go(name, acts, names, want, text, fn='define'):
        sc, y = scene(*acts)
        last_verdict(rep, rule, name, sc, where_of(sc, y, fn),
                     list(combos(*names)), want, text)
    go('defined by an expression', [('whole', 1)], ['sy', 's1'], eq1,
       'the definition of an output by an expression')
    go('defined by itself', ['self'], ['sy'], lambda v: True,
       'the definition of an output by itself')
    for nm, a in (('another expression', ('whole', 2)),
                  ('the same expression', ('whole', 1)), ('itself', 'self')):
        names = ['sy', 's1'] + (['s2'] if a == ('whole', 2) else [])
        go('defined, then defined by ' + nm, [('whole', 1), a], names,
           lambda v: True, 'a second definition of an output')
    go('defined, then assigned by index',
       [('whole', 1), ('index', ONE, 2)], ['sy', 's1', 's2'],
       lambda v: True, 'an indexed assignment to a defined output',
       '__setitem__')
    go('assigned by index, then defined',
       [('index', ONE, 1), ('whole', 2)], ['sy', 's1', 's2'],
       lambda v: True, 'the definition of an output assigned by index')
    go('assigned by index twice, then defined',
       [('index', ONE, 1), ('index', REST, 2), ('whole', 3)],
       ['sy', 's1', 's2', 's3'], lambda v: True,
       'the definition of an output assigned by index')
    go('assigned by index twice with one expression',
       [('index', ONE, 1), ('index', mk('sl', const(1), const(2), NONE), 1)],
       ['sy', 's1'], lambda v: True,
       'the use of one expression for two blocks', '__setitem__')


def flag(sc, st, o, name):
    """Value of an attribute of o in the state st."""
    h = sc.h.fork()
    h.st = st.fork()
    h.dead = False
    s = h.attr(o, name)
    return None if s.dead else s.value


def rule_flags(ctx, rep):
    """Definitions that are accepted mark the output as defined, definitions
    that are refused leave it undefined."""
    rule = 'defined-flag'
    for kind, meths in (('create_output', ('define', '__setitem__')),
                        ('create_implicit_output',
                         ('define_residual', 'define_residual_bracketed'))):
        for m in meths:
            sc = Scene(ctx)
            y = sc.output(kind=kind)
            e = sc.expr(1)
            if m == '__setitem__':
                sc.do(sc.h.setitem(y, ONE, e))
            else:
                sc.do(sc.h.call(y, m, e))
            st = sc.last()
            wh = where_of(sc, y, m)
            for nm, want in (('accepted', True), ('refused', False)):
                v = Verdict(rep, rule, '%s %s %s' % (kind[7:].replace(
                    '_', ' '), m.strip('_'), nm), wh)
                for vals in combos('sy', 's1'):
                    env = shape_env(**vals)
                    if before_ok(sc.steps[:-1], env) is not False:
                        continue
                    r, loc = step_raises(st, env)
                    if r is None or r is want:
                        continue
                    if want:
                        states = [st.state]
                    else:
                        states = [x[4] for x in st.events
                                  if x[0] == 'raise' and
                                  reach(x[1], (), env) is True][:1]
                    for s in states:
                        t = flag(sc, s, y, 'defined')
                        try:
                            got = truthv(ev(t, env))
                        except (Unknown, Fails) as x:
                            v.note(None, str(x))
                            continue
                        v.note(got == want, 'after the definition is %s the '
                               'output counts as %s (%s)' % (
                                   nm, 'defined' if got else 'not defined',
                                   ', '.join('%s=%s' % kv for kv in sorted(
                                       vals.items()))))
                v.done()


def rule_implicit(ctx, rep):
    rule = 'implicit-output-defined-once'
    M = ('define_residual', 'define_residual_bracketed')

    def scene(acts):
        sc = Scene(ctx)
        y = sc.output(kind='create_implicit_output')
        ex = {}
        for n in sorted(set(a[1] for a in acts if a[1])):
            ex[n] = sc.expr(n)
        for m, n in acts:
            sc.do(sc.h.call(y, m, ex[n] if n else y))
        return sc, y
    for m in M:
        sc, y = scene([(m, 1)])
        last_verdict(rep, rule, m, sc, where_of(sc, y, m),
                     list(combos('sy', 's1')),
                     lambda v: v['sy'] != v['s1'],
                     'the definition of a residual')
        sc, y = scene([(m, 0)])
        last_verdict(rep, rule, m + ' by itself', sc, where_of(sc, y, m),
                     list(combos('sy')), lambda v: True,
                     'the definition of an output as its own residual')
        for k in M:
            for n in (1, 2):
                sc, y = scene([(k, 1), (m, n)])
                last_verdict(
                    rep, rule, '%s, then %s with %s' % (
                        k, m, 'another expression' if n == 2 else
                        'the same expression'), sc, where_of(sc, y, m),
                    list(combos(*['sy', 's1', 's2'][:n + 1])),
                    lambda v: True, 'a second residual of an output')


def rule_register(ctx, rep):
    rule = 'registered-once'

    def go(name, build, want, text, names=('s1', )):
        sc = Scene(ctx)
        build(sc)
        wh = where_of(sc, sc.g, 'register_output')
        last_verdict(rep, rule, name, sc, wh, list(combos(*names)),
                     lambda v: want, text)
    reg = lambda sc, e, n='o': sc.do(sc.h.call(sc.g, 'register_output',
                                               const(n), e))
    go('an expression', lambda sc: reg(sc, sc.expr(1)), False,
       'the registration of an expression')
    go('an input', lambda sc: reg(sc, sc.input(1)), True,
       'the registration of an input')

    def late(sc):
        sc.do(sc.h.call(sc.g, 'add_subsystem', const('sub'),
                        P('sub', 'system')))
        reg(sc, sc.input(1))
    go('an input declared after a subsystem', late, True,
       'the registration of an input')

    def used(sc):
        x = sc.input(1)
        e = sc.do(sc.h.call(x, '__neg__'))
        reg(sc, e)
        reg(sc, x, 'p')
    go('an input that is used', used, True, 'the registration of an input')

    def foreign(sc):
        h = sc.do(sc.h.new(sc.w.p.lookup(sc.w.api, 'Group')))
        reg(sc, sc.do(sc.h.call(h, 'declare_input', const('e1'),
                                shape=SE(1))))
    go('an input of another group', foreign, True,
       'the registration of an input')

    def twice(n):
        def f(sc):
            e = sc.expr(1)
            reg(sc, e)
            reg(sc, e, n)
        return f
    go('an expression again', twice('o'), True,
       'the second registration of an expression')
    go('an expression again under another name', twice('p'), True,
       'the second registration of an expression')

    def third(sc):
        a, b = sc.expr(1), sc.expr(2)
        reg(sc, a)
        reg(sc, b, 'p')
        reg(sc, a, 'q')
    go('an expression again after another one', third, True,
       'the second registration of an expression', ('s1', 's2'))

    def two(sc):
        a, b = sc.expr(1), sc.expr(2)
        reg(sc, a)
        reg(sc, b, 'p')
    go('two expressions', two, False, 'the registration of another '
       'expression', ('s1', 's2'))
    go('an output created in the group', lambda sc: reg(sc, sc.output(
        shape=SE(1))), True, 'the registration of a created output')

    def indep(sc):
        reg(sc, sc.do(sc.h.call(sc.g, 'create_indep_var', const('i'),
                                shape=SE(1))))
    go('an independent variable', indep, True,
       'the second registration of an independent variable')


# -------------------------------------------------------- indexed assignment
def INT(n):
    return P('i%s' % n, 'int')


def SLICE(n):
    return mk('sl', P('a%s' % n, 'any'), P('b%s' % n, 'any'),
              P('c%s' % n, 'any'))


def key_term(pat, n):
    """pat: 'i', 's' or a tuple of them."""
    if isinstance(pat, tuple):
        return mk('tup', *[key_term(p, '%s_%d' % (n, k))
                           for k, p in enumerate(pat)])
    return INT(n) if pat == 'i' else SLICE(n)


def key_env(env, pat, n, val):
    if isinstance(pat, tuple):
        for k, (p, v) in enumerate(zip(pat, val)):
            key_env(env, p, '%s_%d' % (n, k), v)
    elif pat == 'i':
        env[INT(n)] = val
    else:
        for t, v in zip(SLICE(n).args, val):
            env[t] = v


def axis_range(pat, val, size):
    """Positions the key selects on an axis; None: not specified."""
    if pat == 'i':
        return [val]
    a, b, c = val
    if c is not None and c < 0 and None not in (a, b) and a > b >= 0:
        return list(range(a, b, c))
    if (a is not None and a < 0) or (b is not None and b < 0) or (
            c is not None and c < 1):
        return None
    r = list(range(a or 0, size if b is None else b, c or 1))
    return r or None


def selected(pat, val, shape):
    """(shape, flat positions), 'range' when some are out of range, None when
    not specified."""
    pats, vals = (pat, val) if isinstance(pat, tuple) else ((pat, ),
                                                            (val, ))
    if len(pats) != len(shape):
        return None
    rs = [axis_range(p, v, n) for p, v, n in zip(pats, vals, shape)]
    if any(r is None for r in rs):
        return None
    if any(x >= n or x < 0 for r, n in zip(rs, shape) for x in r):
        return 'range'
    flat = []
    for ix in itertools.product(*rs):
        k = 0
        for i, n in zip(ix, shape):
            k = k * n + i
        flat.append(k)
    return tuple(len(r) for r in rs), flat


def key_text(pat, val):
    if isinstance(pat, tuple):
        return ', '.join(key_text(p, v) for p, v in zip(pat, val))
    if pat == 'i':
        return str(val)
    a, b, c = val
    r = '%s:%s' % ('' if a is None else a, '' if b is None else b)
    return r if c is None else '%s:%d' % (r, c)


def axis_keys(pat, n, deep, few=False):
    if pat == 'i':
        return ([-1, 0, n - 1, n] if few else
                list(range(n + 1)) + [-1, -n, -n - 1])
    if few:
        return [(None, None, None), (1, None, None), (0, n - 1, None),
                (n - 1, n, None), (0, n + 1, None), (None, None, 2),
                (n - 1, 0, -1)]
    r = [(None, None, None), (0, n, None), (1, None, None),
         (None, n - 1, None), (0, 1, None), (n - 1, n, None),
         (0, n + 1, None), (n, n + 1, None), (0, n, 2), (None, None, 2),
         (1, n, 2), (1, n + 1, 2), (n - 1, 0, -1), (n, 0, -1)]
    if deep:
        r += [(n, n + 2, None), (0, n + 2, n + 1), (None, n, 3)]
    return [k for k in r]


def keys(pat, shape, deep=False):
    if isinstance(pat, tuple):
        seen = []
        for v in itertools.product(*[axis_keys(p, n, deep, len(pat) > 2)
                                     for p, n in zip(pat, shape)]):
            if selected(pat, v, shape) is not None and v not in seen:
                seen.append(v)
        return seen
    return [v for v in axis_keys(pat, shape[0], deep)
            if selected(pat, v, shape) is not None]


def thin(xs, cap):
    xs = list(xs)
    if len(xs) <= cap:
        return xs
    step = len(xs) / float(cap)
    return [xs[int(i * step)] for i in range(cap)]


def rule_indices(ctx, rep):
    """Which indexed assignments are accepted."""
    rule = 'indexed-assignment'
    deep = ctx.tier != 'quick'
    cap = 160 if not deep else 900
    pats1 = ['i', 's']
    pats2 = [('s', 's'), ('i', 's'), ('s', 'i'), ('i', 'i')]
    pats3 = [('s', 'i', 's'), ('s', 's', 's')]
    jobs = []
    for p in pats1:
        jobs.append(((p, ), ((3, ), (4, ))))
    for p in pats2:
        jobs.append(((p, ), ((2, 3), (3, 2))))
    for p in pats3:
        jobs.append(((p, ), ((2, 2, 2), (3, 2, 4))))
    jobs.append(((('s', 'i', 's', 's'), ), ((2, 2, 2, 3), (2, 1, 3, 2))))
    for p, q in (('i', 'i'), ('s', 's'), ('i', 's'), ('s', 'i')):
        jobs.append(((p, q), ((3, ), (5, ))))
    for p, q in ((pats2[0], pats2[0]), (pats2[1], pats2[2]),
                 (pats2[3], pats2[0])):
        jobs.append(((p, q), ((2, 3), (3, 3))))
    jobs.append((('i', 'i', 'i'), ((3, ), )))
    jobs.append((('s', 'i', 's'), ((5, ), )))
    for ps, shapes in jobs:
        sc = Scene(ctx)
        y = sc.output()
        ex = [sc.expr(n + 1) for n in range(len(ps))]
        for n, p in enumerate(ps):
            sc.do(sc.h.setitem(y, key_term(p, n + 1), ex[n]))
        wh = where_of(sc, y, '__setitem__')
        v = Verdict(rep, rule, 'keys ' + ' then '.join(
            '[%s]' % ', '.join(p) for p in ps), wh)
        st = sc.last()
        for shape in shapes:
            prior = [[k for k in keys(p, shape, deep)
                      if selected(p, k, shape) != 'range'] for p in ps[:-1]]
            todo = []
            for ks in itertools.product(*(prior + [keys(ps[-1], shape,
                                                        deep)])):
                sel = [selected(p, k, shape) for p, k in zip(ps, ks)]
                used = set()
                ok = True
                for s in sel[:-1]:
                    if used & set(s[1]):
                        ok = False
                    used |= set(s[1])
                if not ok:
                    continue
                todo.append((ks, sel, used))
            for ks, sel, used in thin(todo, cap):
                last = sel[-1]
                if last == 'range':
                    es = [(1, ), (2, ), tuple(1 for _ in shape), shape]
                else:
                    es = [last[0]]
                    if len(ps) == 1:
                        es += [last[0] + (1, ), (len(last[1]) + 1, ),
                               last[0][::-1], (len(last[1]), )]
                for e in dict.fromkeys(es):
                    env = shape_env(sy=shape)
                    for n, (p, k) in enumerate(zip(ps, ks)):
                        key_env(env, p, n + 1, k)
                        env[SE(n + 1)] = sel[n][0] if n + 1 < len(
                            ps) else e
                    b = before_ok(sc.steps[:-1], env)
                    if b is not False:
                        v.note(None if b is None else False,
                               'not decided' if b is None else
                               'earlier valid assignments are refused')
                        continue
                    if last == 'range':
                        want, why = True, 'out of range'
                    elif e != last[0]:
                        want, why = True, 'with an expression of shape %s' \
                            % (e, )
                    elif used & set(last[1]):
                        want, why = True, 'overlapping'
                    else:
                        want, why = False, 'valid'
                    r, loc = step_raises(st, env)
                    if r is None:
                        v.note(None, undecided(st, env))
                        continue
                    v.note(r == want, 'for an output of shape %s the '
                           'assignment of %s (%s) is %s' % (
                               shape, ' then '.join(
                                   'y[%s]' % key_text(p, k)
                                   for p, k in zip(ps, ks)), why,
                               'refused' if r else 'accepted'), loc)
        v.done()


# ------------------------------------------------------------- undefined
def rule_undefined(ctx, rep):
    """Building the model reports outputs that are used but not defined."""
    from .graph import pipeline, decide, class_facts
    rule = 'undefined-output-reported'
    try:
        p = pipeline(ctx)
    except AnalysisError as e:
        rep.und(rule, 'setup of a group', str(e))
        return
    w = ctx.world
    added = p.added()
    if not added:
        rep.und(rule, 'setup of a group', 'no component is added')
        return
    q = {n: c for n, c in ((c.name, c) for c in w.p.classes.values())}
    for name, vals in (('ExplicitOutput', (False, True)),
                       ('ImplicitOutput', (False, True))):
        cls = q.get(name)
        if cls is None:
            rep.und(rule, name, 'class not found')
            continue
        for defined in vals:
            v = Verdict(rep, rule, '%s %s' % (
                'explicit' if name[0] == 'E' else 'implicit',
                'defined' if defined else 'not defined'), p.where)
            hit, und, loc = False, None, None
            for facts, exc, where, loops in p.raises:
                if not loops:
                    continue
                el = mk('item', *loops[-1])
                if not any(contains(c, lambda s: s is el)
                           for c, _ in facts):
                    continue
                env = {mk('attr', el, 'defined'): defined,
                       mk('attr', el, 'build'): Obj('builder')}
                try:
                    if all(decide(c, env, class_facts(w, el, cls)) == b
                           for c, b in facts):
                        hit, loc = True, where
                except (Unknown, Fails) as x:
                    und = str(x)
            for e in p.effects:
                if e.kind == 'method' and e.args[1] != 'build' and \
                        e.loops and e.args[0] is mk('item', *e.loops[-1]) \
                        and any(e.loops[-1][0] is a.loops[-1][0]
                                for _, a in added if a.loops):
                    und = und or 'method %s' % e.args[1]
            if hit == (not defined):
                v.note(True)
            elif und:
                v.note(None, und)
            else:
                v.note(False, 'a model that uses an output that is %s is '
                       '%s' % ('defined' if defined else 'not defined',
                               'refused' if hit else
                               'built without a report'), loc)
            v.done()


RULES = [rule_explicit, rule_flags, rule_implicit, rule_register,
         rule_indices, rule_undefined]
