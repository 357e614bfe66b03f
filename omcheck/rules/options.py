"""C20: histories of declarations, assignments and reads on the library's own
options dictionary."""
import itertools
from .common import *
from ..history import History, Unknown, Raises, value, reached
from ..sites import P
from ..program import AnalysisError

A, B = const('a'), const('b')
RO, AN = P('read_only', 'bool'), P('allow_none', 'bool')
VALUES, TYPES = P('values', 'any'), P('types', 'any')
UPPER, LOWER = P('upper', 'any'), P('lower', 'any')
CHECK = P('check_valid', 'any')
NEW, OLD, OTHER = P('new', 'any'), P('old', 'any'), P('other', 'any')
DECL = dict(values=VALUES, types=TYPES, upper=UPPER, lower=LOWER,
            check_valid=CHECK, allow_none=AN)
CANDIDATES = (None, 2, 3, 4, 5, 7, 0, -1, 'p', '')


def check_fn(name, v):
    return None


def configs():
    """Declarations: None rule, allowed values, types, bounds, check."""
    for values in (None, (2, 'p'), [4, 0], {7}, ()):
        for types in (None, int, (str, float), [int]):
            if values is not None and types is not None:
                continue
            for lo, up in ((None, None), (3, None), (None, 5), (3, 5),
                           (0, None), (None, 0)):
                for an in (False, True):
                    for ck in (None, check_fn):
                        for ro in (False, True):
                            yield {VALUES: values, TYPES: types, UPPER: up,
                                   LOWER: lo, AN: an, CHECK: ck, RO: ro}


def valid(v, c):
    """Does the declaration c allow v?  None: not specified."""
    if v is None and c[AN]:
        return True
    t = c[TYPES]
    if isinstance(t, list):
        return None           # isinstance itself refuses a list
    if c[VALUES] is not None and v not in c[VALUES]:
        return False
    if t is not None and not isinstance(v, t):
        return False
    for b in (c[UPPER], c[LOWER]):
        if b is not None and not isinstance(v, (int, float)):
            return None
    if c[UPPER] is not None and v > c[UPPER]:
        return False
    if c[LOWER] is not None and v < c[LOWER]:
        return False
    return True


def text(c, **kw):
    d = [(k.args[0], v) for k, v in c.items() if v is not None and
         v is not False] + list(kw.items())
    return ', '.join('%s=%s' % (k, getattr(v, '__name__', None) or repr(v))
                     for k, v in sorted(d)) or 'no restriction'


class Judge(object):
    """One verdict for each rule and history over all the configurations."""

    def __init__(self, rep, rule, name, where):
        self.rep, self.rule, self.name = rep, rule, name
        self.where = where
        self.n = 0
        self.fail = None
        self.unknown = None

    def config(self, fn, *a):
        try:
            r = fn(*a)
        except Unknown as e:
            self.unknown = self.unknown or str(e)
            return
        except Raises:
            return
        if r is None:
            return
        self.n += 1
        if r is not True and self.fail is None:
            self.fail = r

    def done(self):
        if self.fail:
            msg, where = self.fail if isinstance(self.fail, tuple) else (
                self.fail, None)
            self.rep.bad(self.rule, where or self.where, self.name, msg)
        elif self.unknown or not self.n:
            self.rep.und(self.rule, self.name, self.unknown or
                         'no configuration reaches it')
        else:
            self.rep.ok(self.rule, self.name)
            self.rep.notes['configurations'] = self.rep.notes.get(
                'configurations', 0) + self.n


def options_class(ctx):
    b = ctx.world.p.lookup(ctx.world.api, 'OptionsDictionary')
    if b is None:
        raise AnalysisError('omtools.api.OptionsDictionary not found')
    return b


def where_method(cls, name):
    f = cls.find(name) or cls
    return (f.module.path, f.node.lineno)


def started(ctx, *decls):
    """A history with a new dictionary and the declarations made."""
    cls = options_class(ctx)
    h = History(ctx.world)
    s = h.new(cls, read_only=RO)
    o = s.value
    steps = [s]
    for name, kw in decls:
        steps.append(h.call(o, 'declare', name, **kw))
    return cls, h, o, steps


def passes(steps, env):
    """None of the steps raises."""
    for s in steps:
        if s.outcome(env)[0] == 'raise':
            return False
    return not any(s.dead for s in steps)


def expect(step, env, exc, what):
    """The step raises one of the exceptions exc in env."""
    k, names = step.outcome(env)
    if k == 'return' and not step.dead:
        return '%s succeeds' % what
    bad = [n for n in names if n[0] not in exc and n[0] != '?']
    if bad and exc != 'any':
        return '%s raises %s instead of %s' % (what, bad[0][0],
                                               ' or '.join(exc)), bad[0][1]
    return True


def same(h, step, env, want, what):
    t = h.pure(step)
    v = value(t, env)
    if v != want or type(v) is not type(want):
        return '%s gives %r instead of %r' % (what, v, want)
    return True


# ------------------------------------------------------------------- rules
def rule_access(ctx, rep):
    """Reads and assignments of undeclared, unset and declared options."""
    rule = 'undeclared-and-unset-options'
    cls = options_class(ctx)
    wh = where_method(cls, '__getitem__')
    ws = where_method(cls, '__setitem__')
    empty = [dict(c) for c in configs()]

    def each(name, where, setup, op, exc, what):
        j = Judge(rep, rule, name, where)
        h, o, pre = setup()
        step = op(h, o)

        def one(c):
            if not passes(pre, c):
                return None
            r = expect(step, c, exc, what)
            if r is True:
                return r
            if isinstance(r, tuple):
                return r[0] + ' (%s)' % text(c), r[1]
            return r + ' (%s)' % text(c)
        for c in empty:
            for v in CANDIDATES:
                j.config(one, withv(c, NEW, v))
        j.done()

    def nothing():
        _, h, o, st = started(ctx)
        return h, o, st

    def other():
        _, h, o, st = started(ctx, (B, dict(default=OTHER)))
        return h, o, st

    def nodefault():
        _, h, o, st = started(ctx, (A, DECL))
        return h, o, st

    def removed():
        _, h, o, st = started(ctx, (A, DECL))
        st.append(h.call(o, 'undeclare', A))
        return h, o, st
    for nm, su in (('empty dictionary', nothing),
                   ('another option declared', other),
                   ('option removed by undeclare', removed)):
        each('read undeclared option, ' + nm, wh, su,
             lambda h, o: h.getitem(o, A), ('KeyError', ),
             'reading an option that is not declared')
        each('set undeclared option, ' + nm, ws, su,
             lambda h, o: h.setitem(o, A, NEW), ('KeyError', ),
             'setting an option that is not declared')
        each('update undeclared option, ' + nm, ws, su,
             lambda h, o: h.call(o, 'update', h.dict(a=NEW)), ('KeyError', ),
             'updating an option that is not declared')
    each('read required option without a value', wh, nodefault,
         lambda h, o: h.getitem(o, A), ('RuntimeError', ),
         'reading a required option that has no value')


def withv(c, k, v, k2=None, v2=None):
    d = dict(c)
    d[k] = v
    if k2 is not None:
        d[k2] = v2
    return d


def rule_assign(ctx, rep):
    """Assignments: accepted, rejected, read-only; what is stored."""
    rule = 'assignments-validated'
    cls = options_class(ctx)
    wh = where_method(cls, '__setitem__')
    ways = (('item assignment', lambda h, o, v: h.setitem(o, A, v)),
            ('update', lambda h, o, v: h.call(o, 'update', h.dict(a=v))))
    for way, put in ways:
        for hist in ('no value before', 'default before',
                     'another option declared later'):
            decls = [(A, DECL if hist == 'no value before' else
                      dict(DECL, default=OLD))]
            if hist.startswith('another'):
                decls.append((B, dict(default=OTHER)))
            _, h, o, pre = started(ctx, *decls)
            before = h.fork().getitem(o, A)
            step = put(h, o, NEW)
            after = h.getitem(o, A)
            second = h.getitem(o, B) if len(decls) > 1 else None
            j = Judge(rep, rule, '%s, %s' % (way, hist), wh)

            def one(c):
                if not passes(pre, c):
                    return None
                v = c[NEW]
                ok = valid(v, c)
                out, names = step.outcome(c)
                tx = text(c, value=v)
                if c[RO]:
                    if out != 'raise':
                        return 'a read-only option is changed (%s)' % tx
                    return kept(c, tx)
                if ok is None:
                    return None
                if ok is False:
                    if out != 'raise':
                        return 'a value that is not allowed is accepted ' \
                            '(%s)' % tx
                    return kept(c, tx)
                if out == 'raise':
                    return ('an allowed value is rejected with %s (%s)' % (
                        names[0][0], tx), names[0][1])
                if step.dead:
                    return 'no value can be set (%s)' % tx
                r = checked(step, c, v, tx)
                if r is not True:
                    return r
                r = unstored(c, tx)
                if r is not True:
                    return r
                r = expect_value(h, after, c, v, 'the option', tx)
                if r is not True or second is None:
                    return r
                return expect_value(h, second, c, c[OTHER],
                                    'another option', tx)

            def unstored(c, tx):
                """The custom check, which may raise, sees the old value."""
                return kept(c, tx, 'callback', 'while the custom check '
                            'runs the option')

            def kept(c, tx, kind='raise', when='after the rejected '
                     'assignment the option'):
                """A rejected assignment leaves the value as it was."""
                if 'default' not in decls[0][1]:
                    return True
                for e in step.events:
                    if e[0] != kind:
                        continue
                    if kind == 'callback' and e[2] is not CHECK:
                        continue
                    try:
                        if not reached(e[1], c):
                            continue
                    except Raises:
                        continue
                    h2 = h.fork()
                    h2.st = e[4].fork()
                    h2.dead = False
                    got = h2.getitem(o, A)
                    r = same(h2, got, c, c[OLD], when)
                    if r is not True:
                        return r + ' (%s)' % tx, \
                            e[3] if kind == 'raise' else wh
                return True
            for c in configs():
                for v in CANDIDATES:
                    if hist == 'no value before':
                        j.config(one, withv(c, NEW, v))
                    else:
                        for d in (4, None):
                            j.config(one, withv(withv(c, NEW, v, OLD, d),
                                                OTHER, 'q'))
            j.done()


def expect_value(h, step, c, want, what, tx):
    if step.dead or step.outcome(c)[0] == 'raise':
        return 'reading %s after the assignment fails (%s)' % (what, tx)
    r = same(h, step, c, want, what)
    return r if r is True else r + ' (%s)' % tx


def checked(step, c, v, tx):
    """The custom check is called with the name and the value."""
    if c[CHECK] is None:
        for e in step.events:
            if e[0] == 'callback' and e[2] is CHECK and reached(e[1], c):
                return 'the custom check is called although there is ' \
                    'none (%s)' % tx
        return True
    if v is None and c[AN]:
        return True
    for e in step.events:
        if e[0] == 'callback' and e[2] is CHECK and reached(e[1], c):
            args = [value(x, c) for x in e[3]]
            if args == ['a', v]:
                return True
            return 'the custom check is called with %r (%s)' % (args, tx)
    return 'the custom check is not called (%s)' % tx


def rule_declare(ctx, rep):
    """Declarations with a default value."""
    rule = 'defaults-validated'
    cls = options_class(ctx)
    wh = where_method(cls, 'declare')
    cls, h, o, pre = started(ctx)
    first = step = h.call(o, 'declare', A, **dict(DECL, default=NEW))
    after = h.getitem(o, A)
    j = Judge(rep, rule, 'declare with a default', wh)

    def one(c):
        v = c[NEW]
        ok = valid(v, c)
        if ok is None:
            return None
        out, names = step.outcome(c)
        tx = text(c, default=v)
        if not ok:
            return True if out == 'raise' else \
                'a default that is not allowed is accepted (%s)' % tx
        if out == 'raise':
            return ('an allowed default is rejected with %s (%s)' % (
                names[0][0], tx), names[0][1])
        r = checked(step, c, v, tx)
        if r is not True:
            return r
        return expect_value(h, after, c, v, 'the option', tx)
    for c in configs():
        for v in CANDIDATES:
            j.config(one, withv(c, NEW, v))
    j.done()
    # without a default
    for name, kw in (('all restrictions', DECL), ('no restriction', {}),
                     ('values', dict(values=VALUES)),
                     ('types', dict(types=TYPES)),
                     ('bounds', dict(lower=LOWER, upper=UPPER))):
        _, h, o, pre = started(ctx)
        step = h.call(o, 'declare', A, **kw)
        j = Judge(rep, rule, 'declare a required option, ' + name, wh)

        def required(c):
            if valid(None, c) is None and isinstance(c[TYPES], list) or (
                    c[VALUES] is not None and c[TYPES] is not None):
                return None
            out, names = step.outcome(c)
            if out == 'raise':
                return ('an option without a default cannot be declared: '
                        '%s (%s)' % (names[0][0], text(c)), names[0][1])
            return True
        for c in configs():
            j.config(required, c)
        j.done()
    # restrictions that are not given do not restrict
    free = {VALUES: None, TYPES: None, UPPER: None, LOWER: None,
            CHECK: None, AN: False, RO: False}
    for keep in ((), ('values', ), ('types', ), ('upper', ), ('lower', ),
                 ('allow_none', ), ('types', 'allow_none')):
        _, h, o, pre = started(ctx)
        pre.append(h.call(o, 'declare', A, **dict(
            [(k, DECL[k]) for k in keep])))
        step = h.setitem(o, A, NEW)
        after = h.getitem(o, A)
        j = Judge(rep, rule, 'only %s given' % (' and '.join(keep) or
                                                'the name'), wh)

        def only(c):
            if not passes(pre, c):
                return None
            v = c[NEW]
            ok = valid(v, c)
            if ok is None:
                return None
            tx = text(c, value=v)
            out, names = step.outcome(c)
            if not ok:
                return True if out == 'raise' else \
                    'a value that is not allowed is accepted (%s)' % tx
            if out == 'raise':
                return ('an allowed value is rejected with %s (%s)' % (
                    names[0][0], tx), names[0][1])
            return expect_value(h, after, c, v, 'the option', tx)
        seen = set()
        for c in configs():
            d = dict(free)
            for k in keep:
                d[DECL[k]] = c[DECL[k]]
            key = repr(sorted((k.args[0], repr(v)) for k, v in d.items()))
            if key in seen:
                continue
            seen.add(key)
            for v in CANDIDATES:
                j.config(only, withv(d, NEW, v))
        j.done()
    # both restrictions at once
    j = Judge(rep, rule, 'declare with values and types', wh)

    def both(c):
        return True if first.outcome(c)[0] == 'raise' else \
            'an option is declared with both values and types'
    for c in configs():
        if c[VALUES] is None and c[TYPES] is None:
            c = withv(withv(c, VALUES, (2, )), TYPES, int)
            j.config(both, withv(c, NEW, 2))
    j.done()


def rule_membership(ctx, rep):
    """'in' and undeclare see exactly the declared options."""
    rule = 'declared-options-known'
    cls = options_class(ctx)
    wh = where_method(cls, '__contains__')
    for name, hist, want in (
            ('nothing declared', (), False),
            ('declared', ((A, dict(default=OLD)), ), True),
            ('another declared', ((B, dict(default=OLD)), ), False)):
        _, h, o, pre = started(ctx, *hist)
        step = h.call(o, '__contains__', A)
        j = Judge(rep, rule, name, wh)

        def one(c):
            if not passes(pre, c):
                return None
            if step.dead or step.outcome(c)[0] == 'raise':
                return 'the membership test fails'
            return True if bool(value(h.pure(step), c)) == want else \
                "'a' in options is %s" % (not want)
        for ro in (False, True):
            j.config(one, {RO: ro, OLD: 1})
        j.done()
    # undeclare removes that option only
    _, h, o, pre = started(ctx, (A, dict(default=OLD)),
                           (B, dict(default=OTHER)))
    pre.append(h.call(o, 'undeclare', A))
    got = h.getitem(o, B)
    j = Judge(rep, rule, 'undeclare keeps the other options',
              where_method(cls, 'undeclare'))

    def rest(c):
        if not passes(pre, c):
            return 'undeclare fails'
        return expect_value(h, got, c, c[OTHER], 'another option', '')
    j.config(rest, {RO: False, OLD: 1, OTHER: 2})
    j.done()
    # several options at once
    for keys in ((A, B), (B, A)):
        _, h, o, pre = started(ctx, (A, dict(default=OLD)), (B, {}))
        d = mk('dict', keys[0], NEW if keys[0] is A else OTHER, keys[1],
               NEW if keys[1] is A else OTHER)
        pre.append(h.call(o, 'update', h.it.cell(h.st, 'dict', d)))
        got = [(h.getitem(o, A), NEW), (h.getitem(o, B), OTHER)]
        j = Judge(rep, rule, 'update sets %s then %s' % tuple(
            k.args[0] for k in keys), where_method(cls, 'update'))

        def several(c):
            if not passes(pre, c):
                return 'update fails'
            for g, v in got:
                r = expect_value(h, g, c, c[v], 'an option', '')
                if r is not True:
                    return r
            return True
        j.config(several, {RO: False, OLD: 1, NEW: 3, OTHER: 2})
        j.done()
    # two dictionaries share nothing
    h = History(ctx.world)
    pre = [h.new(cls, read_only=RO), h.new(cls)]
    o1, o2 = [s.value for s in pre]
    pre += [h.call(o1, 'declare', A, default=OLD),
            h.call(o2, 'declare', A, default=OTHER)]
    pre.append(h.setitem(o2, A, NEW))
    got = [(h.getitem(o1, A), OLD), (h.getitem(o2, A), NEW)]
    j = Judge(rep, rule, 'two dictionaries are independent',
              where_method(cls, '__init__'))

    def independent(c):
        if not passes(pre, c):
            return 'declaring or setting an option fails'
        for g, v in got:
            r = expect_value(h, g, c, c[v], 'an option of two dictionaries',
                             '')
            if r is not True:
                return r
        return True
    for ro in (False, True):
        j.config(independent, {RO: ro, OLD: 1, NEW: 3, OTHER: 2})
    j.done()
    # options given to the constructor must be declared
    h = History(ctx.world)
    step = h.new(cls, a=NEW)
    j = Judge(rep, rule, 'undeclared option given to the constructor',
              where_method(cls, '__init__'))
    j.config(lambda c: expect(step, c, ('KeyError', ), 'the constructor '
                              'given an undeclared option'), {NEW: 3})
    j.done()


RULES = [rule_access, rule_assign, rule_declare, rule_membership]
