"""C12 shapes of results and declared variables; C18 rejection of shapes that
cannot be combined.  Guards and shapes are terms over the operands' shapes;
they are decided over an enumerated space of small shapes and axes."""
import itertools
from .common import *
from ..evalu import ev, truthv, Unknown, Fails, Sym, bind, domain
from ..interp import const
from ..sites import Case, V
from . import wiring

S1 = [(1, ), (2, ), (3, ), (4, )]
S2 = [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)] + [(3, 4), (4, 3)]
S3 = [(1, 1, 1), (2, 3, 4), (3, 2, 2), (2, 2, 3), (3, 3, 3), (1, 3, 2),
      (4, 3, 2)]
S4 = [(2, 3, 1, 2), (3, 2, 3, 2)]
ALL = S1 + S2 + S3 + S4
SMALL = [(1, ), (2, ), (3, ), (1, 2), (2, 1), (2, 3), (3, 3), (2, 3, 4),
         (3, 2, 2)]


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def delete(s, axes):
    axes = (axes, ) if isinstance(axes, int) else axes
    n = len(s)
    drop = set(a % n for a in axes)
    return tuple(d for i, d in enumerate(s) if i not in drop)


def axes_ok(s, axes):
    n = len(s)
    if any(not -n <= a < n for a in axes):
        return False
    return len(set(a % n for a in axes)) == len(axes)


def repeated(n):
    """Tuples of axes that name an axis twice or one that is not there."""
    for i, j in itertools.product(range(-n, n), repeat=2):
        if (i - j) % n == 0:
            yield (i, j)
            for k in range(n):
                yield (i, k, j)
    yield (n, )
    yield (-n - 1, )
    if n > 1:
        yield (0, n)


def axis_sets(n):
    for k in (1, 2):
        for c in itertools.permutations(range(-n, n), k):
            if len(set(a % n for a in c)) == k and k < n:
                yield c
    if n > 3:
        for c in ((0, 1, 2), (3, 1, 0), (-1, 2, 1), (0, -2, 3)):
            if n == 4:
                yield c


# gen: list of assignments {operand or parameter name: shape or value};
# valid: True accepted, False rejected, None not part of the property;
# shape: shape of the result of a valid call
class Sp(object):
    def __init__(self, gen, shape, valid=lambda a: True):
        self.gen = gen
        self.shape = shape
        self.valid = valid


def g_one(name='x', shapes=ALL):
    return lambda: [{name: s} for s in shapes]


def g_two(a, b, s1=SMALL, s2=SMALL, equal_extra=True):
    def g():
        r = [{a: x, b: y} for x in s1 for y in s2]
        if equal_extra:
            r += [{a: x, b: x} for x in ALL]
        return r
    return g


def g_star(minlen=1):
    def g():
        r = []
        base = SMALL + [(2, 3, 1, 2)]
        for n in (1, 2, 3, 4, 5, 7):
            for s in base:
                r.append({'xs': (s, ) * n})
        for s, t in itertools.permutations(SMALL, 2):
            r.append({'xs': (s, t)})
        for s, t in itertools.permutations(SMALL[:7], 2):
            for k in range(3):
                l = [s, s, s]
                l[k] = t
                r.append({'xs': tuple(l)})
        for s, t in itertools.permutations(SMALL[2:6], 2):
            for k in range(5):
                l = [s] * 5
                l[k] = t
                r.append({'xs': tuple(l)})
        return r
    return g


def g_axis(g, name='axis', of='x', both=True):
    def h():
        r = []
        for a in g():
            s = a[of]
            s = s[0] if s and isinstance(s[0], tuple) else s
            for k in range(-len(s) - 1 if both else 0, len(s) + 1):
                d = dict(a)
                d[name] = k
                r.append(d)
        return r
    return h


def g_axes(g, of='x'):
    def h():
        r = []
        for a in g():
            s = a[of]
            s = s[0] if s and isinstance(s[0], tuple) else s
            for c in itertools.chain(axis_sets(len(s)), repeated(len(s))):
                d = dict(a)
                d['axes'] = c
                r.append(d)
        return r
    return h


def same(a):
    return len(set(a['xs'])) == 1


def g_newshape():
    r = []
    for s in ALL:
        for t in ALL:
            r.append({'x': s, 'new_shape': t})
    return r


def g_expand_idx():
    r = []
    ops = ['i->ij', 'i->ji', 'ij->ijk', 'ij->ikj', 'ij->kij', 'i->jik',
           'j->ijk', 'ij->ikjl', 'ik', 'i->ijkl']
    for s in SMALL:
        for t in ALL:
            for o in ops:
                r.append({'x': s, 'new_shape': t, 'indices': o})
    return r


def v_expand(a):
    s, t = a['x'], a['new_shape']
    if 'indices' not in a:
        return s == (1, )
    if '->' not in a['indices']:
        return False
    i, o = a['indices'].split('->')
    if len(o) != len(t):
        return False
    kept = tuple(t[k] for k in range(len(o)) if o[k] in i)
    if s == (1, ):
        return None
    return kept == s


def g_reorder():
    r = []
    for n, shapes in ((1, S1), (2, S2), (3, S3), (4, S4)):
        l = 'ijkl'[:n]
        for p in itertools.permutations(l):
            for s in shapes:
                r.append({'A': s, 'operation': l + '->' + ''.join(p)})
    return r


def s_reorder(a):
    i, o = a['operation'].split('->')
    return tuple(a['A'][i.index(c)] for c in o)


def v_matmat(a):
    A, B = a['A'], a['B']
    if len(A) != 2 or len(B) > 2:
        return None
    return A[1] == B[0]


def s_matmat(a):
    A, B = a['A'], a['B']
    return (A[0], B[1]) if len(B) == 2 else (A[0], )


def v_matvec(a):
    A, x = a['A'], a['x']
    if len(A) != 2:
        return None
    return len(x) == 1 and A[1] == x[0]


def v_inner(a):
    A, B = a['a'], a['b']
    if len(A) == 1 and len(B) == 1:
        return True if A == B else None
    if 'axes' not in a:
        return None
    i, j = a['axes']
    if any(not -len(A) <= x < len(A) for x in i) or any(
            not -len(B) <= x < len(B) for x in j):
        return False
    if [A[x] for x in i] != [B[x] for x in j]:
        return False
    if len(i) >= len(A) and len(j) >= len(B):
        return None
    return True


def s_inner(a):
    A, B = a['a'], a['b']
    if len(A) == 1 and len(B) == 1:
        return (1, )
    i, j = a['axes']
    return delete(A, i) + delete(B, j)


def g_inner_axes():
    r = []
    for A in SMALL:
        for B in SMALL:
            for i in axis_lists(len(A)):
                for j in axis_lists(len(B)):
                    r.append({'a': A, 'b': B, 'axes': (i, j)})
    # three pairs of axes, in any order
    A, B = (2, 3, 4, 5), (4, 5, 2, 3)
    for k in range(1, 4):
        for i in itertools.permutations(range(4), k):
            j = tuple((x + 2) % 4 for x in i)
            r.append({'a': A, 'b': B, 'axes': (i, j)})
            r.append({'a': A, 'b': B, 'axes': (i, j[::-1])})
            r.append({'a': A, 'b': B, 'axes': (
                i, tuple(x - 4 for x in j))})
    r.append({'a': (2, 3), 'b': (2, 3), 'axes': ((2, ), (0, ))})
    r.append({'a': (2, 3), 'b': (2, 3), 'axes': ((0, ), (2, ))})
    r.append({'a': (2, 3), 'b': (2, 3), 'axes': ((0, ), (-3, ))})
    return r


def axis_lists(n):
    return [(k, ) for k in range(-n, n)] + ([(0, 1), (1, 0), (0, -1)]
                                            if n > 1 else [])


def v_dot(a):
    if a['a'] != a['b']:
        return False
    s = a['a']
    if len(s) == 1:
        # the axis of a vector is not looked at
        return True if a.get('axis') in (None, 0, -1) else None
    if a.get('axis') is None:
        return None
    return axes_ok(s, (a['axis'], )) and s[a['axis']] == 3


def s_dot(a):
    return (1, ) if len(a['a']) == 1 else delete(a['a'], a['axis'])


def v_cross(a):
    return (a['a'] == a['b'] and axes_ok(a['a'], (a['axis'], )) and
            a['a'][a['axis']] == 3)


def s_rot(a):
    return (3, 3) if a['angle'] == (1, ) else a['angle'] + (3, 3)


def nontrivial(f):
    """Reductions over every axis are requested by giving no axes."""
    return f


def scal(a):
    return (1, )


def g_p(g):
    return lambda: [dict(a, p=p) for a in g() for p in (
        -2, -1, 0, 1, 2, 3, 4, 5, 6, 8)]


def v_p(a):
    return a['p'] > 0 and a['p'] % 2 == 0


def one_axis_ok(a):
    # removing the only axis of a vector leaves no axis: not claimed
    s = a['x']
    if not axes_ok(s, (a['axis'], )):
        return False
    return True if len(s) > 1 else None


def same_axes(a):
    return same(a) and axes_ok(a['xs'][0], a['axes'])


SPECS = {}
from ..sites import UNARY                                    # noqa
for _u in UNARY:
    SPECS[_u] = Sp(g_one(), lambda a: a['x'])
for _f in ('sum', 'average'):
    SPECS[_f + '[1]'] = Sp(g_one(), scal)
    SPECS[_f + '[1,axes]'] = Sp(g_axes(g_one()),
                                lambda a: delete(a['x'], a['axes']),
                                lambda a: axes_ok(a['x'], a['axes']))
    SPECS[_f + '[n]'] = Sp(g_star(), lambda a: a['xs'][0], same)
    SPECS[_f + '[n,axes]'] = Sp(g_axes(g_star(), 'xs'),
                                lambda a: delete(a['xs'][0], a['axes']),
                                same_axes)
for _f in ('max', 'min'):
    SPECS[_f + '[1]'] = Sp(g_one(), scal)
    SPECS[_f + '[n]'] = Sp(g_star(), lambda a: a['xs'][0], same)
    SPECS[_f + '[1,axis]'] = Sp(g_axis(g_one()),
                                lambda a: delete(a['x'], a['axis']),
                                one_axis_ok)
SPECS['pnorm'] = Sp(g_p(g_one(shapes=SMALL)), scal, v_p)
SPECS['pnorm[axis]'] = Sp(g_p(g_axis(g_one())),
                          lambda a: delete(a['x'], a['axis']),
                          lambda a: v_p(a) and (one_axis_ok(a)
                                                if v_p(a) else False))
SPECS['pnorm[axes]'] = Sp(g_p(g_axes(g_one())),
                          lambda a: delete(a['x'], a['axes']),
                          lambda a: v_p(a) and axes_ok(a['x'], a['axes']))
SPECS['reshape'] = Sp(g_newshape, lambda a: a['new_shape'],
                      lambda a: prod(a['x']) == prod(a['new_shape']))
SPECS['expand'] = Sp(g_newshape, lambda a: a['new_shape'], v_expand)
SPECS['expand[indices]'] = Sp(g_expand_idx, lambda a: a['new_shape'],
                              v_expand)
SPECS['matmat'] = Sp(g_two('A', 'B', S2, S1 + S2), s_matmat, v_matmat)
SPECS['matvec'] = Sp(g_two('A', 'x', S2, S1 + S2), lambda a: (a['A'][0], ),
                     v_matvec)
SPECS['transpose'] = Sp(g_one('A'), lambda a: a['A'][::-1])
SPECS['reorder_axes'] = Sp(g_reorder, s_reorder)
SPECS['inner'] = Sp(g_two('a', 'b'), s_inner, v_inner)
SPECS['inner[axes]'] = Sp(g_inner_axes, s_inner, v_inner)
SPECS['dot'] = Sp(g_two('a', 'b'), s_dot, v_dot)
SPECS['dot[axis]'] = Sp(g_axis(g_two('a', 'b'), of='a'), s_dot, v_dot)
SPECS['cross'] = Sp(g_axis(g_two('a', 'b'), of='a'), lambda a: a['a'],
                    v_cross)
SPECS['outer'] = Sp(g_two('a', 'b'), lambda a: a['a'] + a['b'])
for _x in 'xyz':
    SPECS['rotmat[%s]' % _x] = Sp(g_one('angle'), s_rot)
SPECS['if_else'] = Sp(
    lambda: [{'c': c, 't': x, 'f': y} for x in SMALL for y in SMALL
             for c in ((1, ), (1, 1), (2, ), (1, 3), (2, 2))],
    lambda a: a['t'], lambda a: a['t'] == a['f'] and prod(a['c']) == 1)
for _o, _l, _r in (('add', '__add__', '__radd__'),
                   ('sub', '__sub__', '__rsub__'),
                   ('mul', '__mul__', '__rmul__'),
                   ('truediv', '__truediv__', '__rtruediv__'),
                   ('pow', '__pow__', None)):
    if _o != 'pow':
        SPECS[_l + '[expr]'] = Sp(g_two('x', 'y'), lambda a: a['x'],
                                  lambda a: a['x'] == a['y'])
    for _k in ('int', 'float'):
        vals = (-2, -1, 0, 1, 2, 3) if _k == 'int' else (-0.5, 0.0, 0.5,
                                                         2.5)
        g = (lambda vals: lambda: [{'x': s, 'k': v} for s in SMALL
                                   for v in vals])(vals)
        SPECS['%s[%s]' % (_l, _k)] = Sp(
            g, lambda a: a['x'],
            (lambda a: a['k'] != 0) if _o == 'truediv' else
            (lambda a: True))
        if _r:
            SPECS['%s[%s]' % (_r, _k)] = Sp(g, lambda a: a['x'])
SPECS['__pow__[array]'] = Sp(
    lambda: [{'x': s, 'k': t} for s in SMALL for t in SMALL] + [
        {'x': s, 'k': s, '$dtype': d} for s in ((3, ), (2, 3)) for d in 'iub'],
    lambda a: a['x'], lambda a: a['x'] == a['k'])
def repeats(a):
    """The array can be repeated to the shape of the expression."""
    s, t = a['x'], a['k']
    if len(t) > len(s):
        return False
    return all(n in (1, m) for n, m in zip(t[::-1], s[::-1]))


for _l in ('__add__', '__sub__', '__mul__', '__truediv__'):
    SPECS[_l + '[array]'] = Sp(
        lambda: [{'x': s, 'k': t} for s in SMALL + [(6, ), (3, 2)]
                 for t in SMALL + [(6, ), (3, 2)]],
        lambda a: a['x'],
        # a repeated array is accepted, but that is not claimed
        (lambda a: None if repeats(a) and a['x'] != a['k'] else repeats(a))
        if _l != '__truediv__' else
        # whether the array contains a zero is not known
        (lambda a: None if repeats(a) else False))
SPECS['__neg__'] = Sp(g_one(), lambda a: a['x'])


def environment(case, a):
    """Bind the parameters of a case to an assignment."""
    env = {}
    for t in list(case.args) + list(case.kwargs.values()):
        if t.op == 'star':
            p = t.args[0]
            syms = []
            for n, s in enumerate(a[p.args[0]]):
                y = Sym('%s%d' % (p.args[0], n))
                env[(y, 'shape')] = s
                syms.append(y)
            env[p] = tuple(syms)
            env[t] = tuple(syms)
        elif t.op == 'param':
            n, kind = t.args[0], t.args[1]
            if n not in a:
                if kind in ('float', ):
                    env[t] = 20.
                continue
            if kind in ('Variable', 'ndarray'):
                y = Sym(n)
                env[(y, 'shape')] = a[n]
                env[t] = y
            else:
                env[t] = a[n]
    return env


def raised(raises, env):
    """Does one of the raise statements execute?  (True, where) / (False,) /
    (None,)"""
    unk = False
    for facts, exc, where, loops in raises:
        v = reach(facts, loops, env)
        if v is True:
            return True, where
        if v is None:
            unk = True
    return (None if unk else False), None


def reach(facts, loops, env):
    if loops:
        dom, idx = loops[0]
        try:
            vals = domain(dom, env)
        except Unknown:
            return None
        except Fails:
            return True
        unk = False
        for v in vals:
            e = dict(env)
            e[idx] = v
            r = reach(facts, loops[1:], e)
            if r is True:
                return True
            if r is None:
                unk = True
        return None if unk else False
    unk = False
    for c, v in facts:
        try:
            if truthv(ev(c, env)) != v:
                return False
        except Unknown:
            unk = True
        except Fails:
            return None if unk else True
    return None if unk else True


def asshape(v):
    if isinstance(v, bool):
        raise Unknown('shape')
    if isinstance(v, int):
        return (v, )
    if isinstance(v, (tuple, list)):
        return tuple(v)
    raise Unknown('shape')


def fmt(a):
    return ', '.join('%s=%s' % (k, a[k]) for k in sorted(a))


def cond_holds(conds, env):
    unk = False
    for c, v in conds:
        try:
            if truthv(ev(c, env)) != v:
                return False
        except Unknown:
            unk = True
        except Fails:
            return False
    return None if unk else True


def instance_for(root, env):
    """The instances whose conditions hold: (list, known)."""
    hit, unk = [], False
    for i in root.instances:
        if i.cls is None:
            unk = True
            continue
        h = cond_holds(i.conds, env)
        if h is True:
            hit.append(i)
        elif h is None:
            unk = True
    return hit, unk


def rule_shapes(ctx, rep):
    """Result, declared output and declared input shapes."""
    w = ctx.world
    for root in ctx.roots():
        sp = SPECS.get(root.case.name)
        if sp is None:
            continue
        name = root.case.name
        if root.problem or root.always_raises:
            rep.und('result-shape', name, root.problem or 'always raises')
            continue
        agg = {}

        def note(rule, inst, v, msg, where):
            cur = agg.setdefault((rule, inst), [0, 0, None, None])
            if v is True:
                cur[0] += 1
            elif v is None:
                cur[1] += 1
            elif cur[2] is None:
                cur[2], cur[3] = msg, where
        for a in sp.gen():
            if sp.valid(a) is not True:
                continue
            env = environment(root.case, a)
            if raised(root.raises, env)[0] is not False:
                continue
            want = sp.shape(a)
            hit, unk = instance_for(root, env)
            for i in hit:
                if not wiring.is_result(i):
                    continue
                m = w.model(i)
                site = wiring.site_key(i)
                sh = i.root_state.get(i.out, 'shape')
                try:
                    got = asshape(ev(sh, env)) if sh is not None else None
                    if got is None:
                        raise Unknown('shape')
                    note('result-shape', site, got == want,
                         'for %s the result has shape %s instead of %s'
                         % (fmt(a), got, want), wiring.where_of(i))
                except Unknown:
                    got = None
                    note('result-shape', site, None, '', None)
                except Fails:
                    got = None
                    note('result-shape', site, None, '', None)
                outs = [d for d in m.decls if d.kind == 'add_output']
                for d in outs:
                    if len(outs) > 1 and cond_holds(d.guard,
                                                    env) is not True:
                        continue
                    s = d.args.get('shape')
                    try:
                        if s is None or s is NONE:
                            if 'val' in d.args:
                                raise Unknown('val')
                            g = (1, )
                        else:
                            g = asshape(ev(s, env))
                        ref = got if got is not None else want
                        note('declared-output-shape', site, g == ref,
                             'for %s the output is declared with shape %s '
                             'but the result has shape %s'
                             % (fmt(a), g, ref), d.where)
                    except (Unknown, Fails):
                        note('declared-output-shape', site, None, '', None)
                ops = operands(root.case)
                for d in wiring.input_decls(m):
                    nm = d.args.get('name')
                    fr = field_ref(nm, 'name', ops) if nm is not None \
                        else None
                    inst = '%s operand %s' % (site, fr[1].label if fr
                                              else '?')
                    if fr is None:
                        note('declared-input-shape', inst, None, '', None)
                        continue
                    try:
                        envs = [env]
                        for dom, idx in d.loops:
                            envs = [e2 for e in envs
                                    for e2 in bind(dom, idx, e)]
                        for e in envs:
                            y = ev(nm.args[0], e)
                            s = d.args.get('shape')
                            if s is None or s is NONE:
                                v = d.args.get('val')
                                if v is not None and not is_const(
                                        v) and field_ref(v, 'val',
                                                         ops) is None:
                                    raise Unknown('val')
                                # the value of an intermediate expression
                                # is np.array([1])
                                g = (1, )
                            else:
                                g = asshape(ev(s, e))
                            note('declared-input-shape', inst,
                                 g == e[(y, 'shape')],
                                 'for %s the input is declared with shape '
                                 '%s but the operand has shape %s'
                                 % (fmt(a), g, e[(y, 'shape')]), d.where)
                    except (Unknown, Fails):
                        note('declared-input-shape', inst, None, '', None)
        for (rule, inst), (ok, und, msg, where) in sorted(agg.items()):
            if msg is not None:
                rep.bad(rule, where, inst, msg)
            elif und or not ok:
                rep.und(rule, inst, '%d of %d assignments' % (und,
                                                              ok + und))
            else:
                rep.ok(rule, inst, '%d assignments' % ok)
                rep.notes['assignments'] = rep.notes.get(
                    'assignments', 0) + ok


def setup_raised(w, root, env):
    hit, unk = instance_for(root, env)
    for i in hit:
        m = w.model(i)
        if getattr(m, 'setup_ok', True) is False:
            return True, wiring.where_of(i)
        v, where = raised(m.setup_raises, env)
        if v is not False:
            return v, where
    return (None if unk and not hit else False), None


def rule_rejects(ctx, rep):
    """Shapes that cannot be combined are rejected when the expression is
    written; the others are accepted."""
    w = ctx.world
    for root in ctx.roots():
        sp = SPECS.get(root.case.name)
        if sp is None:
            continue
        name = root.case.name
        nbad = nok = 0
        st = {'rejects-invalid': [0, 0, None, None],
              'accepts-valid': [0, 0, None, None]}
        for a in sp.gen():
            v = sp.valid(a)
            if v is None:
                continue
            env = environment(root.case, a)
            if root.problem:
                r, where = None, None
            elif root.always_raises:
                r, where = True, None
            else:
                r, where = raised(root.raises, env)
                if r is False:
                    sr, where = setup_raised(w, root, env)
                    # what is not known of the set-up says nothing about
                    # operands that must be refused
                    r = sr if v or sr is True else r
            if v is False:
                c = st['rejects-invalid']
                if r is True:
                    c[0] += 1
                elif r is None:
                    c[1] += 1
                elif c[2] is None:
                    # an operation on the shapes may still fail
                    f = shape_fails(root, env)
                    if f is True:
                        c[0] += 1
                    elif f is None:
                        c[1] += 1
                    else:
                        c[2] = ('%s is accepted although the operands '
                                'cannot be combined' % fmt(a))
                        c[3] = first_where(root)
            else:
                c = st['accepts-valid']
                if r is False:
                    c[0] += 1
                elif r is None:
                    c[1] += 1
                elif c[2] is None:
                    c[2] = '%s is valid but is rejected' % fmt(a)
                    c[3] = where
        for rule, (ok, und, msg, where) in sorted(st.items()):
            if msg is not None:
                rep.bad(rule, where or first_where(root), name, msg)
            elif und and not ok:
                rep.und(rule, name, '%d assignments undecided' % und)
            elif und:
                rep.und(rule, name, '%d of %d assignments undecided'
                        % (und, und + ok))
            elif ok:
                rep.ok(rule, name, '%d assignments' % ok)
                rep.notes['assignments'] = rep.notes.get(
                    'assignments', 0) + ok


def shape_fails(root, env):
    for i in root.instances:
        if i.cls is None or i.root_state is None:
            return None
        sh = i.root_state.get(i.out, 'shape')
        if sh is None:
            continue
        try:
            ev(sh, env)
        except Fails:
            return True
        except Unknown:
            return None
    return False


def first_where(root):
    for i in root.instances:
        if i.where:
            return i.where
        if i.cls is not None:
            return wiring.where_of(i)
    return root.case.name


def rule_values_refused(ctx, rep):
    """Values that name no operation are refused when the expression is
    written."""
    for bad in ('w', 'X', '', 'xy', None, 0, 3):
        root = ctx.world.run(Case(
            'rotmat', [V('angle')], {'axis': const(bad)},
            'rotmat about %r' % (bad, )))
        inst = 'rotmat about %r' % (bad, )
        if root.problem:
            rep.und('values-refused', inst, root.problem)
        elif root.always_raises:
            rep.ok('values-refused', inst)
        elif root.raises:
            rep.und('values-refused', inst, 'may raise')
        elif any(i.cls is None for i in root.instances):
            rep.und('values-refused', inst, 'built later')
        else:
            rep.bad('values-refused', first_where(root), inst,
                    'is accepted')
