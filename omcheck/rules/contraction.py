"""einsum: what it computes, its shape and derivatives.

The subscripts and the shapes of the operands are enumerated and given to the
abstract interpreter as constants, so that the loops over characters and axes
unfold; names, initial values and the entries of the operands are symbols.
The value graph of the built component is compared with the sum over all
values of the subscripts."""
import itertools
import time
from .common import *
from .. import scalar as R
from .. import arrays as A
from ..arrays import Arr, x_add, x_mul, size, indices
from ..evalu import Unknown, Fails, ev
from ..sites import Case, V, leaves
from ..interp import const, mk
from . import wiring
from .numeric import environment, Site, check, single_atom, Tally
from .shapes import asshape

# subscripts, shapes, operands (one letter for each different operand)
FORMS = [
    ('i->', [(3, )], 'a'), ('i->i', [(3, )], 'a'),
    ('i->', [(1, )], 'a'),
    ('ij->', [(2, 3)], 'a'), ('ij->j', [(2, 3)], 'a'),
    ('ij->i', [(2, 3)], 'a'), ('ij->ji', [(2, 3)], 'a'),
    ('ij->ij', [(2, 3)], 'a'),
    ('ijk->', [(2, 1, 3)], 'a'), ('ijk->kji', [(2, 1, 3)], 'a'),
    ('ijk->kij', [(2, 3, 2)], 'a'), ('ijk->j', [(2, 3, 2)], 'a'),
    ('ijk->ki', [(2, 2, 3)], 'a'),
    ('ii->i', [(3, 3)], 'a'), ('ii->', [(3, 3)], 'a'),
    ('iji->j', [(2, 3, 2)], 'a'),
    ('i,i->', [(3, ), (3, )], 'ab'), ('i,i->i', [(3, ), (3, )], 'ab'),
    ('i,j->ij', [(2, ), (3, )], 'ab'), ('i,j->ji', [(2, ), (3, )], 'ab'),
    ('i,j->', [(2, ), (3, )], 'ab'), ('i,j->j', [(2, ), (3, )], 'ab'),
    ('i,j->i', [(2, ), (3, )], 'ab'),
    ('ij,j->i', [(2, 3), (3, )], 'ab'), ('j,ij->i', [(3, ), (2, 3)], 'ab'),
    ('ij,jk->ik', [(2, 3), (3, 2)], 'ab'),
    ('ij,jk->ki', [(2, 3), (3, 2)], 'ab'),
    ('ij,kj->ik', [(2, 2), (2, 2)], 'ab'),
    ('ij,ij->', [(2, 3), (2, 3)], 'ab'),
    ('ij,ji->', [(2, 2), (2, 2)], 'ab'),
    ('ij,ji->ij', [(2, 2), (2, 2)], 'ab'),
    ('ij,i->ij', [(2, 3), (2, )], 'ab'),
    ('ijk,j->ik', [(2, 3, 2), (3, )], 'ab'),
    ('ijk,kl->lij', [(2, 1, 2), (2, 3)], 'ab'),
    ('hij,k->hijk', [(2, 1, 2), (2, )], 'ab'),
    ('ab,cd->dbca', [(2, 1), (1, 2)], 'ab'),
    ('Ab,bC->CA', [(2, 3), (3, 2)], 'ab'),
    ('xyz,zy->x', [(2, 2, 3), (3, 2)], 'ab'),
    ('i,i->', [(3, ), (3, )], 'aa'), ('i,i->i', [(3, ), (3, )], 'aa'),
    ('i,j->ij', [(3, ), (3, )], 'aa'), ('i,j->', [(3, ), (3, )], 'aa'),
    ('i,j->j', [(3, ), (3, )], 'aa'),
    ('ij,jk->ik', [(2, 2), (2, 2)], 'aa'),
    ('ij,ji->ij', [(2, 2), (2, 2)], 'aa'),
    ('ij,kj->ki', [(2, 3), (2, 3)], 'aa'),
    ('i,i,i->i', [(2, ), (2, ), (2, )], 'abc'),
    ('i,j,k->kij', [(2, ), (3, ), (1, )], 'abc'),
    ('i,ij,j->', [(2, ), (2, 3), (3, )], 'abc'),
    ('ij,jk,kl->il', [(2, 1), (1, 2), (2, 2)], 'abc'),
    ('i,ij,j->', [(2, ), (2, 2), (2, )], 'aba'),
    ('i,ij,j->j', [(2, ), (2, 2), (2, )], 'aba'),
    ('i,j,ij->i', [(2, ), (2, ), (2, 2)], 'aab'),
    ('ij,j,i->j', [(2, 2), (2, ), (2, )], 'abb'),
    ('i,i,i->i', [(2, ), (2, ), (2, )], 'aaa'),
    ('i,j,i->ij', [(2, ), (2, ), (2, )], 'aaa'),
    ('abc,ade,fae->bcdfa', [(1, 1, 2), (1, 2, 1), (2, 1, 1)], 'abc'),
    ('i,i,j,j->ij', [(2, ), (2, ), (2, ), (2, )], 'abba'),
    ('i,j,k,k->ki', [(2, ), (3, ), (2, ), (2, )], 'abcc'),
    ('i,jk,k,ij->', [(2, ), (3, 2), (2, ), (2, 3)], 'abcd'),
    ('i,i,i,i->i', [(2, ), (2, ), (2, ), (2, )], 'aaaa'),
    ('i,j,i,j->ij', [(2, ), (2, ), (2, ), (2, )], 'aaaa'),
    ('i,i,i,i,i->', [(2, ), (2, ), (2, ), (2, ), (2, )], 'ababa'),
    ('i,j,k,l,m->mi', [(2, ), (1, ), (2, ), (1, ), (2, )], 'abcde'),
    ('abcd,efg,hijkl,mn->anm', [(2, 1, 1, 1), (1, 1, 1),
                                (1, 1, 1, 1, 1), (1, 2)], 'abcd'),
    ('i,j,kj,ki->k', [(2, ), (3, ), (1, 3), (1, 2)], 'abcd'),
    # axes of length one are repeated
    ('i,i->', [(1, ), (3, )], 'ab'), ('i,i->i', [(3, ), (1, )], 'ab'),
    ('i,i->i', [(1, ), (3, )], 'ab'),
    ('ij,j->i', [(2, 1), (3, )], 'ab'), ('ij,j->ij', [(1, 2), (2, )], 'ab'),
    ('ij,ij->ji', [(1, 3), (2, 1)], 'ab'),
]
# subscripts that do not fit the operands
MISFITS = [
    ('i,i->', [(3, ), (4, )], 'ab'), ('i,i->i', [(2, ), (3, )], 'ab'),
    ('ij,jk->ik', [(2, 3), (2, 3)], 'ab'),
    ('ij,jk->ik', [(2, 3), (4, 2)], 'ab'),
    ('ii->', [(2, 3)], 'a'), ('ii->i', [(2, 3)], 'a'),
    ('i->i', [(2, 3)], 'a'), ('ij->', [(3, )], 'a'),
    ('ijk->ik', [(2, 3)], 'a'), ('ij,j->i', [(2, 3), (3, 1)], 'ab'),
    ('i,j->ij', [(2, 2), (3, )], 'ab'),
    ('i->i', [(3, ), (3, )], 'ab'), ('i,i->i', [(3, )], 'a'),
    ('i,j->ij', [(3, ), (2, ), (2, )], 'abc'),
    ('i,i,i->', [(3, ), (3, )], 'ab'),
    ('i->k', [(3, )], 'a'), ('i,j->ik', [(2, ), (3, )], 'ab'),
    ('i->ii', [(3, )], 'a'), ('ij->jij', [(2, 3)], 'a'),
    ('i,ij,j->', [(2, ), (2, 3), (2, )], 'abc'),
    ('i,j,j->ij', [(3, ), (2, ), (3, )], 'abc'),
    ('i,j,ij->i', [(2, ), (3, ), (3, 2)], 'abc'),
]
AXES = ['rows', 7, 'time', 0, 'x', (1, 2), 'depth', 3, 'q', 'w', 'a', 11,
        'b', 'z']


def shape_of(sub, shapes):
    ins, out = sub.split('->')
    n = {}
    for l, s in zip(ins.split(','), shapes):
        for c, k in zip(l, s):
            n[c] = max(k, n.get(c, 1))
    return tuple(n[c] for c in out) or (1, )


def contract(sub, ops):
    """The sum over all values of the subscripts, by definition."""
    ins, out = sub.split('->')
    ins = ins.split(',')
    n = {}
    for l, x in zip(ins, ops):
        for c, k in zip(l, x.shape):
            n[c] = max(k, n.get(c, 1))
    chars = sorted(n)
    shape = tuple(n[c] for c in out) or (1, )
    data = [0] * size(shape)
    for vals in itertools.product(*[range(n[c]) for c in chars]):
        at = dict(zip(chars, vals))
        p = 1
        for l, x in zip(ins, ops):
            o = 0
            for c, k in zip(l, x.shape):
                o = o * k + (at[c] if k > 1 else 0)
            p = x.data[o] if p == 1 else A.un(R.mul(
                R.lift(p), R.lift(x.data[o])))
        o = 0
        for c in out:
            o = o * n[c] + at[c]
        data[o] = p if data[o] == 0 else A.un(R.add(
            R.lift(data[o]), R.lift(p)))
    return Arr(shape, data)


def axis_tuples(sub):
    """The same subscripts as lists of axis names."""
    ins, out = sub.split('->')
    m = {}
    r = []
    for l in ins.split(',') + ([out] if out else []):
        t = []
        for c in l:
            if c not in m and len(r) == ins.count(',') + 1:
                return r + [('unknown', )]
            if c not in m:
                m[c] = AXES[len(m)]
            t.append(m[c])
        r.append(tuple(t))
    return r


def lit(v):
    if isinstance(v, (tuple, list)):
        return mk('tup', *[lit(x) for x in v])
    return const(v)


def systematic():
    """Every pattern of the subscripts of one operand of rank 1-3 and of two
    operands of rank 1-2, with every output."""
    def words(n):
        # canonical words: letters appear in order
        ws = ['']
        for _ in range(n):
            ws = [w + c for w in ws for c in 'ijkl'[:len(set(w)) + 1]]
        return ws
    lens = dict(i=2, j=3, k=1, l=2)
    for ranks in ((1, ), (2, ), (3, ), (1, 1), (1, 2), (2, 1), (2, 2)):
        for w in words(sum(ranks)):
            ins, k = [], 0
            for r in ranks:
                ins.append(w[k:k + r])
                k += r
            shapes = [tuple(lens[c] for c in l) for l in ins]
            letters = sorted(set(w))
            for n in range(len(letters) + 1):
                for out in itertools.permutations(letters, n):
                    sub = ','.join(ins) + '->' + ''.join(out)
                    yield sub, shapes, 'ab'[:len(ins)]
                    if len(ins) == 2 and shapes[0] == shapes[1]:
                        yield sub, shapes, 'aa'


def cases(deep=False):
    forms = list(FORMS)
    if deep:
        forms += [f for f in systematic() if f not in forms]
    for sub, shapes, who in forms:
        ops = [V(c) for c in who]
        a = {c: s for c, s in zip(who, shapes)}
        preset = [(V(c), 'shape', lit(s)) for c, s in sorted(a.items())]
        for fmt_ in ('dense', 'sparse'):
            k = {} if fmt_ == 'dense' else {'partial_format': const(fmt_)}
            lab = '%s (%s) %s %s' % (sub, who, shapes, fmt_)
            yield Case('einsum', ops, dict(k, subscripts=const(sub)), lab,
                       preset=preset), a, sub, ops
            yield Case('einsum_new_api', ops, dict(
                k, operation=lit(axis_tuples(sub))), lab,
                preset=preset), a, sub, ops
            if sub.endswith('->') and len(shapes) <= 2:
                # the scalar result written down
                yield Case('einsum_new_api', ops, dict(
                    k, operation=lit(axis_tuples(sub) + [()])),
                    lab.replace(' ', ' () ', 1), preset=preset), a, sub, ops


def built(ctx):
    if getattr(ctx, '_einsum', None) is None:
        ctx._einsum = []
        for case, a, sub, ops in cases(
                ctx.tier != 'quick'):
            if time.time() > ctx.deadline:
                break
            root = ctx.world.run(case)
            ctx._einsum.append((case, a, sub, ops, root))
    return ctx._einsum


def each(ctx, t, rule):
    for case, a, sub, ops, root in built(ctx):
        nm = case.api + ' ' + case.label.rsplit(' ', 1)[1]
        if root.problem or root.always_raises or root.result is None:
            if root.always_raises and root.raises and not root.problem:
                t.note(rule, nm, False, '%s is refused' % case.label,
                       raise_where(root))
            else:
                t.note(rule, nm, None, root.problem or 'raises')
            continue
        insts = [i for i in root.instances if wiring.is_result(i)]
        if len(insts) != 1 or insts[0].conds or insts[0].cls is None:
            t.note(rule, nm, None, '%d results' % len(insts))
            continue
        yield case, a, sub, ops, root, insts[0], nm


def raise_where(root):
    return 'omtools/std/%s.py' % root.case.api, 1


def rule_shape(ctx, rep):
    t = Tally()
    for case, a, sub, ops, root, inst, nm in each(ctx, t, 'result-shape'):
        want = shape_of(sub, [a[o.args[0]] for o in ops])
        try:
            env, ins = environment(case, a)
            sh = root.state.get(inst.out, 'shape')
            got = None if sh is None else asshape(ev(sh, env))
            site = Site(ctx.world, root, inst, env)
            decl = site.out_shape()
        except (Unknown, Fails, TypeError) as e:
            t.note('result-shape', nm, None, str(e))
            continue
        ok = got == want and decl == want
        t.note('result-shape', nm, ok, 'for %s the result has shape %s and '
               'is declared with %s instead of %s' % (
                   case.label, got, decl, want), wiring.where_of(inst))
    t.emit(rep, 'forms')


def rule_value(ctx, rep):
    t = Tally()
    for case, a, sub, ops, root, inst, nm in each(ctx, t, 'contraction'):
        def run():
            env, ins = environment(case, a)
            want = contract(sub, [ins[o.args[0]] for o in ops])
            return Site(ctx.world, root, inst, env).forward(), want
        check(t, 'contraction', nm, dict(a, subscripts=sub), run,
              wiring.where_of(inst), 'the result of %s' % case.label)
    t.emit(rep, 'forms')


def rule_derivatives(ctx, rep):
    t = Tally()
    for case, a, sub, ops, root, inst, nm in each(ctx, t, 'derivative'):
        for lab in sorted(a):
            def run():
                env, ins = environment(case, a)
                s = Site(ctx.world, root, inst, env)
                x = [y for y in s.input_names() if y.sym.label == lab]
                if len(x) != 1:
                    raise Fails('%s is not an input' % lab)
                x = x[0]
                j = s.jacobian(x)
                f = contract(sub, [ins[o.args[0]] for o in ops])
                ni = size(a[lab])
                want, got = [], []
                for o, u in enumerate(f.data):
                    for i in range(ni):
                        v = single_atom(ins[lab].data[i])
                        want.append(A.un(R.diff(R.lift(u), v)))
                        got.append(j.get((o, i), 0))
                return Arr((f.size, ni), got), Arr((f.size, ni), want)
            check(t, 'derivative', nm, dict(a, subscripts=sub), run,
                  wiring.where_of(inst),
                  'the derivative of %s with respect to %s' % (
                      case.label, lab))
    t.emit(rep, 'forms')


def rule_format(ctx, rep):
    """Anything but dense and sparse is refused."""
    t = Tally()
    for bad, n in itertools.product(('Dense', 'both', '', None), (1, 2, 5)):
        for api, kw in (('einsum', {'subscripts': const(
                ','.join('i' * n) + '->')}), ('einsum_new_api', {
                    'operation': lit([('x', )] * n)})):
            ops = [V(x) for x in 'abcde'[:n]]
            root = ctx.world.run(Case(api, ops, dict(
                kw, partial_format=const(bad)), 'format %r %d' % (bad, n),
                preset=[(o, 'shape', lit((3, ))) for o in ops]))
            if root.problem:
                t.note('format', api, None, root.problem)
            else:
                t.note('format', api, root.always_raises, 'partial_format=%r '
                       'is accepted with %d operands' % (bad, n), raise_where(root))
    t.emit(rep, 'values')


def rule_misfits(ctx, rep):
    """Subscripts that do not fit the operands are refused when the
    expression is written or the component is set up."""
    t = Tally()
    for sub, shapes, who in MISFITS:
        ops = [V(c) for c in who]
        preset = [(V(c), 'shape', lit(s)) for c, s in zip(who, shapes)]
        for api, fmt_ in itertools.product(
                ('einsum', 'einsum_new_api'), ('dense', 'sparse')):
            kw = {'subscripts': const(sub)} if api == 'einsum' else {
                'operation': lit(axis_tuples(sub))}
            if api != 'einsum' and (
                    sub.count(',') + 1 != len(shapes) or
                    'unknown' in str(kw['operation'])):
                # the number of lists says which one is the result's
                continue
            if fmt_ == 'sparse':
                kw['partial_format'] = const(fmt_)
            root = ctx.world.run(Case(
                api, ops, kw, 'misfit %s %s %s' % (sub, shapes, fmt_),
                preset=preset))
            what = '%s of operands with shapes %s is accepted' % (
                sub, ', '.join(map(str, shapes)))
            if root.problem:
                t.note('misfits', api, None, root.problem)
                continue
            if root.always_raises:
                t.note('misfits', api, True)
                continue
            insts = [i for i in root.instances if wiring.is_result(i)]
            if len(insts) != 1 or insts[0].cls is None or root.raises:
                t.note('misfits', api, None, '%s %d results' % (sub, len(insts)))
                continue
            m = ctx.world.model(insts[0])
            if not getattr(m, 'setup_ok', True):
                t.note('misfits', api, True)
            elif m.setup_raises:
                t.note('misfits', api, None, 'may raise')
            else:
                t.note('misfits', api, False, what, raise_where(root))
    t.emit(rep, 'forms')


RULES = [rule_shape, rule_value, rule_derivatives, rule_format,
         rule_misfits]
