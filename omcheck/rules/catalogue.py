"""One operation at a time, with the constants and the number of operands a
user may give, and operands with special entries: the value and the
derivatives of the model of each."""
from fractions import Fraction
from .. import arrays as A
from ..arrays import Arr, size
from ..report import Report
from .models import (Program, constant, decide_model, func, oper, valid)

SYM = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'pow': '**'}


def one(op, *ins):
    """The program that registers the result of op on inputs (name,
    shape)."""
    p = Program()
    for n, s in ins:
        p.stmts.append(('in', n, s))
        p.shape[n] = s
    p.stmts += [('op', 'r', op, [n for n, s in ins]), ('reg', 'res', 'r')]
    return p


def scalars(tier):
    ints = (0, 1, -1, 2, 3, -4, 7, 10, 25, 1000)
    floats = (0.0, 1.0, -1.0, 2.0, 0.5, -0.25, 3.5, 12.5, 100.0, 0.0625,
              -1024.0)
    for ks, kind in ((ints, 'int'), (floats, 'float')):
        for k in ks:
            for o in ('add', 'sub', 'mul', 'truediv'):
                if not (o == 'truediv' and k == 0):
                    yield one(oper('__%s__' % o, '__%s__[%s]' % (o, kind), k,
                                   '%%s %s %r' % (SYM[o], k)), ('x', (2, )))
                yield one(oper('__r%s__' % o, '__r%s__[%s]' % (o, kind), k,
                               '%r %s %%s' % (k, SYM[o])), ('x', (2, )))


def powers(tier):
    for k in (1, 2, 3, 4, 5, 6, 9, 10, 12, -1, -2, -3, -5):
        for n in ('x', 'tiny_x'):
            yield one(oper('__pow__', '__pow__[int]', k, '%%s ** %r' % k),
                      (n, (2, )))
    for k in (1.0, 2.0, 3.0, 10.0, -1.0, -2.0):
        yield one(oper('__pow__', '__pow__[float]', k, '%%s ** %r' % k),
                  ('x', (2, )))
    for k in (0.5, 1.5, 2.5, -0.5, 0.25, 10.5, -3.5, 0.333):
        yield one(oper('__pow__', '__pow__[float]', k, '%%s ** %r' % k),
                  ('pos_x', (2, )))
    for k in (2, 3, 2.0, 3.0):
        yield one(oper('__pow__', '__pow__[%s]' % type(k).__name__, k,
                       '%%s ** %r' % k), ('mixed_x', (3, )))


def arrays(tier):
    F = Fraction
    for d in ((1, 1, 1), (2, 2, 2), (1, -1, 1), (0, 0, 0), (0, 1, 2),
              (-3, 5, 100), (F(1, 2), F(-1, 4), F(5, 2))):
        kinds = 'fi' if all(isinstance(v, int) for v in d) else 'f'
        for t in kinds:
            w = Arr((3, ), [F(v) if t == 'f' else v for v in d], t)
            for o in ('add', 'sub', 'mul', 'truediv', 'pow'):
                if o == 'truediv' and 0 in d:
                    continue
                pos = o == 'pow' and (kinds == 'f' or 0 in d)
                op = constant(o, SYM[o], (3, ), 0, w)
                op.text = '%%s %s %s' % (SYM[o], list(map(str, d)))
                yield one(op, ('pos_x' if pos else 'x', (3, )))


def binary(tier):
    for o in ('add', 'sub', 'mul', 'truediv'):
        for a, b in (('x', 'y'), ('big_x', 'y'), ('x', 'tiny_y'),
                     ('x', 'dust_y'), ('dust_x', 'y'),
                     ('tie_x', 'tie_y'), ('zero_x', 'y'), ('mixed_x', 'y')):
            for s in ((3, ), (2, 2)):
                yield one(oper('__%s__' % o, '__%s__[expr]' % o, None,
                               '%%s %s %%s' % SYM[o]), (a, s), (b, s))


def c03(tier):
    for f in (scalars, powers, arrays, binary):
        for p in f(tier):
            yield p


def c05(tier):
    for f in ('sum', 'average'):
        for n in (2, 3, 4, 5, 7):
            for s in ((3, ), (2, 2)):
                yield one(func(f, f + '[n]', '*'), *[
                    ('x%d' % i, s) for i in range(n)])
            for ax in ((0, ), (1, )):
                yield one(func(f, f + '[n,axes]', '*', (), {'axes': ax},
                               {'axes': ax}), *[
                    ('x%d' % i, (2, 3)) for i in range(n)])
        for n in ('tie_x', 'zero_x', 'mixed_x', 'big_x'):
            yield one(func(f, f + '[1]', 'x'), (n, (3, )))
        for s in ((8, ), (5, 3), (2, 2, 4), (2, 2, 2, 2)):
            yield one(func(f, f + '[1]', 'x'), ('x', s))
        for s, ax in (((2, 3, 2, 2), (0, 1, 2)), ((2, 3, 2, 2), (0, 2)),
                      ((2, 3, 2, 2), (1, 2, 3)), ((2, 3, 2, 2), (3, 1, 0)),
                      ((2, 3, 4), (2, 0)), ((2, 3, 4), (-1, )),
                      ((2, 3, 4), (-3, 1)), ((2, 3, 2, 2), (-1, 0, -3)),
                      ((2, 1, 2, 1, 2), (0, 2, 4)), ((5, 2), (1, ))):
            yield one(func(f, f + '[1,axes]', 'x', (), {'axes': ax},
                           {'axes': ax}), ('x', s))


def c06(tier):
    for f in ('max', 'min'):
        for rho in (0.5, 1., 2., 5., 20., 50., 100., 400.):
            k = {'rho': rho}
            for a, b in (('x', 'y'), ('tie_x', 'tie_y')):
                yield one(func(f, f + '[n]', '*', (), k, k), (a, (2, )),
                          (b, (2, )))
                yield one(func(f, f + '[1]', 'x', (), k, k), (a, (3, )))
            for ax in (0, 1):
                k = {'rho': rho, 'axis': ax}
                yield one(func(f, f + '[1,axis]', 'x', (), k, k),
                          ('x', (2, 3)))
        k = {'rho': 2.}
        for n in (3, 4, 5):
            yield one(func(f, f + '[n]', '*', (), k, k), *[
                ('x%d' % i, (2, )) for i in range(n)])
        for n in ('zero_x', 'mixed_x', 'tiny_x'):
            yield one(func(f, f + '[1]', 'x', (), k, k), (n, (3, )))


def c07(tier):
    for p in (2, 4, 6, 8, 10, 12, 20):
        k = {'pnorm_type': p}
        for n in ('x', 'tiny_x', 'mixed_x', 'big_x', 'dust_x'):
            yield one(func('pnorm', 'pnorm', 'x', (), k, {'p': p}),
                      (n, (2, )))
        for ax in (0, 1):
            yield one(func('pnorm', 'pnorm[axis]', 'x', (), dict(
                k, axis=ax), {'p': p, 'axis': ax}), ('x', (2, 3)))


def elementary(tier):
    for f in ('arccos', 'arcsin', 'arctan', 'cos', 'cosec', 'cosech', 'cosh',
              'cotan', 'cotanh', 'exp', 'log', 'log10', 'sec', 'sech', 'sin',
              'sinh', 'tan', 'tanh'):
        for n in ('unit_x', 'pos_x', 'big_x', 'tiny_x', 'zero_x', 'mixed_x',
                  'tie_x', 'whole_x', 'dust_x'):
            if f in ('arccos', 'arcsin') and n not in (
                    'unit_x', 'tiny_x', 'dust_x', 'zero_x', 'tie_x', 'mixed_x'):
                continue
            if f in ('log', 'log10') and n not in ('pos_x', 'tie_x',
                                                   'whole_x'):
                continue
            if f in ('cosec', 'cosech', 'cotan', 'cotanh') and n in (
                    'zero_x', 'mixed_x'):
                continue
            yield one(func(f, f, 'x'), (n, (3, )))
            if tier != 'quick':
                yield one(func(f, f, 'x'), (n, (2, 2)))


def c08(tier):
    pairs = [((4, ), (4, )), ((9, ), (9, )), ((1, ), (1, ))]
    for sa, sb in pairs:
        for a, b in (('x', 'y'), ('zero_x', 'y'), ('mixed_x', 'big_y'),
                     ('tie_x', 'tie_y')):
            yield one(func('inner', 'inner', 'ab'), (a, sa), (b, sb))
            yield one(func('dot', 'dot', 'ab'), (a, sa), (b, sb))
            if sa != (9, ):
                yield one(func('outer', 'outer', 'ab'), (a, sa), (b, sb))
    for sa, sb in (((2, ), (5, )), ((5, ), (2, )), ((2, 3), (4, )),
                   ((1, 4), (3, ))):
        yield one(func('outer', 'outer', 'ab'), ('x', sa), ('y', sb))
    for sa, sb in (((4, 5), (5, 3)), ((1, 6), (6, 1)), ((6, 1), (1, 4)),
                   ((3, 3), (3, 3)), ((2, 7), (7, 2))):
        for a, b in (('x', 'y'), ('mixed_x', 'y'), ('tie_x', 'tie_y')):
            yield one(func('matmat', 'matmat', 'AB'), (a, sa), (b, sb))
    for sa in ((4, 5), (1, 6), (6, 1), (5, 5)):
        for a, b in (('x', 'y'), ('mixed_x', 'y'), ('x', 'mixed_y')):
            yield one(func('matvec', 'matvec', 'Ax'), (a, sa), (
                b, (sa[1], )))
    for s, ax in (((3, ), 0), ((3, 4), 0), ((5, 3), 1), ((3, 3), 0),
                  ((3, 3), 1), ((2, 3, 4), 1)):
        for a, b in (('x', 'y'), ('mixed_x', 'y')):
            yield one(func('cross', 'cross', 'ab', (ax, ), None, {
                'axis': ax}), (a, s), (b, s))
            if len(s) > 1:
                yield one(func('dot', 'dot[axis]', 'ab', (), {'axis': ax},
                               {'axis': ax}), (a, s), (b, s))
    for sa, sb, ax in (((4, 5), (5, 3), ((1, ), (0, ))),
                       ((2, 3, 4), (3, 2), ((1, ), (0, ))),
                       ((2, 3, 4), (4, 3, 2), ((0, 1), (2, 1))),
                       ((2, 2, 3), (2, 2, 2), ((0, 1), (1, 0))),
                       ((2, 2, 2, 2), (2, 2, 2), ((0, 1, 3), (2, 0, 1))),
                       ((2, 3, 2, 2), (2, 2, 3, 2), ((0, 2, 1), (3, 0, 2))),
                       ((2, 2, 2), (2, 2, 2, 2), ((2, 0, 1), (1, 3, 0))),
                       ((2, 2, 2), (2, 2, 2), ((-1, 0), (0, -2))),
                       ((3, 2), (3, 2, 1, 2), ((0, 1), (-4, -1))),
                       ((2, 2, 1), (2, 2, 3), ((1, 0), (1, 0)))):
        yield one(func('inner', 'inner[axes]', 'ab', (), {'axes': ax},
                       {'axes': ax}), ('x', sa), ('y', sb))


def c10(tier):
    for s, t in (((12, ), (3, 4)), ((12, ), (2, 2, 3)), ((3, 5), (5, 3)),
                 ((2, 3, 4), (24, )), ((2, 3, 4), (4, 3, 2)),
                 ((16, ), (2, 2, 2, 2)), ((1, ), (1, 1)), ((7, 1), (7, ))):
        yield one(func('reshape', 'reshape', 'x', (t, ), None, {
            'new_shape': t}), ('x', s))
    for s in ((4, 5), (1, 7), (2, 3, 4), (2, 2, 2, 3)):
        yield one(func('transpose', 'transpose', 'A'), ('x', s))
    for s, o in (((4, 5), 'ij->ji'), ((2, 3, 4), 'ijk->kij'),
                 ((2, 3, 4), 'ijk->jki'), ((3, 3, 3), 'abc->bca'),
                 ((2, 2, 3, 2), 'ijkl->ljik'), ((2, 2, 2, 2), 'ijkl->jlik')):
        yield one(func('reorder_axes', 'reorder_axes', 'A', (o, ), None, {
            'operation': o}), ('x', s))
    for t in ((10, ), (4, 5), (2, 3, 4), (1, 1), (1, )):
        yield one(func('expand', 'expand', 'x', (t, ), None, {
            'new_shape': t}), ('x', (1, )))
    for s, t, i in (((4, ), (4, 5), 'i->ij'), ((5, ), (4, 5), 'j->ij'),
                    ((2, 4), (2, 3, 4), 'ik->ijk'), ((3, ), (3, 3), 'i->ij'),
                    ((3, ), (3, 3), 'j->ij'), ((2, 2), (2, 2, 2), 'jk->ijk'),
                    ((3, ), (2, 3, 2, 2), 'j->ijkl'),
                    ((2, 2), (2, 2, 2, 2), 'ik->ijkl'),
                    ((3, ), (2, 2, 3, 2, 2), 'k->ijklm'),
                    ((2, ), (2, 2, 2, 2, 1, 2), 'n->ijklmn'),
                    ((2, 3, 2), (2, 2, 3, 2), 'jkl->ijkl'),
                    ((2, 3, 2), (2, 3, 2, 2), 'ijk->ijkl')):
        yield one(func('expand', 'expand[indices]', 'x', (t, i), None, {
            'new_shape': t, 'indices': i}), ('x', s))
    for ax in 'xyz':
        for n in ('x', 'zero_x', 'big_x', 'tiny_x', 'tie_x', 'dust_x'):
            yield one(func('rotmat', 'rotmat[%s]' % ax, ('angle', ), (
                ax, )), (n, (1, )))


def c27(tier):
    for c in ('x', 'pos_x', 'zero_x', 'tiny_x', 'dust_x', 'big_x',
              'whole_x'):
        for s in ((1, ), (3, ), (2, 2)):
            for a, b in (('t', 'f'), ('zero_t', 'f'), ('tie_t', 'tie_f')):
                sel = func('if_else', 'if_else', 'ctf')
                yield one(sel, (c, (1, )),
                          (a, s), (b, s))
                p = one(sel, (c, (1, )), (a, s), (b, s))
                p.stmts[3:4] = [('op', 'd', oper(
                    '__neg__', '__neg__', None, '-%s'), [c]),
                    ('op', 'r', sel, ['d', a, b])]
                yield p


def decide(ctx, rep, make, values, derivatives):
    for p in valid(list(make(ctx.tier))):
        r = Report(rep.prop)
        decide_model(ctx, r, 'values-at-given-constants',
                     'derivatives-at-given-constants' if derivatives
                     else None, p, str(p))
        wrong = False
        for f in r.findings:
            wrong = wrong or f.rule == 'values-at-given-constants'
            if values or f.rule != 'values-at-given-constants':
                rep.bad(f.rule, f.where, f.instance, f.msg)
        if not values and wrong:
            rep.und('derivatives-at-given-constants', str(p),
                    'the model does not compute the operation')
        for u in r.undecided:
            rep.und(u['rule'], u['instance'], u['why'])
        if not r.findings and not r.undecided:
            rep.ok('values-at-given-constants' if values else
                   'derivatives-at-given-constants', str(p))


def rule(make, values=True, derivatives=True):
    def run(ctx, rep):
        decide(ctx, rep, make, values, derivatives)
    run.__name__ = 'rule_' + make.__name__
    return run


RULES = {
    'C01': rule(elementary, True, False),
    'C02': rule(elementary, False, True),
    'C03': rule(c03, True, False),
    'C04': rule(c03, False, True),
    'C05': rule(c05),
    'C06': rule(c06),
    'C07': rule(c07),
    'C08': rule(c08, True, False),
    'C09': rule(c08, False, True),
    'C10': rule(c10),
    'C27': rule(c27),
}
