"""C17 operand kinds, C19 option contracts."""
import itertools
from .common import *
from .wiring import sites, site_key, where_of
from ..sites import api_cases, op_cases, Case, P, V
from ..program import AnalysisError

BADKINDS = ('ndarray', 'float', 'str', 'none', 'list')


def sample(kd, label):
    return NONE if kd == 'none' else P(label, kd)


def bad_cases():
    """Calls with one operand of a kind the function does not accept."""
    out = []
    for c in api_cases():
        for n, a in enumerate(c.args):
            if a.op == 'star':
                lab = a.args[0].args[0]
                for kd in BADKINDS:
                    b = sample(kd, lab + '1')
                    for pos, args in (('first of two', [b, V(lab + '0')]),
                                      ('second of two', [V(lab + '0'), b]),
                                      ('last of three', [
                                          V(lab + '0'), V(lab + '2'), b]),
                                      ('only', [b])):
                        aa = list(c.args)
                        aa[n:n + 1] = args
                        k = Case(c.api, aa, c.kwargs, '%s; %s %s: %s' % (
                            c.label, lab, pos, kd), c.facts, True)
                        out.append((c, lab + ' ' + pos, kd, k))
            elif a.op == 'param' and a.args[1] == 'Variable':
                for kd in BADKINDS:
                    aa = list(c.args)
                    aa[n] = sample(kd, a.args[0])
                    k = Case(c.api, aa, c.kwargs, '%s; %s: %s' % (
                        c.label, a.args[0], kd), c.facts, True)
                    out.append((c, a.args[0], kd, k))
    for nm, kinds in (('__add__', ('str', 'none', 'list')),
                      ('__sub__', ('str', 'none', 'list')),
                      ('__mul__', ('str', 'none', 'list')),
                      ('__truediv__', ('str', 'none', 'list')),
                      ('__pow__', ('str', 'none', 'list', 'Variable')),
                      ('__radd__', ('str', 'none', 'list', 'ndarray')),
                      ('__rsub__', ('str', 'none', 'list', 'ndarray')),
                      ('__rmul__', ('str', 'none', 'list', 'ndarray')),
                      ('__rtruediv__', ('str', 'none', 'list', 'ndarray'))):
        for kd in kinds:
            c = Case(nm, [V('x'), sample(kd, 'k')], {}, 'operand: ' + kd,
                     (), True)
            out.append((c, 'operand', kd, c))
    return out


def rule_kinds(ctx, rep):
    rule = 'unsupported-operand-rejected'
    w = ctx.world
    for c, pos, kd, k in bad_cases():
        inst = '%s %s of kind %s' % (c.name.split(';')[0], pos, kd)
        r = w.run(k)
        if r.problem:
            rep.und(rule, inst, r.problem)
            continue
        types = [x for x in r.raises if x[1] == 'TypeError']
        if r.always_raises and types:
            rep.ok(rule, inst, 'TypeError at %s:%s' % types[0][2])
            continue
        f, _ = w.resolve(k)
        where = (f.module.path, f.node.lineno) if hasattr(f, 'node') else \
            k.api
        if r.always_raises:
            if any(x[1] == '?' for x in r.raises):
                rep.und(rule, inst, 'kind of exception')
            elif r.raises:
                rep.bad(rule, r.raises[0][2], inst, 'raises %s, not '
                        'TypeError' % r.raises[0][1])
            else:
                rep.und(rule, inst, 'evaluation stops')
            continue
        fs = list(r.state.facts) + [x for c2, _ in leaves(r.result)
                                    for x in c2]
        if r.result.op == 'opaque' or any(has_opaque(x[0]) for x in fs):
            rep.und(rule, inst, 'acceptance path not understood')
            continue
        if r.result is mk('ext', 'builtins.NotImplemented'):
            rep.ok(rule, inst, 'NotImplemented')
            continue
        rep.bad(rule, where, inst, 'is accepted: no TypeError is raised on '
                'the path that returns a result')


# ------------------------------------------------------------------- C19
def rule_api(ctx, rep):
    rule = 'public-name-available'
    w = ctx.world
    for n in sorted(set(c.api for c in api_cases() + op_cases())):
        c = Case(n, [])
        f, meth = w.resolve(c)
        if f is None or (isinstance(f, tuple) and f[0] == 'ext'):
            rep.bad(rule, w.api.path if not meth else 'Variable', n,
                    'not provided')
        else:
            rep.ok(rule, n)
    for n in ('Group', 'ImplicitComponent', 'OptionsDictionary'):
        f = w.p.lookup(w.api, n)
        if f is None:
            rep.bad(rule, w.api.path, n, 'not exported by omtools.api')
        else:
            rep.ok(rule, n)


def known_kind(v):
    """Kind of an option value as passed, when certain."""
    k = kind_of(v)
    if v.op == 'const':
        return k
    if v.op == 'param' and k in ('int', 'float', 'str', 'Variable',
                                 'ndarray'):
        return k
    if v.op in ('late', 'attr') and v.args[1] in ('name', 'shape'):
        return k
    if v.op in ('late', 'attr') and v.args[1] == 'val':
        return 'ndarray'
    if v.op == 'cell':
        return v.args[1]
    if v.op == 'tup':
        return 'tuple'
    if v.op == 'ite':
        a, b = known_kind(v.args[1]), known_kind(v.args[2])
        return a if a == b else None
    if v.op in ('add', 'mul') and all(known_kind(a) == 'int'
                                      for a in v.args):
        return 'int'
    if v.op == 'fmt':
        return 'str'
    if v.op == 'call' and v.args[0] in NPINTS:
        return 'npint'
    if v.op == 'call' and k == 'ndarray' and v.args[0] not in (
            'numpy.einsum', 'numpy.tensordot', 'numpy.cross',
            'numpy.ravel_multi_index', 'numpy.where', 'numpy.squeeze'):
        return 'ndarray'
    return None


def none_ok(o, acc):
    """Is None accepted for the option?  None when not understood."""
    d, n = o.get('default'), o.get('allow_none')
    if d is NONE or n is TRUE:
        return True
    if acc == 'any' and o.get('values') in (None, NONE):
        return True
    if acc is None or (n is not None and n is not FALSE) or (
            d is not None and not is_const(d)) or 'values' in o:
        return None
    return False


NPINTS = ['numpy.%s%s' % x for x in itertools.product(
    ('int', 'uint'), ('8', '16', '32', '64', 'p', 'c', '_'))] + [
        'numpy.longlong', 'numpy.short', 'numpy.byte']
TYPES = {
    'builtins.int': ('int', 'bool'), 'builtins.float': ('float', ),
    'builtins.str': ('str', ), 'builtins.list': ('list', ),
    'builtins.tuple': ('tuple', ), 'builtins.dict': ('dict', ),
    'builtins.bool': ('bool', ), 'numpy.ndarray': ('ndarray', ),
    'numbers.Number': ('int', 'float', 'bool', 'npint'),
    'numbers.Real': ('int', 'float', 'bool', 'npint'),
    'numbers.Integral': ('int', 'bool', 'npint'),
    'numpy.integer': ('npint', ), 'builtins.set': ('set', ),
    'builtins.object': ('int', 'float', 'str', 'list', 'tuple', 'dict',
                        'bool', 'ndarray', 'set', 'Variable', 'none', 'npint'),
}


def either(t):
    if t.op == 'ite':
        return either(t.args[1]) + either(t.args[2])
    return [t]


def accepted(types):
    """Kinds an option accepts; None when not understood."""
    if types is None or types is NONE:
        return 'any'
    ts = types.args if types.op == 'tup' else (types, )
    ks = set()
    for t in ts:
        if t.op == 'cls' and t.args[0].endswith('.Variable'):
            ks.add('Variable')
            continue
        if t.op != 'ext' or t.args[0] not in TYPES:
            return None
        ks.update(TYPES[t.args[0]])
    return ks


def rule_options(ctx, rep):
    """Options passed are declared, required ones are passed, and the kinds
    agree."""
    for i, m in sites(ctx, rep, 'options-declared'):
        site = site_key(i)
        kw = i.state.get(i.comp, '$kwargs')
        raw = dict(zip([cval(k) for k in kw.args[::2]], kw.args[1::2])) \
            if kw is not None and kw.op == 'dict' else {}
        where = i.where or where_of(i)
        for k, v in sorted(raw.items()):
            inst = '%s %s' % (site, k)
            if k not in m.options:
                if m.options:
                    rep.bad('options-declared', where, inst, 'option %s is '
                            'passed to %s, which does not declare it: '
                            'building the model fails' % (k, m.cls.name))
                else:
                    rep.und('options-declared', inst, 'no options known')
                continue
            rep.ok('options-declared', inst)
            o = m.options[k]
            acc = accepted(o.get('types'))
            kd = known_kind(v)
            if kd is None and acc not in (None, 'any'):
                # one of the values may be passed under a condition
                odd = [x for x in (known_kind(y) for y in either(v))
                       if x is not None and x not in acc and x != 'none']
                if odd:
                    kd = odd[0]
            if v is NONE:
                n = none_ok(o, acc)
                if n is False:
                    rep.bad('option-kind-accepted', where, inst, 'None is '
                            'passed, but the option neither has the default '
                            'None nor allows it: building the model fails')
                elif n is None:
                    rep.und('option-kind-accepted', inst, 'None')
                else:
                    rep.ok('option-kind-accepted', inst, 'None')
                continue
            if kd is None or kd == 'none':
                rep.ok('option-kind-accepted', inst, 'value of general '
                       'kind')
                continue
            if acc == 'any' or (acc is not None and kd in acc):
                rep.ok('option-kind-accepted', inst, kd)
            elif acc is None:
                rep.und('option-kind-accepted', inst, 'types')
            else:
                rep.bad('option-kind-accepted', where, inst, 'a value of '
                        'kind %s is passed, but the option is declared for '
                        '%s: building the model fails' % (
                            kd, sorted(acc)))
        inst = site
        if m.missing_options:
            for n, wh, why in m.missing_options:
                if why == 'required':
                    rep.bad('required-options-passed', wh, '%s %s' % (
                        site, n), 'option %s is read but the build site '
                        'does not pass it and it has no default' % n)
                else:
                    rep.bad('required-options-passed', wh, '%s %s' % (
                        site, n), 'option %s is read but never declared'
                        % n)
        else:
            rep.ok('required-options-passed', inst, '%d reads' % len(
                m.option_reads))
