"""C11 names, C12 shapes (wiring part), C13 values, C14 dependencies, C15
derivative declarations: rules over the component model of every build
site."""
from .common import *


def sites(ctx, rep, rule):
    """Every (instance, model) of the public functions and operators."""
    w = ctx.world
    for root in ctx.roots():
        if root.problem:
            rep.und(rule, root.case.name, root.problem)
            continue
        for i in root.instances:
            if i.cls is None or i.state is None:
                rep.und(rule, root.case.name, 'build is not a closure '
                        'the analysis understands')
                continue
            try:
                m = w.model(i)
            except Exception as e:                      # noqa
                rep.und(rule, i.name, 'model: %r' % (e, ))
                continue
            yield i, m


def relevant(i):
    """Operands of the call that this instance is the component of; an
    instance for an intermediate variable has its own operands."""
    return operands(i.case)


def is_result(i):
    return any(o is i.out for _, o in leaves(i.result))


def input_decls(m):
    return [d for d in m.decls if d.kind == 'add_input']


def out_names(m):
    return [d for d in m.decls if d.kind == 'add_output']


def site_key(i):
    return '%s -> %s' % (i.case.name, i.cls.name)


def rule_inputs(ctx, rep):
    """Each operand is an input of the component, under the name the operand
    has when the model is built."""
    rule = 'wired-by-build-time-name'
    for i, m in sites(ctx, rep, rule):
        if not is_result(i):
            continue
        ops = relevant(i)
        site = site_key(i)
        refs = {}
        unknown = []
        for d in input_decls(m):
            nm = d.args.get('name')
            fr = field_ref(nm, 'name', ops) if nm is not None else None
            if fr is None:
                unknown.append(d)
                continue
            mode, r = fr
            if mode == 'early':
                rep.bad(rule, d.where, '%s operand %s' % (site, r.label),
                        'input name is the name operand %s had when the '
                        'function was called; renaming the operand '
                        '(register_output) before the model is built '
                        'disconnects it' % r.label)
                continue
            gs = guard_state(d.guard, i.state.facts)
            if gs == 'never':
                continue
            if r.idx is not None and not any(
                    r.idx in l for l in d.loops):
                unknown.append(d)
                continue
            refs.setdefault(r.label, []).append((r, gs, d))
        for o in ops:
            inst = '%s operand %s' % (site, o.label)
            rs = refs.get(o.label, [])
            good = [r for r, gs, d in rs if gs in ('always', 'dedup')]
            cov = cover(good) if good else False
            if cov:
                rep.ok(rule, inst, 'add_input(%s.name at build time)'
                       % o.label)
            elif unknown or cov is None or any(
                    gs == 'unknown' for _, gs, _ in rs):
                rep.und(rule, inst, 'input names not understood')
            else:
                w = rs[0][2].where if rs else (i.where or where_of(i))
                rep.bad(rule, w, inst, 'operand %s is not an input of the '
                        'component on every path' % o.label)


def where_of(i):
    c = i.cls
    try:
        return (c.module.path, c.node.lineno)
    except AttributeError:
        return c.name


def rule_output(ctx, rep):
    """The component's only output is the result's build-time name and is
    what compute assigns and compute_partials differentiates."""
    rule = 'output-is-the-result'
    for i, m in sites(ctx, rep, rule):
        site = site_key(i)
        want = mk('late', i.out, 'name')
        outs = out_names(m)
        names = set()
        for d in outs:
            names.add(d.args.get('name'))
        if not outs:
            rep.bad(rule, where_of(i), site, 'no output is declared')
            continue
        bad = [n for n in names if n is not want]
        if not bad:
            rep.ok(rule, site)
        elif any(n is None or has_opaque(n) for n in bad):
            rep.und(rule, site, 'output name not understood')
        else:
            # several names: in_name also an output is always wrong
            rep.bad(rule, outs[0].where, site,
                    'output is declared under %r, which is not the name '
                    'the result has when the model is built' % (bad[0], ))


def declared_names(m):
    return set(d.args['name'] for d in m.decls
               if d.kind in ('add_input', 'add_output')
               and 'name' in d.args)


def norm_name(t, ops):
    """A comparable form of a name term: families lose their index."""
    fr = field_ref(t, 'name', ops)
    if fr is not None:
        mode, r = fr
        return (mode, r.label)
    return t


def rule_reads(ctx, rep):
    """compute and compute_partials read declared inputs and assign declared
    outputs only."""
    rule = 'reads-and-writes-declared-names'
    for i, m in sites(ctx, rep, rule):
        ops = relevant(i)
        site = site_key(i)
        ins = set(norm_name(d.args['name'], ops) for d in input_decls(m)
                  if 'name' in d.args)
        outs = set(d.args['name'] for d in out_names(m)
                   if 'name' in d.args)
        for what, slots, st in (('compute', m.forward, m.fwd_state),
                                ('compute_partials', m.partials,
                                 m.par_state)):
            for k, v in slots.items():
                inst = '%s.%s %s' % (site, what, show_key(k))
                if what == 'compute':
                    okk = k in outs
                    un = has_opaque(k)
                else:
                    if not (k.op == 'tup' and len(k.args) == 2):
                        rep.und(rule, inst, 'key')
                        continue
                    okk = k.args[0] in outs and norm_name(
                        k.args[1], ops) in ins
                    un = has_opaque(k)
                if okk:
                    rep.ok(rule, inst)
                elif un or any(isinstance(n, T) and has_opaque(n)
                               for n in list(outs) + [
                                   x for x in ins if isinstance(x, T)]):
                    rep.und(rule, inst, 'names')
                else:
                    rep.bad(rule, where_of(i), inst,
                            '%s assigns a name the component does not '
                            'declare' % what)
                for s in subterms(v):
                    if s.op != 'input':
                        continue
                    n = norm_name(s.args[0], ops)
                    if n in ins:
                        continue
                    if has_opaque(s) or any(
                            x.op in ('item', 'ite') and not is_const(
                                x.args[1]) for x in subterms(s.args[0])
                            if len(x.args) > 1):
                        rep.und(rule, inst, 'input name')
                    else:
                        rep.bad(rule, where_of(i), inst,
                                '%s reads the input %r, which the '
                                'component does not declare'
                                % (what, s.args[0]))


def show_key(k):
    return str(k)[:80]


def rule_values(ctx, rep):
    """The initial value of each input is its own operand's value."""
    rule = 'input-starts-from-operand-value'
    for i, m in sites(ctx, rep, rule):
        ops = relevant(i)
        site = site_key(i)
        if not is_result(i):
            continue
        for d in input_decls(m):
            nm = d.args.get('name')
            fr = field_ref(nm, 'name', ops) if nm is not None else None
            if fr is None:
                rep.und(rule, '%s %s' % (site, show_key(nm)), 'name')
                continue
            r = fr[1]
            inst = '%s operand %s' % (site, r.label)
            v = d.args.get('val')
            if v is None:
                rep.bad(rule, d.where, inst, 'the input does not start '
                        "from the operand's value")
                continue
            v = S.item(v, const(0)) if v.op == 'tup' and len(
                v.args) == 1 else v
            vr = field_ref(v, 'val', ops)
            if vr is not None and vr[1].label == r.label and same_member(
                    r, vr[1]):
                rep.ok(rule, inst)
            elif vr is not None:
                rep.bad(rule, d.where, inst, 'the input starts from the '
                        'value of another operand (%r)' % (v, ))
            elif has_opaque(v) or not understood_value(v):
                rep.und(rule, inst, 'value %r' % (v, ))
            else:
                rep.bad(rule, d.where, inst, 'the input starts from %r, '
                        "not from the operand's value" % (v, ))


def understood_value(v):
    if is_const(v):
        return True
    if v.op == 'tup':
        return True
    return False


def same_member(a, b):
    if a.sel == b.sel and a.idx is b.idx:
        return True
    return a.sel == b.sel and a.idx is None and b.idx is None


def rule_deps(ctx, rep):
    """Every operand the component reads is a dependency of the result."""
    rule = 'operands-are-dependencies'
    w = ctx.world
    for root in ctx.roots():
        if root.problem:
            rep.und(rule, root.case.name, root.problem)
            continue
        if root.always_raises:
            continue
        ops = operands(root.case)
        seen = set()
        for i in root.instances:
            if i.out in seen or i.cls is None or not is_result(i):
                continue
            seen.add(i.out)
            st = i.root_state
            facts = tuple(st.facts) + tuple(
                c for cs, o in leaves(root.result) if o is i.out
                for c in cs)
            deps = st.get(i.out, 'dependencies')
            if deps is None:
                rep.und(rule, i.name, 'no dependency list')
                continue
            deps = assume(w.it.pure(st, deps), facts)
            for o in ops:
                inst = '%s operand %s' % (root.case.name, o.label)
                v = member_of(o, deps, ops)
                if v is True:
                    rep.ok(rule, inst)
                elif v is None:
                    rep.und(rule, inst, deps)
                else:
                    rep.bad(rule, i.where or where_of(i), inst,
                            'the result reads operand %s but does not '
                            'depend on it: it may be computed before the '
                            'operand, or the operand may be dropped from '
                            'the model' % o.label)


def member_of(o, seq, ops):
    """Is operand o a member of the dependency sequence?"""
    if seq.op in ('dedup', 'fromkeys', 'tolist', 'copy', 'sorted', 'sortedby',
                  'reversed'):
        return member_of(o, seq.args[0], ops)
    if seq.op == 'ite':
        a = member_of(o, seq.args[1], ops)
        b = member_of(o, seq.args[2], ops)
        if a is True and b is True:
            return True
        for flag, x in ((True, a), (False, b)):
            if x is False and not alias_member(
                    o, seq.args[0], flag, seq.args[1 if flag else 2], ops):
                return None if has_opaque(seq.args[0]) else False
        if a is None or b is None:
            return None
        return True
    if seq.op in ('tup', 'cat'):
        res = False
        refs = []
        for a in seq.args:
            if seq.op == 'cat':
                v = member_of(o, a, ops)
            else:
                if a.op == 'star':
                    v = member_of(o, a, ops)
                else:
                    r = operand_ref(a, ops)
                    if r is None:
                        v = None if a.op in ('opaque', 'ite') else False
                    elif r.label == o.label:
                        if not o.star:
                            return True
                        refs.append(r)
                        v = False
                    else:
                        v = False
            if v is True:
                return True
            if v is None:
                res = None
        for a in seq.args:
            # families spread over several parts of a concatenation
            refs.extend(family_refs(o, a, ops))
        if o.star and refs:
            c = cover(refs)
            if c is True:
                return True
        return res
    b = star_base(seq)
    if b is not None:
        if o.star and o.term.args[0] is b[0]:
            if b[1] == ('all', ):
                return True
            return False
        return False
    if seq.op == 'fmap' and len(seq.args) == 4 and (
            seq.args[0].op == 'tup' and len(seq.args[0].args) == 1):
        body, g, dom, idx = seq.args
        v = member_of(o, mk('map', body.args[0], dom, idx), ops)
        if v is not True or g is TRUE:
            return v
        if is_dedup_guard((g, True)):
            return True
        # a condition on which expression it is may well exclude duplicates
        return None if has_opaque(g) or contains(
            g, lambda s: s.op in ('carry', 'in')) or not contains(
                g, lambda s: s.op in ('attr', 'const', 'len')) else False
    if seq.op in ('map', 'fmap', 'flatmap'):
        rs = family_refs(o, seq, ops)
        if rs:
            c = cover(rs)
            return c
        if contains(seq, lambda s: s is (
                o.term.args[0] if o.star else o.term)):
            return None
        return False
    if seq.op == 'const':
        return False
    return None


def alias_member(o, cond, flag, seq, ops):
    """Under cond (== flag), is o the same expression as a member of seq?"""
    if cond.op == 'not':
        return alias_member(o, cond.args[0], not flag, seq, ops)
    if flag and cond.op == 'and' or not flag and cond.op == 'or':
        return any(alias_member(o, c, flag, seq, ops) for c in cond.args)
    if cond.op == 'eq' and flag:
        a, b = (operand_ref(x, ops) for x in cond.args)
        if a is not None and b is not None and a.label != b.label:
            for x, y in ((a, b), (b, a)):
                if x.label == o.label:
                    for q in ops:
                        if q.label == y.label:
                            return member_of(q, seq, ops) is True
    return False


def family_refs(o, seq, ops):
    if not isinstance(seq, T):
        return []
    b = star_base(seq)
    if b is not None and o.star and o.term.args[0] is b[0]:
        class R(object):
            sel = b[1]
        return [R]
    if seq.op == 'map':
        r = operand_ref(seq.args[0], ops)
        if r is not None and r.label == o.label:
            return [r]
    if seq.op == 'tup':
        return [r for r in (operand_ref(a, ops) for a in seq.args
                            if isinstance(a, T))
                if r is not None and r.label == o.label]
    return []


# ------------------------------------------------------------ derivatives
def names_in(t, allnames):
    """The name terms a declare_partials argument stands for."""
    if is_const(t) and cval(t) == '*':
        return ['*']
    if t.op == 'tup':
        r = []
        for a in t.args:
            r.extend(names_in(a, allnames))
        return r
    if t.op == 'map':
        return [t.args[0]]
    return [t]


def either(t):
    if t is None:
        return []
    if t.op == 'ite':
        return either(t.args[1]) + either(t.args[2])
    return [t]


def rule_partials(ctx, rep):
    """Every output is differentiated with respect to every input, on every
    path: the pair is declared and a value is supplied."""
    rule = 'derivative-supplied'
    for i, m in sites(ctx, rep, rule):
        ops = relevant(i)
        site = site_key(i)
        outs = set(d.args['name'] for d in out_names(m))
        supplied = {}
        unknown = False
        decls = [d for d in m.declared()]
        for d in decls:
            of = names_in(d.args.get('of', const('*')), outs)
            wrt = names_in(d.args.get('wrt', const('*')), outs)
            has_val = 'val' in d.args and d.args['val'] is not NONE
            mth = d.args.get('method')
            if mth is not None and mth is not NONE and not (
                    is_const(mth) and cval(mth) == 'exact'):
                has_val = True
            dep = d.args.get('dependent')
            gs = guard_state(d.guard, i.state.facts)
            if gs == 'never':
                continue
            approx = [x for x in either(mth) if is_const(x) and
                      cval(x) not in (None, 'exact')]
            if approx:
                rep.bad(rule, d.where, site, 'the derivative is '
                        'approximated by %s instead of computed'
                        % (cval(approx[0]), ))
                continue
            if dep is not None and is_const(dep) and cval(dep) is False:
                continue
            for x in of:
                if x != '*' and x not in outs:
                    if has_opaque(x):
                        unknown = True
                    continue
                for n in wrt:
                    if n == '*':
                        for o in ops:
                            supplied.setdefault(o.label, []).append(
                                (None, gs, has_val, d))
                        continue
                    fr = field_ref(n, 'name', ops)
                    if fr is None:
                        unknown = True
                        continue
                    supplied.setdefault(fr[1].label, []).append(
                        (fr[1], gs, has_val, d))
        # values assigned in compute_partials
        assigned = {}
        for k, v in m.partials.items():
            if k.op != 'tup' or len(k.args) != 2:
                unknown = True
                continue
            fr = field_ref(k.args[1], 'name', ops)
            if fr is None:
                unknown = True
                continue
            partial_paths = contains_initial(v, k)
            assigned.setdefault(fr[1].label, []).append(
                (fr[1], partial_paths))
        condop = condition_operand(i, m, ops)
        for o in ops:
            inst = '%s wrt %s' % (site, o.label)
            ds = [x for x in supplied.get(o.label, [])
                  if x[1] in ('always', 'dedup')]
            cond = [x for x in supplied.get(o.label, [])
                    if x[1] in ('open', 'unknown')]
            if not ds and not cond:
                if unknown:
                    rep.und(rule, inst, 'pairs not understood')
                elif o.label == condop:
                    rep.ok(rule, inst, 'only selects a branch: its '
                           'derivative is zero almost everywhere')
                else:
                    rep.bad(rule, where_of(i), inst, 'the derivative with '
                            'respect to operand %s is not declared: '
                            'OpenMDAO treats it as zero' % o.label)
                continue
            cv = cover([x[0] for x in ds if x[0] is not None]) \
                if any(x[0] is not None for x in ds) else None
            if any(x[0] is None for x in ds):
                cv = True
            if not cv:
                if cond or unknown or cv is None:
                    rep.und(rule, inst, 'declared under conditions')
                else:
                    rep.bad(rule, ds[0][3].where, inst, 'the derivative '
                            'is not declared for every operand %s'
                            % o.label)
                continue
            # value
            const_val = all(x[2] for x in ds)
            if const_val:
                rep.ok(rule, inst, 'constant value in declare_partials')
                continue
            av = assigned.get(o.label)
            if not av:
                if unknown:
                    rep.und(rule, inst, 'assignments not understood')
                else:
                    rep.bad(rule, where_of(i), inst, 'the derivative is '
                            'declared but never given a value: it stays '
                            'zero')
                continue
            ac = cover([a[0] for a in av if a[0] is not None]) \
                if all(a[0] is not None for a in av) else None
            part = [a[1] for a in av]
            if any(p is True for p in part):
                rep.bad(rule, where_of(i), inst, 'on some path '
                        'compute_partials leaves this derivative at its '
                        'previous value')
            elif ac and all(p is False for p in part):
                rep.ok(rule, inst, 'assigned on every path')
            elif ac is False and not unknown:
                rep.bad(rule, where_of(i), inst, 'compute_partials does '
                        'not assign the derivative for every operand %s'
                        % o.label)
            else:
                rep.und(rule, inst, 'assigned value not understood')


def contains_initial(v, k):
    """True: on some path the slot keeps its previous value; False: always
    assigned; None: unknown."""
    if v.op == 'ite':
        a = contains_initial(v.args[1], k)
        b = contains_initial(v.args[2], k)
        # the name was handled by an earlier iteration
        if a is True and is_dedup_guard((v.args[0], False)):
            a = False
        if b is True and is_dedup_guard((v.args[0], True)):
            b = False
        if a is True or b is True:
            return True
        if a is None or b is None:
            return None
        return False
    if v.op == 'initial':
        return True
    if v.op == 'opaque':
        return None
    if v.op == 'store':
        if full_key(v.args[1]):
            return False
        return False if contains_initial(v.args[0], k) is False else None
    if v.op in ('reslot', 'inslot'):
        return contains_initial(v.args[2], k)
    if v.op == 'relike':
        return contains_initial(v.args[1], k)
    if v.op == 'call' and v.args[0] in ('numpy.reshape', 'numpy.ravel',
                                        'numpy.flatten'):
        return contains_initial(v.args[2], k)
    return False


def full_key(k):
    if k.op == 'ellipsis':
        return True
    if k.op == 'sl':
        return all(x is NONE for x in k.args)
    if k.op == 'tup':
        return all(full_key(x) for x in k.args)
    return False


def condition_operand(i, m, ops):
    """The operand compute only uses to choose between two values."""
    labels = set(o.label for o in ops)
    data = set()
    for k, v in m.forward.items():
        if has_opaque(v):
            return None
        for _, leaf in leaves(v):
            for s in subterms(leaf):
                if s.op == 'input':
                    fr = field_ref(s.args[0], 'name', ops)
                    if fr is not None:
                        data.add(fr[1].label)
    left = labels - data
    if len(left) == 1 and len(labels) > 1:
        c = left.pop()
        for k, v in m.forward.items():
            for cs, leaf in leaves(v):
                for cc, _ in cs:
                    if contains(cc, lambda s: s.op == 'input'):
                        return c
    return None


def rule_assigned_declared(ctx, rep):
    """A derivative compute_partials assigns has been declared, and one with
    a constant declared value is not also assigned."""
    rule = 'assigned-pairs-declared'
    for i, m in sites(ctx, rep, rule):
        ops = relevant(i)
        site = site_key(i)
        outs = set(d.args['name'] for d in out_names(m))
        pairs = set()
        unknown = False
        for d in m.declared():
            for x in names_in(d.args.get('of', const('*')), outs):
                for n in names_in(d.args.get('wrt', const('*')), outs):
                    fr = field_ref(n, 'name', ops) if n != '*' else None
                    if n != '*' and fr is None:
                        unknown = True
                    gs = guard_state(d.guard, i.state.facts)
                    if gs != 'never':
                        pairs.add((x, '*' if n == '*' else fr and
                                   fr[1].label))
        for k in m.partials:
            inst = '%s %s' % (site, show_key(k))
            if k.op != 'tup' or len(k.args) != 2:
                rep.und(rule, inst, 'key')
                continue
            fr = field_ref(k.args[1], 'name', ops)
            if fr is None:
                rep.und(rule, inst, 'key')
                continue
            if any(x in ('*', k.args[0]) and n in ('*', fr[1].label)
                   for x, n in pairs):
                rep.ok(rule, inst)
            elif unknown:
                rep.und(rule, inst, 'declared pairs')
            else:
                rep.bad(rule, where_of(i), inst, 'compute_partials assigns '
                        'a derivative that setup does not declare: '
                        'OpenMDAO rejects the assignment')


def rule_forward(ctx, rep):
    """compute assigns the output on every path."""
    rule = 'output-assigned'
    for i, m in sites(ctx, rep, rule):
        site = site_key(i)
        for d in out_names(m):
            n = d.args['name']
            v = m.forward.get(n)
            if v is None:
                if any(has_opaque(k) for k in m.forward) or getattr(
                        m, 'compute_ok', True) is None:
                    rep.und(rule, site, 'slot')
                else:
                    rep.bad(rule, where_of(i), site, 'compute never '
                            'assigns the output')
                continue
            p = contains_initial(v, n)
            if p is True:
                rep.bad(rule, where_of(i), site, 'on some path compute '
                        'leaves the output at its previous value')
            elif p is None:
                rep.und(rule, site, 'value')
            else:
                rep.ok(rule, site)
