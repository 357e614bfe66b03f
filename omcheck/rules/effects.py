"""C16 purity of evaluation, C25 no process exit, C26 operands are left
alone: effect rules."""
import ast
from .common import *
from .wiring import sites, site_key, where_of, contains_initial
from ..program import _flat, Class, Func
from ..interp import ALIAS

NONDETERMINISTIC = ('numpy.random.', 'random.', 'time.', 'datetime.',
                    'uuid.', 'secrets.', 'os.urandom', 'builtins.input',
                    'builtins.open', 'os.environ', 'os.getenv')


def rule_purity(ctx, rep):
    """compute and compute_partials change nothing that outlives them except
    the output and derivative vectors they are given."""
    rule = 'evaluation-has-no-side-effects'
    for i, m in sites(ctx, rep, rule):
        base = m.setup_state.heap if m.setup_state is not None else {}
        for nm, effs, ok in (('compute', m.compute_effects, m.cls.find(
                'compute')), ('compute_partials', m.partials_effects,
                              m.cls.find('compute_partials'))):
            if ok is None:
                continue
            inst = '%s %s' % (site_key(i), nm)
            bad = []
            for e in effs:
                if guard_state(e.guard, i.state.facts) == 'never':
                    continue
                b = e.args[0] if e.args else None
                if e.kind == 'mutate':
                    if alias_root(b):
                        bad.append((e, '%s changes %s in place' % (
                            nm, alias_root(b))))
                elif e.kind in ('setattr', 'objstore'):
                    if b.op != 'obj' or b in base:
                        bad.append((e, '%s changes attribute %s, which the '
                                    'next evaluation sees' % (
                                        nm, e.args[1])))
                elif e.kind == 'cellmut' or e.kind == 'delitem':
                    if b.op == 'cell' and b in base:
                        bad.append((e, '%s changes a list or dict created '
                                    'before the evaluation' % nm))
                elif e.kind == 'global':
                    bad.append((e, '%s assigns a global variable' % nm))
                elif e.kind == 'extcall' and any(
                        b == n or b.startswith(n) and n.endswith('.')
                        for n in NONDETERMINISTIC):
                    bad.append((e, '%s calls %s' % (nm, b)))
                elif e.kind == 'exit':
                    bad.append((e, '%s ends the process' % nm))
            for e, msg in bad:
                rep.bad(rule, e.where, inst, msg + ': the result of an '
                        'evaluation then depends on the evaluations before '
                        'it', key='%s|%s|%s' % (rule, inst, msg))
            if not bad:
                rep.ok(rule, inst, '%d effects inspected' % len(effs))


def rule_stateless(ctx, rep):
    """Outputs and derivatives are functions of the inputs: they do not use
    the value the slot held before."""
    rule = 'results-ignore-previous-values'
    for i, m in sites(ctx, rep, rule):
        for nm, d in (('output', m.forward), ('derivative', m.partials)):
            for k, v in d.items():
                inst = '%s %s %s' % (site_key(i), nm, str(k)[:80])
                u = uses_previous(v)
                if u:
                    rep.bad(rule, where_of(i), inst, 'the %s is computed '
                            'from the value left by the previous '
                            'evaluation' % nm)
                elif contains_initial(v, k) is True:
                    rep.bad(rule, where_of(i), inst, 'on some path the %s '
                            'keeps the value left by the previous '
                            'evaluation' % nm)
                elif has_opaque(v):
                    rep.und(rule, inst, 'value not understood')
                else:
                    rep.ok(rule, inst)


def uses_previous(v):
    """Does v use (not merely overwrite parts of) an initial slot value?"""
    if v.op == 'initial':
        return False
    if v.op in ('store', ):
        return uses_previous(v.args[0]) or reads_initial(
            v.args[1]) or reads_initial(v.args[2])
    if v.op in ('reslot', 'inslot'):
        return uses_previous(v.args[2])
    if v.op == 'relike':
        return uses_previous(v.args[1])
    if v.op == 'ite':
        return uses_previous(v.args[1]) or uses_previous(v.args[2]) or \
            reads_initial(v.args[0])
    if v.op == 'call' and v.args[0] in ('numpy.reshape', 'numpy.ravel'):
        return uses_previous(v.args[2])
    if v.op == 'opaque':
        return False
    return reads_initial(v)


def reads_initial(v):
    """Reads an element of a slot nothing was stored into."""
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if x in seen or not isinstance(x, T) or x.op == 'opaque':
            continue
        seen.add(x)
        if x.op == 'initial':
            return True
        if x.op in ('store', 'inslot', 'reslot', 'relike', 'carry'):
            # partly overwritten: what is read cannot be told apart
            continue
        stack.extend(a for a in x.args if isinstance(a, T))
    return False


def alias_root(t):
    if t.op == 'special':
        return 'the %s vector' % t.args[0]
    if t.op == 'opts':
        return 'the options'
    if t.op == 'input':
        return 'an input vector'
    if t.op == 'param':
        return 'the caller\'s %s' % t.args[0]
    if t.op in ('attr', 'late'):
        return 'the operand\'s %s' % t.args[1]
    if t.op in ('item', 'slice', 'elem'):
        return alias_root(t.args[0])
    if t.op == 'ite':
        return alias_root(t.args[1]) or alias_root(t.args[2])
    if t.op == 'call' and len(t.args) > 2:
        return alias_root(t.args[2])
    return None


# ------------------------------------------------------------------- C26
# what a caller owns: operands, arrays, index and axis arguments
def rule_operands_untouched(ctx, rep):
    rule = 'operands-not-modified'
    w = ctx.world
    for root in ctx.roots():
        inst = root.case.name
        if root.problem or root.state is None:
            rep.und(rule, inst, root.problem or 'always raises')
            continue
        stages = [('the call', root.state.effects)]
        for i in root.instances:
            if i.cls is None or i.state is None:
                continue
            n = len(root.state.effects)
            stages.append(('building the model', i.state.effects))
            m = w.model(i)
            stages.append(('setup', m.setup_effects))
        bad = {}
        for nm, effs in stages:
            for e in effs:
                b = e.args[0] if e.args else None
                if not isinstance(b, T):
                    continue
                if guard_state(e.guard, root.case.facts) == 'never':
                    continue
                if e.kind == 'setattr' and owner(b):
                    if e.args[1] in ('dependents', ):
                        pass
                    bad[(e.where, e.args[1])] = (
                        '%s assigns attribute %s of %s' % (
                            nm, e.args[1], owner(b)))
                elif e.kind in ('mutate', ) and owner(b):
                    bad[(e.where, str(b))] = (
                        '%s changes %s in place' % (nm, alias_root(b)
                                                    or owner(b)))
                elif e.kind == 'append' and b.op != 'cell' and owner(b):
                    bad[(e.where, str(b))] = (
                        '%s appends to %s' % (nm, alias_root(b)))
                elif e.kind == 'global' or (e.kind == 'setattr' and b.op
                                            in ('cls', 'mod')):
                    pass
        for (where, _), msg in sorted(bad.items(), key=str):
            rep.bad(rule, where, inst, msg + ': other users of the operand '
                    'see the change', key='%s|%s|%s' % (rule, inst, msg))
        if not bad:
            rep.ok(rule, inst, '%d effects' % sum(
                len(e) for _, e in stages))


def owner(b):
    """The operand (or argument) a location belongs to."""
    while b.op in ('attr', 'late', 'item', 'slice', 'elem', 'extm'):
        b = b.args[0]
    if b.op == 'star':
        b = b.args[0]
    if b.op == 'param':
        return b.args[0]
    if b.op == 'ite':
        return owner(b.args[1]) or owner(b.args[2])
    return None


# ------------------------------------------------------------------- C25
EXITS = ('builtins.exit', 'builtins.quit', 'sys.exit', 'os._exit',
         'os.abort', 'os.kill', 'os.killpg', 'signal.raise_signal',
         'builtins.SystemExit', 'builtins.KeyboardInterrupt',
         'builtins.GeneratorExit', 'posix._exit', '_thread.interrupt_main')


def rule_no_exit(ctx, rep):
    """No function refers to a way of ending the process."""
    rule = 'never-exits'
    p = ctx.world.p
    for mn in sorted(p.modules):
        m = p.modules[mn]
        for name, node, body in functions(m):
            found = []
            shadow = local_names(node)
            imports = local_imports(node, m, p)
            handled = set()
            for s in body:
                for n in walk_own(s):
                    if isinstance(n, ast.ExceptHandler) and n.type:
                        handled.update(id(x) for x in ast.walk(n.type))
            for s in body:
                for n in walk_own(s):
                    if id(n) in handled:
                        continue
                    r = None
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Load):
                        if n.id in imports:
                            r = imports[n.id]
                        elif n.id not in shadow:
                            r = p.resolve_expr(m, n)
                    elif isinstance(n, ast.Attribute):
                        r = resolve(p, m, n, imports, shadow)
                    elif isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Name) and n.func.id == 'getattr' \
                            and len(n.args) >= 2 and isinstance(
                                n.args[1], ast.Constant):
                        b = resolve(p, m, n.args[0], imports, shadow)
                        if b is not None:
                            r = p.member(b, str(n.args[1].value))
                    if isinstance(r, tuple) and r[0] == 'ext' and r[1] in \
                            EXITS:
                        found.append((n.lineno, r[1]))
            inst = '%s.%s' % (mn, name)
            for ln, what in found:
                rep.bad(rule, (m.path, ln), inst, 'uses %s: an error ends '
                        'the calling process instead of raising' % what,
                        key='%s|%s|%s' % (rule, inst, what))
            if not found:
                rep.ok(rule, inst)


def resolve(p, m, n, imports, shadow):
    if isinstance(n, ast.Name):
        if n.id in imports:
            return imports[n.id]
        if n.id in shadow:
            return None
        return p.resolve_expr(m, n)
    if isinstance(n, ast.Attribute):
        b = resolve(p, m, n.value, imports, shadow)
        return p.member(b, n.attr) if b is not None else None
    return None


def walk_own(s):
    """Nodes of a statement without nested function or class bodies."""
    stack = [s]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            stack.extend(n.decorator_list)
            continue
        stack.extend(ast.iter_child_nodes(n))


def functions(m):
    """(qualified name, node, statements) of every function, and of the
    module body."""
    out = []

    def go(body, prefix):
        for s in body:
            for n in ast.walk(s) if not isinstance(s, (
                    ast.FunctionDef, ast.AsyncFunctionDef,
                    ast.ClassDef)) else [s]:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append((prefix + n.name, n, n.body))
                    go(n.body, prefix + n.name + '.')
                elif isinstance(n, ast.ClassDef):
                    out.append((prefix + n.name, n, [
                        x for x in n.body if not isinstance(x, (
                            ast.FunctionDef, ast.AsyncFunctionDef,
                            ast.ClassDef))]))
                    go(n.body, prefix + n.name + '.')

    top = list(_flat(m.tree.body))
    go(top, '')
    out.append(('<module>', m.tree, [s for s in top if not isinstance(s, (
        ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]))
    return out


def local_names(node):
    names = set()
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        a = node.args
        for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []):
            names.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                names.add(x.arg)
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
    return names


def local_imports(node, m, p):
    d = {}
    if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return d
    for n in ast.walk(node):
        if isinstance(n, ast.Import):
            for a in n.names:
                d[a.asname or a.name.split('.')[0]] = p._deref(
                    ('mod', a.name if a.asname else a.name.split('.')[0]))
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                d[a.asname or a.name] = p._deref(
                    ('from', n.module, a.name))
    return d
