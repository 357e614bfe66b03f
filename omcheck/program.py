"""The analysed program: every module of the package, parsed, with names
resolved across modules (imports, re-exports, class hierarchies)."""
import ast
import os


class AnalysisError(Exception):
    """The analysis itself cannot run (a vanished anchor, a file that does not
    parse): an error exit, neither a pass nor a violation."""


class Endless(AnalysisError):
    """A function calls itself over and over, on a graph that is known."""

    def __init__(self, func, where, conditional):
        AnalysisError.__init__(self, '%s calls itself without end' % func)
        self.where = where
        self.conditional = conditional


class Module(object):
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.names = {}       # top-level name -> binding


class Func(object):
    """A function definition of the analysed program."""

    def __init__(self, module, node, cls=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')

    @property
    def qual(self):
        if self.cls is not None:
            return '%s.%s' % (self.cls.qual, self.name)
        return '%s.%s' % (self.module.name, self.name)


class Class(object):
    def __init__(self, program, module, node):
        self.program = program
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = '%s.%s' % (module.name, node.name)
        self.methods = {}
        self.attrs = {}
        self.base_nodes = list(node.bases)
        for st in _flat(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(module, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.attrs[st.target.id] = st.value
        self._mro = None

    def bases(self):
        out = []
        for b in self.base_nodes:
            out.append(self.program.resolve_expr(self.module, b))
        return out

    def mro(self):
        """Linearised ancestors: Class objects and ('ext', name) pairs."""
        if self._mro is None:
            self._mro = [self]
            out = [self]
            for b in self.bases():
                if isinstance(b, Class):
                    for c in b.mro():
                        if c not in out:
                            out.append(c)
                elif b is not None:
                    if b not in out:
                        out.append(b)
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if not seen:
                seen = c is after
                continue
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, Class):
                if name in c.methods:
                    return c.methods[name]
                if name in c.attrs:
                    return (c, c.attrs[name])
        return None

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [c[1] for c in self.mro() if isinstance(c, tuple)]


def _flat(body):
    """Statements of a body, those under top-level if/try/with included
    (the __main__ block of a script excluded)."""
    for st in body:
        if isinstance(st, ast.If):
            if _is_main(st.test):
                continue
            for s in _flat(st.body):
                yield s
            for s in _flat(st.orelse):
                yield s
        elif isinstance(st, ast.Try):
            for part in (st.body, st.orelse, st.finalbody):
                for s in _flat(part):
                    yield s
        elif isinstance(st, ast.With):
            for s in _flat(st.body):
                yield s
        else:
            yield st


def _is_main(test):
    return (isinstance(test, ast.Compare) and isinstance(test.left, ast.Name)
            and test.left.id == '__name__')


EXT_ALIASES = {
    'openmdao.core.explicitcomponent.ExplicitComponent':
    'openmdao.api.ExplicitComponent',
    'openmdao.core.implicitcomponent.ImplicitComponent':
    'openmdao.api.ImplicitComponent',
    'openmdao.core.group.Group': 'openmdao.api.Group',
    'openmdao.core.problem.Problem': 'openmdao.api.Problem',
    'openmdao.core.indepvarcomp.IndepVarComp': 'openmdao.api.IndepVarComp',
    'numpy.ndarray': 'numpy.ndarray',
    'builtins.set': 'set',
}


def ext(name):
    return ('ext', EXT_ALIASES.get(name, name))


class Program(object):
    SKIP = ('tests', 'examples')

    def __init__(self, root, package='omtools'):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.functions = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError('package %s not found under %s' %
                                (package, root))
        for dirpath, dirnames, filenames in sorted(os.walk(base)):
            dirnames[:] = sorted(d for d in dirnames
                                 if d not in self.SKIP and d != '__pycache__')
            for f in sorted(filenames):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                try:
                    with open(path, 'rb') as fh:
                        src = fh.read()
                    tree = ast.parse(src, filename=path)
                except (SyntaxError, ValueError) as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, rel, tree)
        for m in self.modules.values():
            self._bind(m)

    def _bind(self, m):
        for st in _flat(m.tree.body):
            if isinstance(st, ast.ClassDef):
                c = Class(self, m, st)
                m.names[st.name] = c
                self.classes[c.qual] = c
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, st)
                m.names[st.name] = f
                self.functions[f.qual] = f
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ('mod', a.name)
                    else:
                        top = a.name.split('.')[0]
                        m.names[top] = ('mod', top)
            elif isinstance(st, ast.ImportFrom):
                src = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    parts = parts[:len(parts) - st.level]
                    src = '.'.join(parts + ([src] if src else []))
                for a in st.names:
                    if a.name == '*':
                        m.names.setdefault('*', []).append(src)
                    else:
                        m.names[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('val', m, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    m.names[st.target.id] = ('val', m, st.value)

    # ---- resolution
    def lookup(self, module, name, depth=0):
        """Class, Func, ('ext', dotted), ('mod', dotted), ('val', m, node) or
        None."""
        if depth > 20:
            return None
        b = module.names.get(name)
        if b is None:
            for src in module.names.get('*', ()):
                if src in self.modules:
                    r = self.lookup(self.modules[src], name, depth + 1)
                    if r is not None:
                        return r
            return None
        return self._deref(b, depth)

    def _deref(self, b, depth=0):
        if isinstance(b, tuple):
            if b[0] == 'from':
                src, name = b[1], b[2]
                if src in self.modules:
                    r = self.lookup(self.modules[src], name, depth + 1)
                    if r is not None:
                        return r
                full = src + '.' + name
                if full in self.modules:
                    return ('mod', full)
                return ext(full)
            if b[0] == 'mod' and b[1] not in self.modules:
                return ext(b[1])
        return b

    def member(self, b, name):
        """Attribute of a resolved module or external name."""
        if isinstance(b, tuple) and b[0] == 'mod':
            m = self.modules.get(b[1])
            if m is not None:
                r = self.lookup(m, name)
                if r is not None:
                    return r
            full = b[1] + '.' + name
            if full in self.modules:
                return ('mod', full)
            return ext(full)
        if isinstance(b, tuple) and b[0] == 'ext':
            return ext(b[1] + '.' + name)
        return None

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            r = self.lookup(module, node.id)
            if r is None:
                return ext('builtins.' + node.id)
            return r
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b is not None:
                return self.member(b, node.attr)
        return None

    def function(self, qual):
        return self.functions.get(qual)

    def cls(self, qual):
        return self.classes.get(qual)
