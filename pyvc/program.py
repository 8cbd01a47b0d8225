"""The program under verification, read from the sources in /repo on every run."""
import ast
import os

REPO = os.environ.get('VP_REPO', '/repo')

MODULES = {
    'sqlvalidator': 'sqlvalidator/__init__.py',
    'sqlvalidator.main': 'sqlvalidator/main.py',
    'sqlvalidator.file_handler': 'sqlvalidator/file_handler.py',
    'sqlvalidator.sql_formatter': 'sqlvalidator/sql_formatter.py',
    'sqlvalidator.sql_validator': 'sqlvalidator/sql_validator.py',
    'sqlvalidator.grammar.tokeniser': 'sqlvalidator/grammar/tokeniser.py',
    'sqlvalidator.grammar.lexer': 'sqlvalidator/grammar/lexer.py',
    'sqlvalidator.grammar.sql': 'sqlvalidator/grammar/sql.py',
}


class Func:
    def __init__(self, node, module, cls=None, kind='function', closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind            # function, method, static, class, property
        self.closure = closure
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        self.is_gen = (not isinstance(node, ast.Lambda)) and has_yield(node)

    @property
    def qual(self):
        m = self.module.name.split('.')[-1]
        return m + ':' + (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return 'Func(%s)' % self.qual


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = []         # Cls or builtin exception classes / None
        self.methods = {}
        self.const_nodes = {}
        self.consts = {}
        self.dataclass_fields = None
        self.id = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_const(self, name):
        for c in self.mro():
            if name in c.const_nodes:
                return c
        return None

    def issub(self, other):
        if isinstance(other, Cls):
            return other in self.mro()
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type) and issubclass(b, other):
                    return True
        return False

    def __repr__(self):
        return 'Cls(%s)' % self.name


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.names = {}         # name -> Func | Cls | ('const', node) | ('import', module, name)


class Program:
    def __init__(self, repo=None):
        import builtins
        repo = repo or REPO
        self.repo = repo
        self.modules = {}
        self.classes = []
        for name, rel in MODULES.items():
            path = os.path.join(repo, rel)
            if os.path.exists(path):
                self.modules[name] = Module(name, path)
        # modules added by a change
        base = os.path.join(repo, 'sqlvalidator')
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for fn in sorted(files):
                if fn.endswith('.py'):
                    rel = os.path.relpath(os.path.join(root, fn), repo)
                    mod = rel[:-3].replace(os.sep, '.')
                    if mod.endswith('.__init__'):
                        mod = mod[:-len('.__init__')]
                    if mod not in self.modules:
                        self.modules[mod] = Module(mod, os.path.join(repo, rel))
        for m in self.modules.values():
            self._collect(m)
        for c in self.classes:
            for b in c.node.bases:
                r = None
                if isinstance(b, ast.Name):
                    r = self.lookup(c.module, b.id)
                    if r is None:
                        r = getattr(builtins, b.id, None)
                c.bases.append(r)
        for i, c in enumerate(self.classes):
            c.id = i + 1

    def _collect(self, m):
        for st in m.tree.body:
            if isinstance(st, ast.FunctionDef):
                m.names[st.name] = Func(st, m)
            elif isinstance(st, ast.ClassDef):
                c = Cls(st.name, m, st)
                m.names[st.name] = c
                self.classes.append(c)
                dc = any((isinstance(d, ast.Name) and d.id == 'dataclass')
                         or (isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'dataclass')
                         for d in st.decorator_list)
                if dc:
                    c.dataclass_fields = []
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        kind = 'method'
                        for d in s.decorator_list:
                            if isinstance(d, ast.Name):
                                kind = {'staticmethod': 'static', 'classmethod': 'class',
                                        'property': 'property'}.get(d.id, 'unknown')
                            else:
                                kind = 'unknown'
                        c.methods[s.name] = Func(s, m, c, kind)
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 \
                            and isinstance(s.targets[0], ast.Name):
                        c.const_nodes[s.targets[0].id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        if dc:
                            c.dataclass_fields.append((s.target.id, s.value))
                        elif s.value is not None:
                            c.const_nodes[s.target.id] = s.value
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 \
                    and isinstance(st.targets[0], ast.Name):
                m.names[st.targets[0].id] = ('const', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                m.names[st.target.id] = ('const', st.value)
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    mod = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    m.names[a.asname or a.name] = ('import', mod, a.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    m.names[a.asname or a.name.split('.')[0]] = ('module', a.name)

    def lookup(self, module, name):
        """Resolve a global name to Func | Cls | Module | ('const', module, node) | ('ext', dotted)."""
        r = module.names.get(name)
        if r is None:
            return None
        if isinstance(r, tuple) and r[0] == 'import':
            mod, nm = r[1], r[2]
            if mod + '.' + nm in self.modules:
                return self.modules[mod + '.' + nm]
            if mod in self.modules:
                return self.lookup(self.modules[mod], nm)
            return ('ext', mod + '.' + nm)
        if isinstance(r, tuple) and r[0] == 'module':
            if r[1] in self.modules:
                return self.modules[r[1]]
            return ('ext', r[1])
        if isinstance(r, tuple) and r[0] == 'const':
            return ('const', module, r[1])
        return r

    def find(self, qual):
        """'tokeniser:split_tokens', 'sql:Column.validate' -> Func or None."""
        m, n = qual.split(':')
        for mod in self.modules.values():
            if mod.name.split('.')[-1] == m:
                parts = n.split('.')
                r = mod.names.get(parts[0])
                if isinstance(r, tuple) and r[0] == 'import':
                    r = self.lookup(mod, parts[0])
                if len(parts) == 1:
                    return r if isinstance(r, Func) else None
                if isinstance(r, Cls):
                    return r.methods.get(parts[1])
        return None

    def cls(self, name):
        for c in self.classes:
            if c.name == name:
                return c
        return None
