"""Program model: parsed modules, classes (with package-internal linearisation), functions, import aliases."""
import ast
import os


class Func(object):
    def __init__(self, mod, cls, node, qual):
        self.mod, self.cls, self.node, self.qual = mod, cls, node, qual
        self.name = node.name
        self.decos = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '?')
                      for d in node.decorator_list]
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    def __repr__(self):
        return self.qual


def walk_own(fn):
    """nodes of a function without nested function bodies"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            st.extend(ast.iter_child_nodes(n))


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = []
        self.methods = {}
        self.consts = {}


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.imports = {}     # alias -> dotted name
        self.funcs = {}
        self.classes = {}
        self.globals = {}     # name -> ast expr (module constants)


class Program(object):
    """one package; `files` maps module name -> (path, source)"""

    def __init__(self, pkg, files):
        self.pkg = pkg
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.source = {}
        for name, (path, src) in sorted(files.items()):
            tree = ast.parse(src, path)
            self.source[name] = src
            m = Module(name, path, tree)
            self.modules[name] = m
            self._top(m, tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                d = dotted(b)
                d = self.resolve(c.mod, d) if d else None
                c.bases.append(d)
        self.bymethod = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.bymethod.setdefault(n, []).append(f)
        self._mro = {}

    def _top(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    m.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                if s.level:
                    base = self.pkg + ('.' + s.module if s.module else '')
                else:
                    base = s.module
                for a in s.names:
                    m.imports.setdefault(a.asname or a.name, base + '.' + a.name) if m.imports.get(
                        a.asname or a.name) is None else None
            elif isinstance(s, (ast.FunctionDef,)):
                f = Func(m, None, s, m.name + '.' + s.name)
                m.funcs[s.name] = f
                self.funcs[f.qual] = f
            elif isinstance(s, ast.ClassDef):
                c = Cls(m, s)
                m.classes[s.name] = c
                self.classes[s.name] = c
                for t in s.body:
                    if isinstance(t, ast.FunctionDef):
                        f = Func(m, c, t, s.name + '.' + t.name)
                        c.methods[t.name] = f
                        self.funcs[f.qual] = f
                    elif isinstance(t, ast.Assign):
                        for g in t.targets:
                            if isinstance(g, ast.Name):
                                c.consts[g.id] = t.value
            elif isinstance(s, ast.Assign):
                for g in s.targets:
                    if isinstance(g, ast.Name):
                        m.globals[g.id] = s.value
            elif isinstance(s, (ast.Try, ast.If)):
                self._top(m, s.body)
                for h in getattr(s, 'handlers', []):
                    self._top(m, h.body)
                self._top(m, s.orelse)

    def resolve(self, mod, name):
        """dotted name as seen from a module -> class name in package, or dotted library name"""
        head, _, rest = name.partition('.')
        if head in mod.classes:
            return head
        if head in mod.imports:
            full = mod.imports[head] + ('.' + rest if rest else '')
            last = full.split('.')[-1]
            if full.startswith(self.pkg + '.') and last in self.classes:
                return last
            return full
        return name

    def mro(self, cname):
        r = self._mro.get(cname)
        if r is None:
            r = []
            todo = [cname]
            while todo:
                c = todo.pop(0)
                if c in self.classes and c not in r:
                    r.append(c)
                    todo = todo + [b for b in self.classes[c].bases]
            self._mro[cname] = r
        return r

    def method(self, cname, name, after=None):
        ms = self.mro(cname)
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else []
        for c in ms:
            f = self.classes[c].methods.get(name)
            if f is not None:
                return f
        return None

    def fields(self, cname):
        """attributes that the constructors of a class (and its bases) assign"""
        out = set()
        for c in self.mro(cname):
            out |= set(self.classes[c].consts)
            f = self.classes[c].methods.get('__init__')
            if f is not None:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id == 'self':
                        out.add(n.attr)
        return out

    def subclasses(self, cname):
        return [c for c in self.classes if cname in self.mro(c)]


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d + '.' + e.attr if d else None
    return None


def load_dir(path, pkg, only=None, extra=()):
    files = {}
    for p in extra:
        with open(p) as fh:
            files[os.path.basename(p)[:-3]] = (p, fh.read())
    for f in sorted(os.listdir(path)):
        if f.endswith('.py') and (only is None or f in only):
            p = os.path.join(path, f)
            with open(p) as fh:
                files[f[:-3]] = (p, fh.read())
    return Program(pkg, files)
