"""Loads the real source of /repo on every run; nothing is copied or rewritten."""
import ast
import hashlib
import os

from .vals import *

REPO = os.environ.get('PYVC_REPO', '/repo')


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.defs = {}       # name -> ast node (FunctionDef/ClassDef) | ('import', modname, attr) | ('assign', expr)
        self.cache = {}
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name, None)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(st)
                for a in st.names:
                    if a.name == '*':
                        self.defs.setdefault('*', []).append(base)
                    else:
                        self.defs[a.asname or a.name] = ('import', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('assign', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.defs[st.target.id] = ('assign', st.value)
            elif isinstance(st, (ast.If,)):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.body)

    def resolve_from(self, st):
        if st.level == 0:
            return st.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))


class Program:
    def __init__(self):
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            rel = name.replace('.', '/')
            for p in (os.path.join(REPO, rel + '.py'), os.path.join(REPO, rel, '__init__.py')):
                if os.path.isfile(p):
                    try:
                        self.mods[name] = Module(name, p)
                    except SyntaxError as e:
                        raise Unsupported('cannot parse %s: %s' % (p, e))
                    break
            else:
                self.mods[name] = None
        return self.mods[name]

    def find(self, modname, name, seen=()):
        """resolve a module-level name to (module, definition) following imports; or ('ext', dotted)"""
        m = self.module(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if (modname, name) in seen:
            return None
        d = m.defs.get(name)
        if d is None:
            for base in m.defs.get('*', []):
                r = self.find(base, name, seen + ((modname, name),))
                if r and r[0] != 'ext':
                    return r
            if self.module(modname + '.' + name) is not None:
                return ('mod', modname + '.' + name)
            return None
        if isinstance(d, tuple) and d[0] == 'import':
            base, attr = d[1], d[2]
            if attr is None:
                return ('mod', base) if self.module(base) else ('ext', base)
            if self.module(base) is None:
                return ('ext', base + '.' + attr)
            r = self.find(base, attr, seen + ((modname, name),))
            return r
        return (m, d)

    def nested_class(self, qual):
        """'module:Class.method.<locals>.Name' -> (Module, ClassDef)"""
        modname, path = qual.split(':')
        outer, name = path.rsplit('.<locals>.', 1)
        m, _, f = self.function('%s:%s' % (modname, outer))
        for st in ast.walk(f):
            if isinstance(st, ast.ClassDef) and st.name == name:
                st._qualname = path
                return m, st
        raise Unsupported('class %s not found in %s' % (path, modname))

    def function(self, qual):
        """'module:Class.name' or 'module:name' -> (Module, ClassDef or None, FunctionDef)"""
        modname, path = qual.split(':')
        m = self.module(modname)
        if m is None:
            raise Unsupported('module %s not found' % modname)
        scope, cls, node = m.tree.body, None, None
        setter = path.endswith('.setter')
        parts = path[:-7].split('.') if setter else path.split('.')

        def is_setter(st):
            return any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in st.decorator_list)
        for i, p in enumerate(parts):
            if p == '<locals>':
                scope = node.body
                continue
            found = None
            todo = list(scope)
            while todo:
                st = todo.pop(0)
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    if st.name == p and (i < len(parts) - 1 or isinstance(st, ast.ClassDef) or is_setter(st) == setter):
                        found = st
                elif isinstance(st, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                    todo = list(st.body) + list(getattr(st, 'orelse', [])) + todo
            if found is None:
                r = self.find(modname, p) if i == 0 else None
                if r and r[0] not in ('ext', 'mod') and isinstance(r[1], (ast.FunctionDef, ast.ClassDef)):
                    m, found = r
                elif isinstance(node, ast.ClassDef):
                    for c in self.mro(m, node)[1:]:
                        for st in c[1].body:
                            if isinstance(st, ast.FunctionDef) and st.name == p:
                                found, m = st, c[0]
                                break
                        if found:
                            break
            if found is None:
                raise Unsupported('%s not found in %s' % (path, modname))
            if isinstance(node, ast.ClassDef) or isinstance(found, ast.ClassDef):
                cls = found if isinstance(found, ast.ClassDef) else node
            node = found
            scope = found.body
        if not isinstance(node, ast.FunctionDef):
            raise Unsupported('%s is not a function' % qual)
        return m, cls, node

    def mro(self, mod, cls):
        out = [(mod, cls)]
        for bexp in cls.bases:
            if isinstance(bexp, ast.Name):
                r = self.find(mod.name, bexp.id)
                if r and r[0] not in ('ext', 'mod') and isinstance(r[1], ast.ClassDef):
                    for x in self.mro(r[0], r[1]):
                        if x[1] not in [o[1] for o in out]:
                            out.append(x)
        return out

    def ext_bases(self, mod, cls):
        out = set()
        for m, c in self.mro(mod, cls):
            for bexp in c.bases:
                try:
                    out.add(ast.unparse(bexp).split('.')[-1])
                except Exception:
                    pass
        return out

    def text_hash(self, qual):
        try:
            m, c, n = self.function(qual)
            return hashlib.sha256(ast.dump(n).encode()).hexdigest()[:16]
        except Unsupported:
            return 'missing'
