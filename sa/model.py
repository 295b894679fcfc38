"""Model of the analysed package: modules, classes, functions, imports, class hierarchy.

Everything is read from the source files of /repo on every run; nothing is imported or executed.
"""
import ast
import os

import warnings

from .desugar import desugar

warnings.simplefilter('ignore', SyntaxWarning)


class AnalysisError(Exception):
    """The analysis cannot answer (an anchor vanished, a file does not parse, ...)."""


class FuncInfo:
    def __init__(self, name, node, module, cls=None, outer=None):
        self.name, self.node, self.module, self.cls, self.outer = name, node, module, cls, outer
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def qual(self):
        return self.cls.name + '.' + self.name if self.cls else self.name

    @property
    def where(self):
        return '%s:%d (%s)' % (self.module.relpath, self.node.lineno, self.qual)

    @property
    def key(self):
        return self.module.name + ':' + self.qual

    @property
    def kind(self):
        if self.cls is None:
            return 'function'
        for d in self.decorators:
            if d == 'staticmethod' or d == 'abstractstaticmethod':
                return 'static'
            if d == 'classmethod':
                return 'class'
            if d in ('property', 'cached_property', 'functools.cached_property') or d.endswith('.getter'):
                return 'property'
            if d.endswith('.setter') or d.endswith('.deleter'):
                return 'setter'
        if self.name in ('__new__',):
            return 'static'
        return 'method'

    def __repr__(self):
        return '<F %s>' % self.key


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods, self.attrs, self.setters = {}, {}, {}
        self.bases = []          # resolved ClassInfo
        self.base_names = []
        for st in body_statements(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(st.name, st, module, self)
                if f.kind == 'setter':
                    self.setters.setdefault(st.name, []).append(f)
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value
        for b in node.bases:
            if isinstance(b, ast.Call) and getattr(b.func, 'id', getattr(b.func, 'attr', '')) == 'with_metaclass':
                self.base_names.extend(b.args[1:])
            else:
                self.base_names.append(b)

    @property
    def key(self):
        return self.module.name + ':' + self.name

    def __repr__(self):
        return '<C %s>' % self.key


def body_statements(body):
    """Statements of a body, those of if/try/with blocks of module or class level included."""
    for st in body:
        yield st
        if isinstance(st, ast.If):
            yield from body_statements(st.body)
            yield from body_statements(st.orelse)
        elif isinstance(st, ast.Try):
            for b in (st.body, st.orelse, st.finalbody):
                yield from body_statements(b)
            for h in st.handlers:
                yield from body_statements(h.body)
        elif isinstance(st, (ast.With,)):
            yield from body_statements(st.body)


class Module:
    def __init__(self, name, path, relpath, source):
        self.name, self.path, self.relpath, self.source = name, path, relpath, source
        self.tree = desugar(ast.parse(source, path))
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.classes, self.functions, self.assigns, self.imports = {}, {}, {}, {}
        self.stars = []
        for st in body_statements(self.tree.body):
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st.name, st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(st.name, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
        # imports of the whole file (function level ones included)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = (base, a.name)


class Repo:
    PKG = 'ngoschema'
    OVERRIDES = {}     # sources of the mutation tools: path relative to the root -> text

    def __init__(self, root='/repo'):
        self.root = root
        self.modules = {}
        pkg = os.path.join(root, self.PKG)
        if not os.path.isdir(pkg):
            raise AnalysisError('package %s not found' % pkg)
        for d, ds, fs in os.walk(pkg):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if rel in self.OVERRIDES:
                    src = self.OVERRIDES[rel]
                else:
                    with open(p, encoding='utf-8') as fp:
                        src = fp.read()
                try:
                    self.modules[name] = Module(name, p, rel, src)
                except SyntaxError as er:
                    raise AnalysisError('%s does not parse: %s' % (rel, er))
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_names:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
        self._mro = {}

    # ------------------------------------------------------------------ names
    def resolve_name(self, module, name, seen=()):
        """ClassInfo, FuncInfo, Module or None of a name used in a module."""
        if (module.name, name) in seen:
            return None
        seen = seen + ((module.name, name),)
        if name in module.classes:
            return module.classes[name]
        if name in module.functions:
            return module.functions[name]
        if name in module.assigns and isinstance(module.assigns[name], (ast.Name, ast.Attribute)):
            r = self.resolve_expr(module, module.assigns[name], seen)
            if r is not None:
                return r
        if name in module.imports:
            base, attr = module.imports[name]
            if attr is None:
                return self.modules.get(base)
            if base + '.' + attr in self.modules and not (
                    base in self.modules and attr in self.modules[base].classes):
                sub = self.modules[base + '.' + attr]
                # "from . import decorators" is a module, "from .x import x" is the name
                if base in self.modules and self.modules[base].name != module.name:
                    r = self.resolve_name(self.modules[base], attr, seen) if attr in self.modules[base].imports else None
                    if isinstance(r, (ClassInfo, FuncInfo)):
                        return r
                return sub
            if base in self.modules:
                r = self.resolve_name(self.modules[base], attr, seen)
                if r is not None:
                    return r
                return self._star(self.modules[base], attr, seen)
            return None
        return self._star(module, name, seen)

    def _star(self, module, name, seen):
        for base in reversed(module.stars):
            if base in self.modules:
                r = self.resolve_name(self.modules[base], name, seen)
                if r is not None:
                    return r
        return None

    def resolve_expr(self, module, expr, seen=()):
        if isinstance(expr, ast.Name):
            return self.resolve_name(module, expr.id, seen)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(module, expr.value, seen)
            if isinstance(b, Module):
                return self.resolve_name(b, expr.attr, seen)
            if isinstance(b, ClassInfo):
                return self.method(b, expr.attr)
        return None

    # ---------------------------------------------------------------- classes
    def cls(self, name, optional=False):
        """Class by 'Name' or 'module.tail:Name'; a class moved to another module is still found."""
        mod, _, n = name.rpartition(':')
        found = [c for m in self.modules.values() for c in m.classes.values() if c.name == n]
        if mod:
            pref = [c for c in found if c.module.name == 'ngoschema.' + mod or c.module.name.endswith('.' + mod)]
            found = pref or found
        if not found:
            if optional:
                return None
            raise AnalysisError('class %s not found' % name)
        if len(found) > 1:
            raise AnalysisError('class %s is ambiguous: %s' % (name, found))
        return found[0]

    def mro(self, c):
        if c.key not in self._mro:
            self._mro[c.key] = None
            seqs = [list(self.mro(b) or [b]) for b in c.bases] + [list(c.bases)]
            res, ok = [c], True
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                for s in seqs:
                    while h in s:
                        s.remove(h)
            self._mro[c.key] = res
        return self._mro[c.key]

    def is_subclass(self, c, name):
        return any(k.name == name for k in (self.mro(c) or []))

    def subclasses(self, name):
        return [c for m in self.modules.values() for c in m.classes.values() if self.is_subclass(c, name)]

    def method(self, c, name, after=None):
        """Method as resolved along the class hierarchy (after: start after that class, as super())."""
        mro = self.mro(c) or [c]
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c) or [c]:
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def func(self, name, optional=False):
        """'mod.tail:Class.method', 'Class.method', 'mod.tail:function' or 'function'.

        A method is resolved along the hierarchy of its class (an override that was removed is
        replaced by what then runs)."""
        mod, _, n = name.rpartition(':')
        if '.' in n:
            cn, mn = n.rsplit('.', 1)
            c = self.cls((mod + ':' if mod else '') + cn, optional=optional)
            f = self.method(c, mn) if c else None
            if f is None and not optional:
                raise AnalysisError('function %s not found' % name)
            return f
        found = [m.functions[n] for m in self.modules.values() if n in m.functions]
        if mod:
            pref = [f for f in found if f.module.name == 'ngoschema.' + mod or f.module.name.endswith('.' + mod)]
            found = pref or found
        if len(found) != 1:
            if optional and not found:
                return None
            raise AnalysisError('function %s not found' % name if not found else 'function %s is ambiguous' % name)
        return found[0]

    def all_functions(self, nested=True):
        """Every function and method of the package (nested ones as separate entries)."""
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
                if nested:
                    yield from self._nested(f)
            for c in m.classes.values():
                for f in list(c.methods.values()) + [x for l in c.setters.values() for x in l]:
                    yield f
                    if nested:
                        yield from self._nested(f)

    def _nested(self, f):
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield FuncInfo(f.name + '.<locals>.' + n.name, n, f.module, f.cls, outer=f)
