"""P20: every name, call and message of the library is one which exists, on every path."""
import ast
import builtins
import string
import symtable

from ..core import rule
from ..lib import *
from ..model import ClassInfo, FuncInfo, Module, body_statements

MODULE_NAMES = {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__all__', '__dict__', '__class__',
                '__module__', '__qualname__'}
# bound by Python 2 only, under a test of the version or in a try
PY2 = {'unicode', 'long', 'basestring', 'unichr', 'xrange', 'raw_input', 'reduce'}


def module_names(repo, m, seen=()):
    """Names bound at the level of a module (None if they cannot all be known)."""
    if m.name in seen:
        return set()
    if not hasattr(m, '_bound'):
        out = set()
        top = symtable.symtable(m.source, m.path, 'exec')
        for s in top.get_symbols():
            if s.is_assigned() or s.is_imported() or s.is_namespace():
                out.add(s.get_name())

        def globals_of(t):
            for c in t.get_children():
                if c.get_type() == 'function':
                    out.update(s.get_name() for s in c.get_symbols() if s.is_declared_global() and s.is_assigned())
                globals_of(c)
        globals_of(top)
        m._bound = out
    out = set(m._bound)
    # modules of a package are attributes of it
    out |= {n[len(m.name) + 1:] for n in repo.modules if n.startswith(m.name + '.') and '.' not in n[len(m.name) + 1:]} if m.is_pkg else set()
    for base in m.stars:
        if base in repo.modules:
            sub = module_names(repo, repo.modules[base], seen + (m.name,))
            if sub is None:
                return None
            out |= {x for x in sub if not x.startswith('_')} | all_of(repo.modules[base])
        else:
            return None
    return out


def starred(repo, m, name):
    """name is bound in the module m otherwise than as a module of the package."""
    module_names(repo, m)
    return name in m._bound or any(base in repo.modules and (name in (module_names(repo, repo.modules[base], (m.name,)) or ()) and (
        not name.startswith('_') or name in all_of(repo.modules[base]))) for base in m.stars)


class Live(ast.NodeTransformer):
    """Drops the statements which follow a return, a raise, a break or a continue: they are never met."""

    def generic_visit(self, node):
        super().generic_visit(node)
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                        del b[i + 1:]
                        break
        return node


def live(m):
    """(tree, source) of a module without what is never met."""
    if not hasattr(m, '_live'):
        t = Live().visit(ast.parse(m.source))
        m._live = t, ast.unparse(t)
    return m._live


def all_of(m):
    v = m.assigns.get('__all__')
    return {e.value for e in v.elts if isinstance(e, ast.Constant)} if isinstance(v, (ast.List, ast.Tuple)) else set()


@rule('P20', 'names', 'every name used in the library is bound: by the function, a function around it, its module, what it imports or Python')
def names(ctx):
    n = 0
    for m in ctx.repo.modules.values():
        bound = module_names(ctx.repo, m)
        if bound is None:
            continue
        lines = {}
        for x in ast.walk(live(m)[0]):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                lines.setdefault(x.id, []).append(x.lineno)

        def scan(t, path):
            nonlocal n
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                if t.get_type() == 'module':
                    free = not (s.is_assigned() or s.is_imported() or s.is_namespace())
                else:
                    free = s.is_global()
                if not free:
                    continue
                n += 1
                nm = s.get_name()
                ok = nm in bound or hasattr(builtins, nm) or nm in MODULE_NAMES or nm in PY2
                ctx.ob(ok, '%s %s' % (path, nm), '%s:%d (%s)' % (m.relpath, lines.get(nm, [0])[0], path.split(':')[-1]),
                       'name %s is not bound' % nm)
            for c in t.get_children():
                scan(c, (path + '.' if not path.endswith(':') else path) + c.get_name())
        scan(symtable.symtable(live(m)[1], m.path, 'exec'), m.name + ':')
    ctx.need(1000, n, 'names')


@rule('P20', 'imports', 'what a module of the library takes of another one exists there')
def imports(ctx):
    n = 0
    for m in ctx.repo.modules.values():
        tree = live(m)[0]
        for x in ast.walk(tree):
            if isinstance(x, ast.ImportFrom):
                base = x.module or ''
                if x.level:
                    parts = m.name.split('.')
                    parts = parts if m.is_pkg else parts[:-1]
                    parts = parts[:len(parts) - (x.level - 1)]
                    base = '.'.join(parts + ([x.module] if x.module else []))
                if base.split('.')[0] != ctx.repo.PKG:
                    continue
                n += 1
                if base not in ctx.repo.modules:
                    ctx.ob(False, '%s:%s' % (m.name, base), '%s:%d' % (m.relpath, x.lineno), 'module %s does not exist' % base)
                    continue
                known = module_names(ctx.repo, ctx.repo.modules[base])
                for a in x.names:
                    ok = a.name == '*' or known is None or a.name in known or base + '.' + a.name in ctx.repo.modules
                    ctx.ob(ok, '%s %s' % (m.name, a.name), '%s:%d' % (m.relpath, x.lineno), '%s is not in %s' % (a.name, base))
        for f in [f for f in ctx.repo.all_functions(nested=False) if f.module is m]:
            local = {a.arg for s in ast.walk(f.node) if isinstance(s, ast.arguments) for a in s.args + s.kwonlyargs + s.posonlyargs} | \
                {t.id for t in ast.walk(f.node) if isinstance(t, ast.Name) and isinstance(t.ctx, (ast.Store, ast.Del))}
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and isinstance(x.ctx, ast.Load) and x.value.id not in local:
                    r = ctx.repo.resolve_name(m, x.value.id)
                    src = m.imports.get(x.value.id, (None, None))
                    if src[1] and src[0] in ctx.repo.modules and isinstance(r, Module) and starred(ctx.repo, ctx.repo.modules[src[0]], src[1]):
                        continue            # what a package gives under the name of its module
                    if isinstance(r, Module):
                        n += 1
                        known = module_names(ctx.repo, r)
                        ctx.ob(known is None or x.attr in known or x.attr in MODULE_NAMES, f.qual, f.where, '%s is not in %s' % (x.attr, r.name))
    ctx.need(200, n, 'imports')


# ------------------------------------------------------------------ calls
def signature(f, bound):
    """(required positional, most positional or None, keywords or None, required keyword-only) of a function; None if it is replaced by its decorators."""
    for d in f.decorators:
        d = d.split('(')[0]
        if d not in ('staticmethod', 'classmethod', 'abstractmethod', 'abstractstaticmethod', 'abstractclassmethod', 'assert_arg', 'log_exceptions', 'log_init',
                     'assert_prop', 'depend_on_prop', 'recursive_ref'):
            return None
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    req = len(pos) - len(a.defaults)
    skip = 1 if bound else 0
    kws = set(pos[skip:]) | {x.arg for x in a.kwonlyargs}
    if any('assert_arg' in d for d in f.decorators):
        kws.add('assert_args')
    kwonly = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return (max(req - skip, 0), None if a.vararg else len(pos) - skip, None if a.kwarg else kws, kwonly, pos[skip:])


def misfit(call, sig):
    """Why a call does not fit a signature."""
    req, most, kws, kwonly, pos = sig
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [k.arg for k in call.keywords if k.arg is not None]
    if most is not None and not star and len(call.args) > most:
        return '%d positional arguments are given, %d are taken' % (len(call.args), most)
    if kws is not None:
        bad = [k for k in given if k not in kws]
        if bad:
            return 'argument %s is not one of its own' % bad[0]
    if not star:
        twice = [k for k in given if k in pos[:len(call.args)]]
        if twice:
            return 'argument %s is given twice' % twice[0]
    if not star and not dstar:
        missing = [x for i, x in enumerate(pos[:req]) if i >= len(call.args) and x not in given]
        if missing:
            return 'argument %s is missing' % missing[0]
        missing = [x for x in kwonly if x not in given]
        if missing:
            return 'argument %s is missing' % missing[0]
    return None


def local_names(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.arguments):
            out |= {a.arg for a in x.args + x.kwonlyargs + x.posonlyargs} | {a.arg for a in (x.vararg, x.kwarg) if a}
        elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not node:
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def callee(ctx, f, c, local):
    """(function, bound) called by the call c of the function f, when it is known."""
    fn_ = c.func
    if isinstance(fn_, ast.Name):
        if fn_.id in local:
            # a function of the function
            defs = [x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node and x.name == fn_.id]
            other = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == fn_.id and isinstance(x.ctx, ast.Store)] + \
                [x for x in ast.walk(f.node) if isinstance(x, ast.arg) and x.arg == fn_.id] + \
                [x for x in ast.walk(f.node) if isinstance(x, ast.ClassDef)]
            if len(defs) == 1 and not other:
                return FuncInfo(f.name + '.<locals>.' + fn_.id, defs[0], f.module, None, outer=f), False
            return None
        r = ctx.repo.resolve_name(f.module, fn_.id)
        if isinstance(r, FuncInfo):
            return r, False
        if isinstance(r, ClassInfo) and not metaclassed(ctx, r):
            i = ctx.repo.method(r, '__init__')
            new = ctx.repo.method(r, '__new__')
            if i is not None and new is None and all(isinstance(x, ClassInfo) for x in ctx.repo.mro(r)):
                return i, True
        return None
    if isinstance(fn_, ast.Attribute):
        base = fn_.value
        if isinstance(base, ast.Name) and base.id not in local:
            r = ctx.repo.resolve_name(f.module, base.id)
            if isinstance(r, Module):
                g = ctx.repo.resolve_name(r, fn_.attr)
                return (g, False) if isinstance(g, FuncInfo) else None
            if isinstance(r, ClassInfo):
                g = ctx.repo.method(r, fn_.attr)
                if g is None:
                    return None
                return g, g.kind == 'class'
        if isinstance(base, ast.Name) and f.cls is not None and f.node.args.args and base.id == f.node.args.args[0].arg and f.kind in ('method', 'class') \
                and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == base.id for x in ast.walk(f.node)):
            # any class below may redefine it
            cands = []
            for k in [f.cls] + list(ctx.repo.subclasses(f.cls.name)):
                g = ctx.repo.method(k, fn_.attr)
                if g is None or stored(ctx, fn_.attr):
                    return None
                cands.append(g)
            return ('any', [(g, g.kind != 'static') for g in {x.key: x for x in cands}.values()])
    return None


def stored(ctx, attr):
    """attr is also assigned as an attribute somewhere (of a class or an object)."""
    if not hasattr(ctx, '_stored'):
        ctx._stored = set()
        for m in ctx.repo.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    ctx._stored.add(x.attr)
                elif isinstance(x, ast.ClassDef):
                    for s in body_statements(x.body):
                        if isinstance(s, ast.Assign):
                            ctx._stored |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    return attr in ctx._stored


def metaclassed(ctx, c):
    return any('SchemaMetaclass' in ast.unparse(b) or 'metaclass' in ast.unparse(b) for k in ctx.repo.mro(c) for b in list(k.node.bases) + [x.value for x in k.node.keywords])


@rule('P20', 'calls', 'the functions, constructors and methods of the library are called by it with arguments they take: none too many, none missing, '
      'none unknown, none twice')
def calls(ctx):
    n = 0
    for f in ctx.repo.all_functions(nested=False):
        local = local_names(f.node)
        for c in ast.walk(f.node):
            if not isinstance(c, ast.Call):
                continue
            got = callee(ctx, f, c, local)
            if got is None:
                continue
            for g, bound in (got[1] if got[0] == 'any' else [got]):
                sig = signature(g, bound)
                if sig is None:
                    continue
                n += 1
                why = misfit(c, sig)
                ctx.ob(why is None, '%s > %s' % (f.qual, g.qual), '%s:%d (%s)' % (f.module.relpath, c.lineno, f.qual), 'call of %s: %s' % (g.qual, why))
    ctx.need(400, n, 'calls')


# ------------------------------------------------------------------ messages
def placeholders(s):
    """Number of positional % placeholders of a format, or the set of its names."""
    out, names, i = 0, set(), 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(s) and s[i] == '%':
            i += 1
            continue
        if i < len(s) and s[i] == '(':
            j = s.index(')', i)
            names.add(s[i + 1:j])
            i = j + 1
        while i < len(s) and s[i] in '#0- +0123456789.hlL':
            i += 1
        if i < len(s) and s[i] == '*':
            return None
        if i >= len(s) or s[i] not in 'diouxXeEfFgGcrsa':
            return 'bad'
        i += 1
        out += 1
    return names or out


def text_of(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return node.value
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        a, b = text_of(node.left), text_of(node.right)
        return a + b if a is not None and b is not None else None
    return None


@rule('P20', 'messages', 'every message has as many values as it has places for: what goes wrong is told, and the message itself does not fail')
def messages(ctx):
    n = 0
    for f in ctx.repo.all_functions(nested=False):
        for x in ast.walk(f.node):
            why = None
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod):
                s = text_of(x.left)
                if s is None:
                    continue
                p = placeholders(s)
                n += 1
                if p == 'bad':
                    why = 'its format is not one'
                elif isinstance(p, int):
                    if isinstance(x.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.right.elts):
                        if len(x.right.elts) != p:
                            why = '%d values for %d places' % (len(x.right.elts), p)
                    elif isinstance(x.right, (ast.Constant, ast.JoinedStr, ast.List, ast.ListComp)) and p != 1:
                        why = 'one value for %d places' % p
                    elif isinstance(x.right, ast.Dict) and p > 1:
                        why = 'one value for %d places' % p
                    elif isinstance(x.right, (ast.Name, ast.Attribute, ast.Call)) and p != 1 and not may_be_tuple(f, x.right):
                        why = 'one value for %d places' % p
                elif isinstance(p, set) and isinstance(x.right, ast.Dict):
                    keys = {k.value for k in x.right.keys if isinstance(k, ast.Constant)}
                    if all(isinstance(k, ast.Constant) for k in x.right.keys) and not p <= keys:
                        why = 'no value for %s' % sorted(p - keys)[0]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in LOGMETHODS and x.args and \
                    ('log' in ast.unparse(x.func.value).lower()):
                i = 1 if x.func.attr == 'log' else 0
                s = text_of(x.args[i]) if len(x.args) > i else None
                if s is None or any(isinstance(a, ast.Starred) for a in x.args):
                    continue
                p = placeholders(s)
                rest = x.args[i + 1:]
                n += 1
                if rest and p == 'bad':
                    why = 'its format is not one'
                elif isinstance(p, int) and rest and len(rest) != p:
                    why = '%d values for %d places' % (len(rest), p)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format':
                s = text_of(x.func.value)
                if s is None or any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                    continue
                n += 1
                try:
                    fields = [r[1] for r in string.Formatter().parse(s) if r[1] is not None]
                except ValueError as er:
                    why, fields = str(er), []
                auto = 0
                for fd in fields:
                    base = fd.split('.')[0].split('[')[0]
                    if base == '':
                        base, auto = str(auto), auto + 1
                    if base.isdigit() and int(base) >= len(x.args):
                        why = 'no value for its place %s' % base
                    elif not base.isdigit() and base not in {k.arg for k in x.keywords}:
                        why = 'no value for %s' % base
            else:
                continue
            ctx.ob(why is None, f.qual, '%s:%d (%s)' % (f.module.relpath, x.lineno, f.qual), 'message "%s": %s' % ((s or '')[:50], why))
    ctx.need(60, n, 'messages')
    # a value which is refused can be of any kind: a tuple would be taken for the values of the message
    m = 0
    for f in ctx.repo.all_functions(nested=False):
        if f.cls is None or f.name not in ('_check', '_convert', '_validate'):
            continue
        a1 = ('arg', 1)
        same = lambda t: t == a1 or t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('_check', '_convert', '_validate', '_deserialize') and t[2][:2] == (('arg', 0), a1)
        for p in ctx.paths(f):
            if p.normal:
                continue
            for y in subterms(strip(p.outcome[1])):
                if y[0] == 'bin' and y[1] == 'Mod' and y[2][0] == 'const' and same(strip(y[3])):
                    known = any(b and t[0] == 'call' and t[2] and same(strip(t[2][0])) for t, b in allfacts(p) if t[0] == 'call' and callname(t) in ('check', 'isinstance', 'is_string'))
                    m += 1
                    ctx.ob(known, f.qual, f.where, 'a tuple is taken for the values of the message: %s' % show(y)[:60])
                elif y[0] == 'bin' and y[1] == 'Mod' and y[3][0] == 'tuple' and any(same(strip(z)) for z in y[3][1]):
                    m += 1
                    ctx.ob(True, f.qual, f.where, '')


def may_be_tuple(f, node):
    if isinstance(node, ast.Name):
        vals = [s.value for s in ast.walk(f.node) if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name) and t.id == node.id]
        return not vals or any(not isinstance(v, (ast.Constant, ast.JoinedStr, ast.List, ast.Dict)) for v in vals)
    return True


@rule('P20', 'raised', 'what is raised is an exception, and what is caught are exceptions')
def raised(ctx):
    n = 0
    for f in ctx.repo.all_functions(nested=False):
        local = local_names(f.node)
        for x in ast.walk(f.node):
            es = []
            if isinstance(x, ast.Raise) and x.exc is not None:
                es = [x.exc.func if isinstance(x.exc, ast.Call) else x.exc]
            elif isinstance(x, ast.ExceptHandler) and x.type is not None:
                es = x.type.elts if isinstance(x.type, ast.Tuple) else [x.type]
            for e in es:
                n += 1
                ok = True
                if isinstance(e, ast.Name) and e.id not in local:
                    b = getattr(builtins, e.id, None)
                    r = ctx.repo.resolve_name(f.module, e.id)
                    if r is None and e.id not in f.module.imports:
                        ok = b is None or isinstance(b, type) and issubclass(b, BaseException)
                    elif isinstance(r, ClassInfo):
                        ok = any(isinstance(getattr(builtins, ast.unparse(q), None), type) or q is not None and 'Error' in ast.unparse(q) or 'Exception' in ast.unparse(q)
                                 for k in ctx.repo.mro(r) for q in k.node.bases)
                    elif r is not None:
                        ok = False
                elif isinstance(e, (ast.Constant, ast.JoinedStr, ast.BinOp)):
                    ok = False
                ctx.ob(ok, f.qual, '%s:%d (%s)' % (f.module.relpath, x.lineno, f.qual), '%s is not an exception' % ast.unparse(e)[:60])
    ctx.need(150, n, 'exceptions')


# ------------------------------------------------------------------ bound before they are read
class Bound:
    """Which local names of a function are bound wherever it reads them.

    A state is (names bound on every path, {test: names bound on every path where the test held}), or None where nothing goes."""

    def __init__(self, fn, free=()):
        self.fn, self.found, self.reads = fn, [], 0
        self.free = set(free)
        self.locals = self.own(fn) - self.free
        a = fn.args
        args = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.block(fn.body, (frozenset(args), {}), {'b': [], 'c': []})

    @staticmethod
    def own(fn):
        out, todo = set(), list(fn.body)
        while todo:
            c = todo.pop()
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                out |= {(x.asname or x.name).split('.')[0] for x in c.names}
            todo += list(ast.iter_child_nodes(c))
        return out - {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}

    def read(self, e, st):
        if e is None or st is None:
            return st

        def w(n, inner):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in inner:
                    self.reads += 1
                    if n.id not in st[0]:
                        self.found.append((n.lineno, n.id))
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = inner | {t.id for g in n.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)}
                for c in ast.iter_child_nodes(n):
                    w(c, inner)
            elif isinstance(n, ast.comprehension):
                for c in [n.iter] + n.ifs:
                    w(c, inner)
            elif not isinstance(n, ast.Lambda):
                for c in ast.iter_child_nodes(n):
                    w(c, inner)
        w(e, frozenset())
        return self.bind({x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}, st)

    @staticmethod
    def meet(a, b):
        if a is None or b is None:
            return b if a is None else a
        return a[0] & b[0], {k: a[1][k] & b[1][k] for k in a[1] if k in b[1]}

    @staticmethod
    def bind(names, st):
        if st is None or not names:
            return st
        # what was known of tests on these names is not any more
        return st[0] | names, {k: v for k, v in st[1].items() if not (set(k[2]) & set(names))}

    def store(self, t, st):
        return self.bind({x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}, st)

    def cond(self, test):
        """(key of a test, its truth) when it reads local names only."""
        pol = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, pol = test.operand, not pol
        if any(not isinstance(x, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Load, ast.cmpop, ast.boolop, ast.unaryop)) for x in ast.walk(test)):
            return None
        t = ast.dump(test)
        for a, b in (('IsNot()', 'Is()'), ('NotEq()', 'Eq()'), ('NotIn()', 'In()')):
            if isinstance(test, ast.Compare) and len(test.ops) == 1 and a in t:
                t, pol = t.replace(a, b), not pol
        return t, pol, tuple(sorted({x.id for x in ast.walk(test) if isinstance(x, ast.Name)}))

    def given(self, test, st, truth):
        """The state where test is known to be true or false."""
        k = self.cond(test)
        if k is None or st is None:
            return st
        k = (k[0], k[1] == truth, k[2])
        names = st[1].get(k, frozenset())
        cs = dict(st[1])
        cs[(k[0], not k[1], k[2])] = frozenset(self.locals)       # it cannot be otherwise here
        return st[0] | names, cs

    def block(self, b, st, loop):
        full = set()
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in full:
                st = self.stmt(s, st, loop, once=True)
            else:
                st = self.stmt(s, st, loop)
            full -= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if isinstance(s, ast.If) and isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) and isinstance(s.test.operand, ast.Name) \
                    and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                full.add(s.test.operand.id)
        return st

    def stmt(self, s, st, loop, once=False):
        if st is None:
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.bind({s.name}, st)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind({(x.asname or x.name).split('.')[0] for x in s.names}, st)
        if isinstance(s, ast.Return):
            self.read(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.read(s.exc, st)
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            loop['c' if isinstance(s, ast.Continue) else 'b'].append(st)
            return None
        if isinstance(s, ast.Assert):
            st = self.read(s.test, st)
            self.read(s.msg, st)
            return None if isinstance(s.test, ast.Constant) and not s.test.value else self.given(s.test, st, True)
        if isinstance(s, ast.If):
            st = self.read(s.test, st)
            a = self.block(s.body, self.given(s.test, st, True), loop)
            b = self.block(s.orelse, self.given(s.test, st, False), loop)
            out = self.meet(a, b)
            k = self.cond(s.test)
            if k is not None and a is not None and b is not None:
                cs = dict(out[1])
                for truth, side in ((True, a), (False, b)):
                    kk = (k[0], k[1] == truth, k[2])
                    # the names of the test are still what they were
                    if not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in k[2] for x in ast.walk(s)):
                        cs[kk] = side[0] | st[1].get(kk, frozenset())
                out = out[0], cs
            return out
        if isinstance(s, (ast.For, ast.While)):
            isfor = isinstance(s, ast.For)
            st = self.read(s.iter if isfor else s.test, st)
            inner = {'b': [], 'c': []}
            again = self.bind({x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}, (frozenset(), st[1]))
            e = self.store(s.target, (st[0], again[1])) if isfor else (st[0], again[1])
            end = self.block(s.body, e, inner)
            for c in inner['c']:
                end = self.meet(end, c)
            forever = not isfor and isinstance(s.test, ast.Constant) and bool(s.test.value)
            out = None if forever else self.block(s.orelse, end if once else (st[0], again[1]), loop)
            for b in inner['b']:
                out = self.meet(out, b)
            return out
        if isinstance(s, ast.Try):
            e = self.block(s.body, st, loop)
            out = self.block(s.orelse, e, loop)
            known = (st[0], {})
            for h in s.handlers:
                out = self.meet(out, self.block(h.body, self.bind({h.name} if h.name else set(), known), loop))
            if s.finalbody:
                f = self.block(s.finalbody, known, loop)
                out = None if f is None or out is None else (out[0] | f[0], out[1])
            return out
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.store(i.optional_vars, st)
            return self.block(s.body, st, loop)
        if isinstance(s, ast.Assign):
            st = self.read(s.value, st)
            for t in s.targets:
                st = self.store(t, self.read(t, st))
            return st
        if isinstance(s, ast.AnnAssign):
            st = self.read(s.value, st)
            return self.store(s.target, st) if s.value is not None else st
        if isinstance(s, ast.AugAssign):
            st = self.read(s.value, st)
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            else:
                st = self.read(s.target, st)
            return self.store(s.target, st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st = (st[0] - {t.id}, {})
                else:
                    st = self.read(t, st)
            return st
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                st = self.read(e, st)
        return st


@rule('P20', 'bound', 'a variable of a function is bound on every path to where it is read')
def bound(ctx):
    n = 0
    for f in ctx.repo.all_functions(nested=True):
        ctx.functions.add(f.key)
        b = Bound(f.node)
        n += b.reads
        for line, nm in sorted(set(b.found)):
            ctx.ob(False, '%s:%s' % (f.qual, nm), '%s:%d (%s)' % (f.module.relpath, line, f.qual), 'variable %s may not be bound here' % nm)
        ctx.ob(True, f.qual, f.where, '')
    ctx.need(1000, n, 'variables read')


# ------------------------------------------------------------------ attributes
def all_attributes(ctx):
    """Names given to an attribute anywhere in the library: of an object, a class, a module."""
    if not hasattr(ctx, '_attrs'):
        out = set()
        for m in ctx.repo.modules.values():
            out |= module_names(ctx.repo, m) or set()
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
                elif isinstance(x, ast.ClassDef):
                    for s in ast.walk(x):
                        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            out.add(s.name)
                        elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                            out.add(s.id)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                    out.add(x.value)            # setattr, a dictionary of attributes, the property of a schema
        ctx._attrs = out
    return ctx._attrs


@rule('P20', 'attributes', 'an attribute private to the library, or of an object of a class all its own, which it reads is one which it sets')
def attributes(ctx):
    known, n = all_attributes(ctx), 0
    for m in ctx.repo.modules.values():
        tree = live(m)[0]
        skip = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.ClassDef):
                # a class may have what a class from elsewhere gives it
                c = m.classes.get(x.name)
                if c is None or any(not isinstance(k, ClassInfo) for k in ctx.repo.mro(c)) or foreign_base(ctx, c):
                    skip |= {id(y) for y in ast.walk(x)}
            elif isinstance(x, ast.Try) and any(h.type is None or 'AttributeError' in ast.unparse(h.type) for h in x.handlers):
                skip |= {id(y) for b in x.body for y in ast.walk(b)}
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and not x.attr.startswith('__') and (
                    x.attr.startswith('_') or id(x) not in skip and isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls') and not hasattr(object, x.attr)):
                root = x.value
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name):
                    src = m.imports.get(root.id, (None, None))[0]
                    if src and src.split('.')[0] != ctx.repo.PKG or id(x) in skip and root.id in ('self', 'cls'):
                        continue
                n += 1
                ctx.ob(x.attr in known or id(x) in skip, '%s:%s' % (m.name, x.attr), '%s:%d' % (m.relpath, x.lineno), 'nothing sets an attribute %s' % x.attr)
    ctx.need(300, n, 'private attributes')
    own_attributes(ctx)


def own_attributes(ctx):
    """An object of a class which is made of classes of the library only has what these classes, and who has one, set."""
    R = ctx.repo
    classes = [c for m in R.modules.values() for c in m.classes.values()]
    line = {c.key: [k for k in R.mro(c)] for c in classes}

    def closed(c):
        return all(isinstance(k, ClassInfo) and not k.node.keywords and not k.node.decorator_list and all(
            isinstance(b, ast.Name) and (b.id == 'object' or isinstance(R.resolve_name(k.module, b.id), ClassInfo)) for b in k.node.bases) for k in line[c.key])

    def given(tree, mine):
        out = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and (mine or not (isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls'))):
                out.add(x.attr)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier() and mine:
                out.add(x.value)
            elif isinstance(x, ast.Call) and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and ast.unparse(x.func).split('.')[-1] in ('setattr', '__setattr__'):
                out.add(x.args[1].value)
            elif mine and isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif mine and isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
        return out
    outside = set().union(*(given(m.tree, False) for m in R.modules.values()))
    # names given to a class by a loop: setattr(cls, name, ...)
    loops = {ast.unparse(x.args[0]) for m in R.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr'
             and x.args and isinstance(x.args[0], ast.Name)}
    n = 0
    for c in classes:
        family = {k.key: k for d in classes if any(isinstance(k, ClassInfo) and k.key == c.key for k in line[d.key]) for k in line[d.key] if isinstance(k, ClassInfo)}
        family[c.key] = c
        if not all(closed(k) and k.name not in loops for k in family.values()):
            continue
        have = outside.union(*(given(k.node, True) for k in family.values()))
        for f in c.node.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args or any('static' in ast.unparse(d) for d in f.decorator_list):
                continue
            me = f.args.args[0].arg
            if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) or isinstance(x, ast.arg) and x.arg == me and x is not f.args.args[0] for x in ast.walk(f)):
                continue
            caught = {id(y) for x in ast.walk(f) if isinstance(x, ast.Try) and any(h.type is None or 'AttributeError' in ast.unparse(h.type) for h in x.handlers) for b in x.body for y in ast.walk(b)}
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me and not x.attr.startswith('__') and id(x) not in caught:
                    n += 1
                    ctx.ob(x.attr in have or hasattr(object, x.attr), '%s.%s:%s' % (c.key, f.name, x.attr), '%s:%d' % (c.module.relpath, x.lineno), 'nothing sets an attribute %s of %s' % (x.attr, c.name))
    ctx.need(40, n, 'attributes of classes all their own')


def foreign_base(ctx, c):
    """A base of the class, or of one of its bases, is from elsewhere (object and the containers of Python have nothing private)."""
    for k in ctx.repo.mro(c):
        for b in k.node.bases:
            if isinstance(b, ast.Call):
                bs = [a for a in b.args]
            else:
                bs = [b]
            for q in bs:
                nm = ast.unparse(q)
                if nm.split('.')[-1] in ('object', 'dict', 'list', 'tuple', 'str', 'int', 'Exception', 'type', 'Mapping', 'MutableMapping', 'Sequence', 'MutableSequence',
                                         'ABC', 'ABCMeta', 'Enum'):
                    continue
                if isinstance(q, ast.Name) and isinstance(ctx.repo.resolve_name(k.module, q.id), ClassInfo):
                    continue
                return True
    return False
