"""P15: nothing changes but what is asked."""
import ast

from ..core import rule
from ..engine import TooComplex, MUTATORS
from ..lib import *

#: what each function is for changing: {function: names of the arguments}
GIVEN = {
    'base_cli': {'environment', 'ctx', 'cli'},
    'memoized_property.__get__': {'obj'}, 'memoized_property.reset': {'obj'},
    'load_schema': {'schemas_store'},
    'RelationshipDescriptor.__set__': {'obj'},
    'PropertyDescriptor.__get__': {'obj'}, 'PropertyDescriptor.__set__': {'obj'}, 'PropertyDescriptor.__delete__': {'obj'},
    'ArrayProtocol.build': {'attrs'}, 'ObjectProtocol.build': {'attrs'}, 'TypeProtocol.build': {'attrs'}, 'SchemaMetaclass.__new__': {'attrs'},
    'UriResolver._expand': {'schema'},          # nothing calls it
    'set_json_defaults': {'kwargs'},
    'Session.bind_repo': {'repo'},
    'PrettyShortPrinter._format': {'context'}, 'PrettyPrinter._format': {'context'},
    'casted_as': {'instance'},                  # put back: P16
    '_DictSAXHandler.push_data': {'item', 'data'},
    'extend_jinja2_globals': set(),
}
#: what is shared and which functions change it
SHARED = {
    'GenericModuleFileLoader.__init__': {'module_loaders_registry'},
    'NamespaceManager.register_ns': {'_builder_ns'},
    'SchemaMetaclass.__new__': {'_registry'},
    'TypeProxy.build': {'_on_construction'},
    'UriResolver.register_doc': {'_doc_store'}, 'UriResolver.unregister_doc': {'_doc_store'},
    'Session.__init__': {'_sessions'},
    'qualname': {'_cache'}, 'extend_jinja2_globals': {'_jinja2_globals'},
    'GenericModuleFileLoader.register': {'_registry'},
    'RelationshipBuilder.build': {'_registry', '_on_construction'}, 'RelationshipBuilder.load': {'_registry'},
    'TypeBuilder.build': {'_registry', '_on_construction'}, 'TypeBuilder.load': {'_registry'}, 'TypeBuilder.register': {'_registry'},
    'Registry.register': {'_registry'}, 'Registry.unregister': {'_registry'},
    'ObjectProtocol._items_type': {'_items_type_cache'}, 'Object._items_type': {'_items_type_cache'}, 'Collection._items_type': {'_items_type_cache'},
    'ObjectProtocol._properties_raw_trans': {'__properties_raw_trans', '_ObjectProtocol__properties_raw_trans'},
}
#: containers of an instance, which is given its own (rule 'own')
OWN = {'_data', '_dataValidated', '_itemsInputs', '_dataAdditional', '_content', '_catalog', '_local', '_registry'}
YAML = 'yaml'


def arg_names(f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return names


def own_arg(f):
    """The object itself, and not something given."""
    names = arg_names(f)
    return f.cls is not None and names and names[0] in ('self', 'cls', 'mcs', 'metacls', 'selfself')


def root(t):
    """(root, attributes) of what is changed."""
    attrs = []
    t = strip(unold(t))
    while t[0] in ('sub', 'attr', 'item', 'getattr', 'index', 'new'):
        if t[0] == 'new':
            t = strip(unold(t[2]))
            continue
        if t[0] in ('attr', 'getattr'):
            attrs.append(t[2] if isinstance(t[2], str) else const_value(t[2])[1])
        if t[0] == 'attr' and t[2] == 'merged':
            return ('fresh',), attrs
        t = strip(unold(t[1]))
    # one of several: d.get(k), x or y
    return t, attrs[::-1]


def roots(t):
    t = strip(unold(t))
    if t[0] == 'alts':
        return [r for x in t[1] for r in roots(x)]
    r, a = root(t)
    if r[0] == 'alts':
        return [(r2, a2 + a) for x in r[1] for r2, a2 in roots(x)]
    if r[0] == 'call' and callname(r) in ('get', 'setdefault') and r[1][0] == 'attr':
        return [(r2, a2 + a) for r2, a2 in roots(r[1][1])]
    if r[0] == 'call' and callname(r) in COPIES and within(t):
        src = r[2][:1] or ((r[1][1],) if r[1][0] == 'attr' else ())
        return [(r2, a2 + a) for x in src for r2, a2 in roots(('item', x))]
    return [(r, a)]


#: what is in a copy is in what it was made from
COPIES = {'dict', 'list', 'tuple', 'set', 'OrderedDict', 'copy', 'sorted', 'reversed', 'enumerate', 'iter'}


def within(t):
    """Is a term something in what it is rooted in?"""
    return strip(unold(t))[0] in ('sub', 'item', 'getattr', 'attr', 'index')


def changing(f):
    """Something in the function may change an object (syntactically)."""
    for n in own_nodes(f):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            return True
        if isinstance(n, ast.Call) and called_name(n) in ('setattr', 'delattr', '__setattr__'):
            return True
        if isinstance(n, ast.AugAssign) or isinstance(n, ast.Global):
            return True
    return False


def simple_effects(f):
    """[(name, what, where)] of a function which has too many paths: the names changed, those assigned from others followed."""
    params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    own = arg_names(f)[0] if own_arg(f) else None
    bound = {}
    for n in own_nodes(f):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    bound.setdefault(t.id, []).append((n.lineno, n.value))

    for n in own_nodes(f):
        if isinstance(n, (ast.For, ast.AsyncFor)):
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    bound.setdefault(t.id, []).append((n.lineno, ast.Subscript(n.iter, ast.Constant(0), ast.Load())))

    def same(v, inner=False):
        """(name, inner) of what a value may be, or be in (inner) when what is changed is in it"""
        if isinstance(v, ast.Name):
            return {(v.id, inner)}
        if isinstance(v, ast.BoolOp):
            return set().union(*[same(x, inner) for x in v.values])
        if isinstance(v, ast.IfExp):
            return same(v.body, inner) | same(v.orelse, inner)
        if isinstance(v, (ast.Attribute, ast.Subscript)):
            return same(v.value, True)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('get', 'setdefault'):
            return same(v.func.value, True)
        if inner and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('items', 'values'):
            return same(v.func.value, True)
        if inner and isinstance(v, ast.Call) and called_name(v) in COPIES:
            # what is in a copy is in what it was made from
            src = v.args[:1] or ([v.func.value] if isinstance(v.func, ast.Attribute) else [])
            return set().union(*[same(x, True) for x in src])
        return set()

    def given(name, line, inner=False, seen=()):
        if name in seen:
            return set()
        before = [(l, v) for l, v in bound.get(name, ()) if l < line]
        if not before:
            return {name} if name in params else set()
        l, v = max(before, key=lambda x: x[0])
        return set().union(*[given(x, l, i, seen + ((name,) if x != name else ())) for x, i in same(v, inner)]) if same(v, inner) else set()
    out = []
    for n in own_nodes(f):
        base = None
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            base = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            base = n.func.value
        if base is None:
            continue
        for x, i in same(base):
            for g in given(x, n.lineno, i):
                if g != own:
                    out.append((g, ast.unparse(n)[:60], '%s:%d' % (f.module.path if hasattr(f.module, 'path') else f.module.name, n.lineno)))
    return out


def branches(f):
    return sum(isinstance(n, (ast.If, ast.For, ast.While, ast.IfExp, ast.BoolOp, ast.Try)) for n in own_nodes(f))


def effects(ctx):
    """(function, event or None, argument, root, attributes, what, where) of everything the package changes."""
    if getattr(ctx, '_effects', None) is None:
        out = []
        for f in functions(ctx.repo):
            if f.key not in ctx.baseline or not changing(f):
                continue
            try:
                ps = ctx.paths(f, max_paths=1500) if branches(f) <= 30 else None
            except TooComplex:
                ps = None
            if ps is None:
                for g, what, where in simple_effects(f):
                    out.append((f, None, g, ('arg', -1), [], what, where))
                continue
            names = arg_names(f)
            for p in ps:
                for e in p.events:
                    if e.kind not in ('store', 'del', 'mutate'):
                        continue
                    t = strip(unold(e.term))
                    if e.kind != 'mutate':
                        if t[0] == 'name':
                            out.append((f, e, None, t, [], show(t), e.where))
                            continue
                        last = [t[2]] if t[0] == 'attr' else []
                        t = t[1] if t[0] in ('sub', 'attr') else t
                    else:
                        last = []
                    for r, attrs in roots(t):
                        a = names[r[1]] if r[0] == 'arg' and 0 <= r[1] < len(names) else None
                        out.append((f, e, a, r, attrs + last, show(strip(unold(e.term)))[:80], e.where))
        ctx._effects = out
    return ctx._effects


def class_containers(ctx):
    """Names of the attributes which a class body, and not each object, is given containers or registries for."""
    out = {}
    for m in ctx.repo.modules.values():
        for c in m.classes.values():
            for s in c.node.body:
                if isinstance(s, ast.Assign) and (isinstance(s.value, (ast.Dict, ast.List, ast.Set)) or isinstance(s.value, ast.Call) and called_name(s.value) in (
                        'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'UriDict', 'deque', 'Registry', 'WeakValueDictionary', 'GenericClassRegistry', 'WeakKeyDictionary')):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            out.setdefault(t.id, set()).add(c.name)
    return out


@rule('P15', 'given', 'What is given to a function is not changed by it: only the functions which are for changing it do.')
def p15_given(ctx):
    n = 0
    for f, e, a, r, attrs, what, where in effects(ctx):
        if r[0] != 'arg' or a is None or own_arg(f) and r[1] == 0:
            continue
        n += 1
        allowed = GIVEN.get(f.qual, ())
        if f.qual in ('base_cli',):
            allowed = set(arg_names(f)[:1])
        ctx.ob(a in allowed, f.qual, where, '%s, which is given, is changed: %s' % (a, what))
    ctx.need(8, n, 'changes of what is given')


@rule('P15', 'chained', 'The mappings which are chained are not changed by the chain or by the contexts made of them.')
def p15_chained(ctx):
    n = 0
    for f, e, a, r, attrs, what, where in effects(ctx):
        if e is None or f.cls is None or f.cls.name not in ('Context', 'ReadOnlyChainMap') and not any(c.name == 'ReadOnlyChainMap' for c in ctx.repo.mro(f.cls)):
            continue
        n += 1
        t = strip(unold(e.term))
        t = t if e.kind == 'mutate' else t[1] if t[0] in ('sub', 'attr') else t
        inside = [x for x in subterms(t) if x[0] in ('item', 'sub') and strip(unold(x[1]))[0] == 'attr' and strip(unold(x[1]))[2] in ('maps', '_maps', 'maps_flattened', '_parents')]
        ctx.ob(not inside, f.qual, where, 'a mapping of the chain is changed: %s' % what)
    ctx.need(2, n, 'changes by chains')


@rule('P15', 'shared', 'What the objects of a class, or all, share is only changed by the functions which declare or register.')
def p15_shared(ctx):
    cc = class_containers(ctx)
    n = 0
    for f, e, a, r, attrs, what, where in effects(ctx):
        if e is None:
            continue
        if r[0] in ('name', 'global'):
            if e.kind != 'mutate' and not attrs and strip(unold(e.term))[0] == 'name' and not any(
                    isinstance(x, ast.Global) and r[1] in x.names for x in own_nodes(f)):
                continue
            if e.kind == 'mutate' and r[1] == 'os':
                continue
            n += 1
            ok = SHARED.get(f.qual, ())
            ctx.ob(r[1] in ok or any(x in ok for x in attrs), f.qual, where, '%s, which is shared, is changed' % what)
        elif r[0] == 'arg' and own_arg(f) and r[1] == 0 or r[0] == 'call' and callname(r) in ('type',) or attrs[:1] == ['__class__']:
            # a container of the class
            at = next((x for x in attrs if x in cc), None)
            t = strip(unold(e.term))
            if attrs[:1] == ['__class__']:
                n += 1
                ctx.ob(any(x in SHARED.get(f.qual, ()) for x in attrs) or f.qual == 'casted_as', f.qual, where, 'the class is changed: %s' % what)
            elif at is not None and not (e.kind == 'store' and t[0] == 'attr' and t[2] == at) and at not in OWN - {'_registry'}:
                n += 1
                ctx.ob(at in SHARED.get(f.qual, ()), f.qual, where, '%s, which is of the class, is changed' % what)
            if f.name not in ('__init__', '__new__') and arg_names(f)[0] in ('cls', 'mcs') and e.kind in ('store', 'del') and attrs and 'staticmethod' not in [
                    ast.unparse(d) for d in f.node.decorator_list]:
                n += 1
                ctx.ob(any(x in SHARED.get(f.qual, ()) for x in attrs), f.qual, where, 'the class is changed: %s' % what)
        elif r[0] == 'attr' or r[0] == 'getattr':
            pass
    ctx.need(8, n, 'changes of what is shared')


#: containers which each object has of its own
EACH = {'_data', '_dataValidated', '_itemsInputs', '_dataAdditional', '_dependencies', '_items_type_cache', '_maps', '_local', '_maps_flattened', '_result_cache'}
GETTERS = {'get', 'setdefault', 'getattr', 'pop', '__getitem__', '__getattribute__', 'next', 'reversed_', 'cast', 'vars'}


def shared_value(t):
    """The part of a value which is an object got from somewhere else (None: it is made here)."""
    t = unold(t)
    if t[0] in ('arg', 'attr', 'item', 'name', 'global', 'index'):
        return t
    if t[0] == 'sub':
        b = unold(t[1])
        if b[0] == 'new':
            b = unold(b[2])
        if b[0] in ('tuple', 'list') and t[2][0] == 'const' and isinstance(t[2][1], int):
            seq = b[1] if isinstance(b[1], tuple) and b[1] and isinstance(b[1][0], tuple) else b[1:]
            return shared_value(seq[t[2][1]]) if t[2][1] < len(seq) else None
        if t[2][0] in ('slice', 'Slice') or b[0] in ('tuple', 'list', 'call'):
            return None
        return shared_value(b)
    if t[0] == 'alts':
        return next((s for s in map(shared_value, t[1]) if s is not None), None)
    if t[0] == 'new':
        return shared_value(t[2]) if unold(t[2])[0] == 'call' else None
    if t[0] == 'call' and callname(t) in GETTERS:
        return t
    return None


@rule('P15', 'own', 'The containers of an object are its own: each one is made for it, and not taken from another object, its class or what it is given.')
def p15_own(ctx):
    n = 0
    seen = set()
    for f, e, a, r, attrs, what, where in effects(ctx):
        if e is None or e.kind != 'store':
            continue
        t = strip(unold(e.term))
        key = t[2] if t[0] == 'attr' else t[2][1] if t[0] == 'sub' and t[2][0] == 'const' else None
        if key not in EACH or (f.key, key, show(e.value)) in seen:
            continue
        seen.add((f.key, key, show(e.value)))
        n += 1
        s = shared_value(e.value)
        ctx.ob(s is None, f.qual, where, '%s is not a container of its own: %s' % (key, show(s)[:80] if s is not None else ''))
    ctx.need(10, n, 'containers given to objects')


def mutable_defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {x.arg for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if container(d)}
    return out | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and container(d)}


def container(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and called_name(d) in (
        'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'deque')


def kept(n):
    """Expressions a value may be (and not be made of)."""
    if isinstance(n, ast.IfExp):
        return kept(n.body) + kept(n.orelse)
    if isinstance(n, ast.BoolOp):
        return [y for x in n.values for y in kept(x)]
    if isinstance(n, (ast.Tuple, ast.List)):
        return [y for x in n.elts for y in kept(x)]
    return [n]


@rule('P15', 'defaults', 'The default value of an argument is not changed, kept or returned by the function: no call changes what the next ones get.')
def p15_defaults(ctx):
    n = 0
    for f in functions(ctx.repo):
        names = mutable_defaults(f)
        if not names:
            continue
        n += 1
        assigned = {}
        for x in own_nodes(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                assigned[x.id] = min(assigned.get(x.id, x.lineno), x.lineno)
        for x in own_nodes(f):
            bad = None
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                if x.target.id in names and assigned.get(x.target.id, x.lineno) >= x.lineno:
                    bad = x.target.id
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name):
                bad = x.func.value.id
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                bad = x.value.id
            elif isinstance(x, (ast.Return, ast.Yield)) and x.value is not None:
                bad = next((k.id for k in kept(x.value) if isinstance(k, ast.Name) and k.id in names), None)
            elif isinstance(x, ast.Assign) and f.qual != 'lazy_format.__init__' and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in x.targets):
                bad = next((k.id for k in kept(x.value) if isinstance(k, ast.Name) and k.id in names), None)
            if bad in names and assigned.get(bad, x.lineno) >= x.lineno:
                ctx.ob(False, f.qual, '%s:%d' % (f.module.relpath, x.lineno), 'the default of %s is changed or kept' % bad)
        ctx.ob(True, f.qual, f.module.relpath, '')
    ctx.need(5, n, 'functions with such a default')


#: what is remembered from a call to the next: only what depends on nothing else than the arguments
REMEMBERED = {'NamespaceManager._uri_to_cname', 'get_jinja2_variables', 'memoized_method.decorator.wrapped_func.cached_method'}


@rule('P15', 'remembered', 'Only functions whose result depends on their arguments alone remember it, and what they return is not changed by their callers.')
def p15_remembered(ctx):
    n = 0
    for f in functions(ctx.repo):
        for d in f.node.decorator_list:
            name = ast.unparse(d).split('(')[0].split('.')[-1]
            if 'cache' not in name and 'memoiz' not in name:
                continue
            n += 1
            ctx.ob(f.name in {x.split('.')[-1] for x in REMEMBERED} or f.key not in ctx.baseline, f.qual, '%s:%d' % (f.module.relpath, d.lineno),
                   'what it returns is remembered (%s)' % ast.unparse(d))
    ctx.need(2, n, 'remembered results')
    m = 0
    for f in functions(ctx.repo):
        bound = set()
        for x in own_nodes(f):
            if isinstance(x, ast.Call) and called_name(x) == 'get_jinja2_variables':
                m += 1
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and called_name(x.value) == 'get_jinja2_variables':
                bound |= {t.id for t in x.targets if isinstance(t, ast.Name)}
            bad = isinstance(x, (ast.Return, ast.Yield)) and isinstance(x.value, ast.Call) and called_name(x.value) == 'get_jinja2_variables' and f.key in ctx.baseline
            ctx.ob(not bad, f.qual, '%s:%d' % (f.module.relpath, getattr(x, 'lineno', 0)), 'what is remembered is returned as it is') if bad else None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                b = x.func.value
                if isinstance(b, ast.Call) and called_name(b) == 'get_jinja2_variables' or isinstance(b, ast.Name) and b.id in bound:
                    ctx.ob(False, f.qual, '%s:%d' % (f.module.relpath, x.lineno), 'what is remembered is changed')
    ctx.need(1, m, 'uses of what is remembered')


CHANGERS = {
    'os': {'chdir', 'putenv', 'unsetenv', 'umask', 'remove', 'unlink', 'rename', 'replace', 'makedirs', 'mkdir', 'rmdir', 'removedirs', 'system', 'kill', '_exit', 'abort', 'fork',
           'execv', 'chmod', 'chown', 'setuid', 'nice'},
    'shutil': {'rmtree', 'move', 'copy', 'copyfile', 'copytree'},
    'sys': {'exit', 'setrecursionlimit', 'settrace', 'setprofile', 'setswitchinterval'},
    'decimal': {'setcontext'}, 'locale': {'setlocale'}, 'random': {'seed'}, 'signal': {'signal', 'alarm'}, 'warnings': {'filterwarnings', 'simplefilter', 'resetwarnings'},
    'logging': {'basicConfig', 'disable', 'setLoggerClass', 'addLevelName', 'captureWarnings'}, 'socket': {'setdefaulttimeout'}, 'gc': {'disable', 'enable', 'freeze'},
    'time': {'tzset'}, 'threading': {'settrace', 'setprofile', 'stack_size'}, 'codecs': {'register', 'register_error'},
}
STATE = {'os.environ', 'sys.path', 'sys.modules', 'sys.meta_path', 'sys.path_hooks', 'sys.stdout', 'sys.stderr', 'sys.argv', 'builtins', '__builtins__'}


def allowed_process(f, name):
    q = f.qual
    if name == 'chdir':
        return q == 'working_directory'
    if name == 'makedirs':
        return 'file_repositories' in f.module.relpath or 'file_loader' in f.module.relpath
    if name in ('remove', 'unlink'):
        return 'models/files' in f.module.relpath
    return False


@rule('P15', 'process', 'The state of the process (its directory, environment, import path, decimal and locale settings, signals) is not changed.')
def p15_process(ctx):
    n = 0
    by_name = {}
    for f in functions(ctx.repo):
        by_name.setdefault(f.name, []).append(f)
    callers = {}
    for f in functions(ctx.repo):
        for x in own_nodes(f):
            if isinstance(x, ast.Call) and called_name(x) in by_name:
                callers.setdefault(called_name(x), set()).add(f)

    def accountable(f, seen=()):
        if f.key in ctx.baseline or f in seen:
            return [f]
        return [y for c in callers.get(f.name, ()) for y in accountable(c, seen + (f,))] or [f]
    for f in functions(ctx.repo):
        n += 1
        imported = {}
        for x in ast.walk(f.module.tree):
            if isinstance(x, ast.ImportFrom) and x.module in CHANGERS:
                for a in x.names:
                    imported[a.asname or a.name] = x.module
        for x in own_nodes(f):
            bad = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in CHANGERS.get(x.func.value.id, ()):
                bad = x.func.attr
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in CHANGERS.get(imported.get(x.func.id), ()):
                bad = x.func.id
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and ast.unparse(x.func.value) in STATE:
                bad = ast.unparse(x.func.value)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x.value) in STATE:
                bad = ast.unparse(x.value)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and (
                    ast.unparse(x) in STATE or ast.unparse(x.value) in STATE or isinstance(x.value, ast.Call) and called_name(x.value) == 'getcontext'):
                bad = ast.unparse(x)
            if bad is None:
                continue
            for g in accountable(f):
                ctx.ob(allowed_process(g, bad) or g.qual == 'main', g.qual, '%s:%d' % (f.module.relpath, x.lineno), 'the state of the process is changed: %s' % bad)
    ctx.need(100, n, 'functions')
