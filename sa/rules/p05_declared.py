"""P05: what the accessors of the shipped classes read is declared, and the properties of their schemas are not hidden."""
import ast
from urllib.parse import urljoin
from ..core import rule
from ..lib import *
from .p18_equality import parts
from .p10_schemas import load_docs, resolve, properties, declared, norm

READ_OF = {'_data', '_dataValidated', '_data_validated'}


def property_schema(docs, schema, uri, name, seen=()):
    """(schema of the property, address) wherever it is declared."""
    s = (schema.get('properties') or {}).get(name)
    if s is not None:
        return s, uri
    for r in list(schema.get('extends') or ()) + ([schema['$ref']] if isinstance(schema.get('$ref'), str) else []):
        ok, x, u = resolve(docs, r, uri)
        if ok and isinstance(x, dict) and (u, r) not in seen:
            found = property_schema(docs, x, u, name, seen + ((u, r),))
            if found:
                return found
    return None


def names_of(docs, s, uri):
    """The names of the properties of what a property holds."""
    if not isinstance(s, dict):
        return set()
    return properties(docs, s, uri)


def declared_by(node):
    """The names which the decorators of an accessor declare."""
    out, known = set(), True
    for d in node.decorator_list:
        if isinstance(d, ast.Call) and (getattr(d.func, 'id', None) or getattr(d.func, 'attr', None)) == 'depend_on_prop':
            for a in d.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    out.add(a.value)
                else:
                    known = False
    return out, known


def is_property(g):
    return any((getattr(d, 'id', None) or getattr(d, 'attr', None)) in ('property', 'memoized_property') for d in g.node.decorator_list)


def reads(ctx, c, g, names, sub, seen=(), depth=0, aliases={}):
    """{(name, of it or None)}: properties of the object which a method reads, what it calls on the same object included."""
    out = set()
    if depth > 5 or g.key in seen or not g.node.args.args:
        return out
    seen = seen + (g.key,)
    me = {g.node.args.args[0].arg}
    # other names of the object and of what it holds
    held = {}
    for x in ast.walk(g.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            if isinstance(x.value, ast.Name) and x.value.id in me:
                me.add(x.targets[0].id)
    up = {}
    for x in ast.walk(g.node):
        for y in ast.iter_child_nodes(x):
            up[y] = x

    def of(x):
        """The property which an expression reads."""
        if isinstance(x, ast.Name):
            return held.get(x.id)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in me and (x.attr in names or x.attr in aliases):
            return aliases.get(x.attr, x.attr)
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value in names:
            v = x.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value in names:
            v = x.func.value
            x = ast.Subscript(value=v, slice=x.args[0])
        else:
            return None
        if isinstance(v, ast.Name) and v.id in me or isinstance(v, ast.Attribute) and v.attr in READ_OF and isinstance(v.value, ast.Name) and v.value.id in me:
            return x.slice.value
        return None
    stored = [x for x in ast.walk(g.node) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)]
    count = {}
    for x in stored:
        count[x.targets[0].id] = count.get(x.targets[0].id, 0) + 1
    for x in stored:
        v = x.value
        if isinstance(v, ast.BoolOp):
            v = v.values[0]
        if count[x.targets[0].id] == 1 and of(v):
            held[x.targets[0].id] = of(v)
    for x in ast.walk(g.node):
        if isinstance(x, ast.Name) or isinstance(getattr(x, 'ctx', None), (ast.Store, ast.Del)):
            continue
        p = of(x)
        if p:
            out.add((p, None))
        if isinstance(x, ast.Attribute):
            q = of(x.value)
            if q and x.attr in sub(q):
                out.add((q, x.attr))
        # the same object, read by another method
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in me and x.attr not in names:
            h = ctx.repo.method(c, x.attr)
            if h is not None and (is_property(h) or isinstance(up.get(x), ast.Call) and up[x].func is x):
                out |= reads(ctx, c, h, names, sub, seen, depth + 1, aliases)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id in me:
            k = ctx.repo.cls(x.func.value.id, optional=True)
            h = ctx.repo.method(k, x.func.attr) if k is not None else None
            if h is not None:
                out |= reads(ctx, c, h, names, sub, seen, depth + 1, aliases)
    return out


def bases_of(ctx, docs, c, s, u, by, seen=()):
    """The classes which a class extends, by its bases or by its schema."""
    out = [b for b in ctx.repo.mro(c) if b is not c]
    for r in list(s.get('extends') or ()) + ([s['$ref']] if isinstance(s.get('$ref'), str) else []):
        ok, x, y = resolve(docs, r, u)
        b = by.get(norm(urljoin(u, r)))
        if b is not None and b not in out:
            out += [z for z in ctx.repo.mro(b) if z not in out]
        if ok and isinstance(x, dict) and (u, r) not in seen:
            out += [z for z in bases_of(ctx, docs, c, x, y, by, seen + ((u, r),)) if z not in out]
    return out


def stored_by(ctx, c, names):
    """{attribute: property} which the accessor of a property writes."""
    out = {}
    for b in ctx.repo.mro(c):
        for m, g in b.methods.items():
            if m.startswith('set_') and m[4:] in names and len(g.node.args.args) == 2:
                me, v = (a.arg for a in g.node.args.args)
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(x.value)):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                out[t.attr] = m[4:]
    return out


def own_classes(ctx, docs):
    for c, uri, where in declared(ctx):
        ok, s, u = resolve(docs, uri, '')
        if ok and isinstance(s, dict):
            yield c, s, u, where


@rule('P05', 'declared', 'What an accessor reads of its object is declared to it, so what it computes is outdated when that changes.')
def p05_declared(ctx):
    docs = load_docs(ctx)
    n = 0
    by = {norm(uri): c for c, uri, where in declared(ctx)}
    for c, s, u, where in own_classes(ctx, docs):
        names = properties(docs, s, u)

        def sub(q, s=s, u=u):
            x = property_schema(docs, s, u, q)
            return names_of(docs, *x) if x else set()
        for m, g in sorted(c.methods.items()):
            if not m.startswith('get_') or m[4:] not in names:
                continue
            own = m[4:]
            says, known = declared_by(g.node)
            for b in bases_of(ctx, docs, c, s, u, by):
                h = b.methods.get(m)
                if h is not None:
                    more, k = declared_by(h.node)
                    says, known = says | more, known and k
            if not known:
                continue
            found = reads(ctx, c, g, names, sub, aliases=stored_by(ctx, c, names))
            for p, of in sorted(found, key=str):
                if p == own:
                    continue
                if of is not None:
                    n += 1
                    ctx.ob('%s.%s' % (p, of) in says, g.qual, g.where, '%s.%s is read and is not declared' % (p, of))
                elif not any(q == p for q, x in found if x):
                    n += 1
                    ctx.ob(any(y == p or y.startswith(p + '.') for y in says), g.qual, g.where, '%s is read and is not declared' % p)
    ctx.need(8, n, 'properties read by accessors')


@rule('P05', 'hidden', 'A property which a class has by its schema is not hidden by an attribute of another of its bases, which is not written when the property is.')
def p05_hidden(ctx):
    docs = load_docs(ctx)
    root = {x.key for x in ctx.repo.mro(ctx.repo.cls('ObjectProtocol'))} | {x.key for x in ctx.repo.mro(ctx.repo.cls('ArrayProtocol'))}
    n = 0
    for c, s, u, where in own_classes(ctx, docs):
        mine = set()
        for b in ctx.repo.mro(c):
            v = b.attrs.get('_id')
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                ok, x, y = resolve(docs, v.value, '')
                mine |= set(x.get('properties') or ()) if ok and isinstance(x, dict) else set()
                continue
            if b.key in root:
                continue
            for p in sorted(properties(docs, s, u) - mine):
                n += 1
                ctx.ob(p not in b.attrs, c.key, '%s:%d' % (b.module.relpath, getattr(b.attrs.get(p), 'lineno', b.node.lineno)),
                       'the property %s is hidden by the attribute of %s' % (p, b.name))
    ctx.need(20, n, 'inherited properties')


def outdated(t):
    """t is the set of the computed items which are not evaluated since what they depend on changed."""
    if t[0] != 'comp' or len(t[4]) != 2:
        return False
    computed = late = False
    for c, b in t[4]:
        c = unold(strip(c))
        if c[0] == 'attr' and c[2] == 'fget' and b or c[0] == 'cmp' and c[1] == 'is' and not b and any(z == NONE for z in c[2:]) and any(z[0] == 'attr' and z[2] == 'fget' for z in c[2:]):
            computed = True
        elif b and (c[0] == 'cmp' and c[1] == 'is' and any(z == NONE for z in c[2:]) and any(y[0] == 'attr' and y[2] == '_dataValidated' for y in subterms(c)) or callname(c) == '_is_outdated'):
            late = True
    return computed and late


@rule('P05', 'shown', 'What represents an object does not show what was computed from values which have changed.')
def p05_shown(ctx):
    n = 0
    for m in ('__repr__', '__str__'):
        f = ctx.func('ObjectProtocol.' + m)
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'call' and callname(e.term) == '_print_order':
                    n += 1
                    x = dict(e.term[3]).get('excludes')
                    ctx.ob(x is not None and any(outdated(y) for y in parts(x)), f.qual, e.where, 'items which are computed and outdated are shown')
    ctx.need(2, n, 'ways to write an object')
    # the keys of an entity are computed: they are read as such, not as they were when they were last asked
    n = 0
    kinds = {c.key for k in ('Entity', 'Repository') for c in [ctx.repo.cls(k)] + list(ctx.repo.subclasses(k))}
    for g in ctx.repo.all_functions(nested=False):
        if g.cls is None or g.cls.key not in kinds:
            continue    # relationships are not finished: none of theirs can be read
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr == '_identityKeys' and g.name not in ('get_identityKeys', '__init__'):
                n += 1
                o = ast.unparse(x.value)
                ctx.ob(any(isinstance(y, ast.Attribute) and y.attr == 'identityKeys' and ast.unparse(y.value) == o and y.lineno <= x.lineno for y in ast.walk(g.node)), g.qual,
                       g.module.relpath + ':%d' % x.lineno, 'the keys of %s are those of the last time they were asked' % o)
