"""P11: a type is built once per address; a construction which fails leaves nothing behind."""
import ast
import copy

from ..core import rule
from ..lib import *
from .p04_conversion import forwards_kwargs

A0, A1 = ('arg', 0), ('arg', 1)
B = 'TypeBuilder.build'
REG, ONC = ('attr', A0, '_registry'), ('attr', A0, '_on_construction')


@rule('P11', 'known', 'An address which is built gives what was built, one under construction gives a proxy of it, a boolean schema its constant.')
def p11_known(ctx):
    def is_known(t):
        return match('A0.contains(A1)', t) is not None or match('A1 in A0._registry', t) is not None
    given = lambda k: lambda t: t[0] == 'cmp' and t[1] == 'is' and t[3] == ('const', k) and (
        t[2] == ('arg', 2) or callname(t[2]) == 'resolve_uri')

    def spec(e):
        if e['known']:
            return {'ret': ['A0.get(A1)', 'A0._registry[A1]', 'A0._registry.get(A1)'], 'never': ['A0._registry[A1] := '], 'raises': False}
        if e['building']:
            return {'ret': 'TypeProxy.build(A1)', 'never': ['A0._registry[A1] := ', 'A0._on_construction[A1] := ']}
        if e['true']:
            return {'ret': '_True()', 'never': ['A0._on_construction[A1] := ']}
        if e['false']:
            return {'ret': '_False()', 'never': ['A0._on_construction[A1] := ']}
        return None
    behave(ctx, B, {'known': is_known, 'building': 'A1 in A0._on_construction', 'true': given('True'), 'false': given('False')}, spec,
           'building a type', valid=lambda e: not (e['true'] and e['false']))
    behave(ctx, 'TypeBuilder.load', {'known': is_known, 'building': 'A1 in A0._on_construction'},
           lambda e: {'ret': ['A0._registry[A1]', 'A0.get(A1)'], 'never': ['A0.build(...)']} if e['known'] else
           {'ret': ['TypeProxy.build(A1)', 'A0.build(A1)'], 'never': ['A0._registry[A1] := ']} if e['building'] else
           {'must': ['A0.build(A1)'], 'ret': ['A0._registry[A1]', 'A0.build(A1)', 'A0.get(A1)']}, 'loading a type')


def built(t):
    t = strip(t)
    return t


@rule('P11', 'traces', 'Whatever the way a construction ends, its address is not left under construction; it is registered if and only if it was built.')
def p11_traces(ctx):
    f = ctx.func(B)
    n = r = 0
    for p in ctx.paths(f, implicit=True):
        marks = [i for i, e in enumerate(p.events) if e.kind == 'store' and strip(e.term) == ('sub', ONC, A1)]
        if not marks:
            stored = [e for e in p.stores() if strip(e.term)[0] == 'sub' and strip(e.term)[1] == REG]
            ctx.ob(not stored or p.normal, f.qual, f.where, 'a type is registered which was not built')
            continue
        gone = [i for i, e in enumerate(p.events) if e.kind == 'del' and strip(e.term) == ('sub', ONC, A1) or
                e.kind == 'mutate' and strip(e.term) == ONC and callname(e.value) == 'pop' and e.value[2] and strip(e.value[2][0]) == A1]
        w = p.events[-1].where if p.events else f.where
        ctx.ob(bool(gone) and gone[-1] > marks[-1], f.qual, w, 'the address is left under construction when %s' % (
            'the construction raises' if not p.normal else 'the construction succeeds'))
        reg = [e for e in p.stores() if strip(e.term)[0] == 'sub' and strip(e.term)[1] == REG]
        v = [x for x in strip(p.events[marks[0]].value)[1]] if strip(p.events[marks[0]].value)[0] == 'tuple' else []
        ctx.ob(len(v) == 3 and v[1] == ('arg', 3) and (v[2] == ('arg', 4) or v[2][0] in ('dict', 'new')), f.qual, p.events[marks[0]].where,
               'what is under construction is remembered as %s' % show(strip(p.events[marks[0]].value))[:80])
        for e in reg:
            ctx.ob(strip(e.term)[2] == A1, f.qual, e.where, 'the type is registered at %s' % show(strip(e.term)[2])[:80])
        if p.normal:
            n += 1
            ctx.ob(len(reg) > 0 and strip(reg[-1].value) == strip(p.returns), f.qual, f.where, 'what is returned is not what is registered')
            before = [e for e in p.events[:marks[0]] if e.kind == 'call' and callname(e.term) in ('build', 'load')]
            ctx.ob(any(e.kind == 'call' and callname(e.term) == 'register_ns' and strip(e.term)[2][:1] == (A1,) for e in p.events), f.qual, f.where,
                   'the namespace of the type is not registered')
            ctx.ob(not before, f.qual, f.where, 'something is built before the address is marked under construction')
        else:
            r += 1
            late = [i for i, e in enumerate(p.events) if e in reg]
            ok = all(any(e.kind == 'call' and callname(e.term) == 'register_ns' for e in p.events[i:]) for i in late)
            ctx.ob(not reg or ok, f.qual, w, 'a type is registered though its construction raises')
    ctx.need(4, n, 'ways of building')
    ctx.need(4, r, 'ways of failing')


@rule('P11', 'kinds', 'Object schemas build objects, array schemas arrays, references what they refer to with what is told next to them, '
      'the others types; from the same schema, bases and attributes.')
def p11_kinds(ctx):
    def schema(t):
        return t == ('arg', 2) or callname(t) == 'resolve_uri' and match('resolve_uri(A1)', t) is not None

    def kind(word):
        def f(t):
            if t[0] == 'cmp' and t[1] in ('in', 'eq'):
                a, b = (t[2], t[3]) if t[1] == 'in' else (t[2], t[3])
                if const(word) not in (a, b):
                    return False
                o = b if a == const(word) else a
                return callname(o) == 'get' and schema(receiver(o)) and o[2][0] == const('type') or \
                    o[0] == 'sub' and schema(o[1]) and o[2] == const('type')
            return False
        return f

    def ref(t):
        return t[0] == 'cmp' and t[1] == 'in' and t[2] == const('$ref') and schema(t[3])
    f = ctx.func(B)
    seen = set()
    for p in ctx.paths(f):
        if not p.normal or not any(e.kind == 'store' and strip(e.term) == ('sub', ONC, A1) for e in p.events):
            continue
        fs = allfacts(p)
        env = assign(fs, {'ref': ref, 'object': kind('object'), 'array': kind('array')})
        t = unold(p.returns)
        if env.get('ref'):
            base = [x for x in subterms(t) if callname(x) == 'load']
            ok = bool(base) and strip(receiver(base[0])) == A0 and any(callname(x) == 'scope' and x[2][1:] == (A1,) for x in subterms(base[0]))
            src = [x for x in subterms(base[0]) if x == const('$ref')] if base else []
            ctx.ob(ok and src, f.qual, f.where, 'a reference builds %s' % show(t)[:100])
            ext = callname(t) == 'extend_type'
            rest = any(x[0] == 'call' and callname(x) in ('copy', 'dict', 'deepcopy') or x[0] == 'comp' for y, b in fs for x in [y] if b is ext)
            if ext:
                ctx.ob(t[2][:1] == (A1,) and bool(t[3]), f.qual, f.where, 'what is told next to a reference is lost')
            else:
                empty = any(not b and (schema(y) or any(schema(z) for z in subterms(y))) and y[0] in ('call', 'new', 'arg', 'comp', 'dict') or b and y[0] == 'empty' for y, b in fs)
                ctx.ob(empty, f.qual, f.where, 'what is told next to a reference is not looked at')
            pops = [e for e in p.events if e.kind in ('mutate', 'del') and schema(strip(e.term) if e.kind == 'mutate' else strip(e.term)[1])]
            ctx.ob(not pops, f.qual, pops[0].where if pops else f.where, 'the schema given is changed')
            seen.add('ref%d' % ext)
            continue
        want = 'ObjectProtocol' if env.get('object') else 'ArrayProtocol' if env.get('array') else 'TypeProtocol'
        if not env.get('object') and env.get('array') is None:
            ctx.ob('object' in env, f.qual, f.where, 'the type of the schema is not looked at')
        t2 = t
        if want == 'TypeProtocol':
            ctx.ob(t[0] == 'call' and t[1][0] == 'call', f.qual, f.where, 'a plain type is %s' % show(t)[:80])
            t2 = t[1] if t[0] == 'call' and t[1][0] == 'call' else t
        ok = callname(t2) == 'build' and receiver(t2) == ('name', want)
        ctx.ob(ok, f.qual, f.where, 'with %s, %s is built' % (', '.join('%s %s' % x for x in sorted(env.items())), show(t2)[:80]))
        if ok:
            ar = list(t2[2]) + [v for _, v in t2[3]]
            none = [b for x, b in fs if x == ('cmp', 'is', ('arg', 2), NONE)]
            fit = ar[1:2] == [('arg', 2)] if none == [False] else len(ar) > 1 and callname(ar[1]) == 'resolve_uri' if none == [True] else False
            good = len(ar) >= 2 and ar[0] == A1 and fit and ('arg', 3) in ar and any(x == ('arg', 4) or contains(x, ('arg', 4)) or x[0] in ('dict', 'new') for x in ar[2:])
            ctx.ob(good, f.qual, f.where, 'it is built from %s' % show(t2)[:120])
        seen.add(want)
    ctx.ob({'ref0', 'ref1', 'ObjectProtocol', 'ArrayProtocol', 'TypeProtocol'} <= seen, f.qual, f.where, 'only %s are built' % sorted(seen))


@rule('P11', 'writers', 'Only building, registering, and defining a class anew change what is built.')
def p11_writers(ctx):
    allowed = {ctx.func(x).module.relpath for x in (B, 'SchemaMetaclass.__new__', 'Registry.register')}
    n = 0
    for f in functions(ctx.repo):
        for x in own_nodes(f):
            t = None
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
                for y in ts:
                    y = y.value if isinstance(y, ast.Subscript) else y
                    if isinstance(y, ast.Attribute) and y.attr in ('_on_construction', '_type_registry') or \
                            isinstance(y, ast.Attribute) and y.attr == '_registry' and isinstance(y.value, ast.Name) and y.value.id in ('type_builder', 'TypeBuilder'):
                        t = y
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Attribute) \
                    and (x.func.value.attr in ('_on_construction', '_type_registry') or x.func.value.attr == '_registry' and
                         isinstance(x.func.value.value, ast.Name) and x.func.value.value.id in ('type_builder', 'TypeBuilder')):
                t = x.func.value
            if t is not None:
                n += 1
                ctx.ob(f.module.relpath in allowed, f.qual,
                       '%s:%d' % (f.module.relpath, x.lineno), '%s changes %s' % (f.qual, ast.unparse(t)))
    ctx.need(4, n, 'changes of the registries')


def own_bases(t):
    """A term in which the bases without ObjectProtocol, which has no schema and is the base of all classes, are the bases."""
    if not isinstance(t, tuple):
        return t
    t = tuple(own_bases(x) for x in t)
    if len(t) == 4 and t[:1] == ('call',) and t[1] in (('name', 'tuple'), ('name', 'list')) and t[2] == (('arg', 2),) and not t[3]:
        return ('arg', 2)
    if len(t) == 5 and t[0] == 'comp' and t[1] in ('gen', 'list') and t[3] == (('arg', 2),) and t[2] == (('item', ('arg', 2)),) and t[4] and all(
            c[0] == 'cmp' and c[1] in ('is', 'eq') and not b and {strip(c[2]), strip(c[3])} == {('item', ('arg', 2)), ('name', 'ObjectProtocol')}
            for c, b in t[4]):
        return ('arg', 2)
    return t


def with_own_bases(p):
    pairs = lambda fs: type(fs)((own_bases(strip(t)), b) for t, b in fs)
    evs = []
    for e in p.events:
        e = copy.copy(e)
        e.term, e.value, e.facts = own_bases(strip(e.term)), e.value if e.value is None else own_bases(strip(e.value)), pairs(e.facts)
        evs.append(e)
    q = copy.copy(p)
    q.events, q.facts = evs, pairs(p.facts)
    q.outcome = (p.outcome[0], own_bases(strip(p.outcome[1])) if isinstance(p.outcome[1], tuple) else p.outcome[1])
    return q


@rule('P11', 'classes', 'Defining a class builds it anew from its own schema, or the one at its address, with its bases and its attributes.')
def p11_classes(ctx):
    f = ctx.func('SchemaMetaclass.__new__')
    # ObjectProtocol may be told as a base: it has neither a schema nor what building gives to classes, it is not looked at as one of them
    apart = 0
    for g in (f, ctx.func('ObjectProtocol.build')):
        apart += sum(isinstance(x, ast.Compare) and any(isinstance(y, ast.Name) and y.id == 'ObjectProtocol' for y in [x.left] + x.comparators)
                     and isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for x in own_nodes(g))
    ctx.ob(apart > 0, f.qual, f.where, 'ObjectProtocol told as a base is taken for a class made of a schema')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        p = with_own_bases(p)
        t = strip(p.returns)
        ok = callname(t) == 'build' and receiver(t)[-1] == 'type_builder'
        ctx.ob(ok, f.qual, f.where, 'defining a class returns %s' % show(t)[:80])
        if not ok:
            continue
        n += 1
        t = unold(t)
        ar = list(t[2]) + [v for _, v in t[3]]
        fs = [(unold(x), b) for x, b in allfacts(p)]
        rest = ar[2:]
        ctx.ob(('arg', 2) in rest, f.qual, f.where, 'the class is built without its bases')
        ctx.ob(any(x == ('arg', 3) or x[0] == 'call' and callname(x) in ('dict', 'copy') and contains(x, ('arg', 3)) or x[0] == 'new' for x in rest),
               f.qual, f.where, 'the class is built without its attributes')
        # its address
        ID = ('call', ('attr', ('arg', 3), 'get'), (const('_id'),), ())
        named = [b for x, b in fs if x == ID or x == ('cmp', 'is', ID, NONE)]
        nm = [b for x, b in fs if x == ID] + [not b for x, b in fs if x == ('cmp', 'is', ID, NONE)]
        i = ar[0]
        ok = i == ID if nm and nm[0] else i == A1 if nm else callname(i) == 'get' and i[2] == (const('_id'), A1)
        ctx.ob(ok, f.qual, f.where, 'the class is built at %s' % show(i)[:60])
        # what was there
        known = [b for x, b in fs if x[0] == 'cmp' and x[1] == 'in' and '_registry' in show(x[3])] + \
                [b for x, b in fs if callname(x) == 'contains']
        dels = [k for k, e in enumerate(p.events) if e.kind == 'del' and '_registry' in show(e.term) or
                e.kind == 'mutate' and '_registry' in show(e.term) and callname(e.value) == 'pop' or
                e.kind == 'call' and callname(e.term) == 'unregister']
        calls = [k for k, e in enumerate(p.events) if e.kind == 'call' and callname(e.term) == 'build']
        ctx.ob(known == [False] or bool(dels) and dels[0] < calls[0], f.qual, f.where, 'what was built before at the address is not given up')
        # its schema
        sch = unold(ar[1]) if len(ar) > 1 else NONE
        SCH = [x for x in subterms(sch) if callname(x) == 'get' and receiver(x) == ('arg', 3) and x[2][:1] == (const('_schema'),)]
        RES = [x for x in subterms(sch) if callname(x) == 'resolve_uri' and x[2][:1] in ((ID,), (i,))]
        own = [b for x, b in fs if callname(x) == 'get' and strip(receiver(x)) == ('arg', 3) and x[2][:1] == (const('_schema'),)]
        if own and own[0]:
            ctx.ob(bool(SCH) and not RES, f.qual, f.where, 'the schema of the class is not used')
        elif own and nm and nm[0]:
            ctx.ob(bool(RES), f.qual, f.where, 'the schema at the address of the class is not used')
        else:
            ctx.ob(bool(own) and (bool(nm) or bool(SCH)), f.qual, f.where, 'the schema of the class is not looked at')
        # its ancestors: all of its bases which have an address
        if not any(t == ('arg', 2) and not b for t, b in fs) and own and (own[0] or nm and not nm[0]):
            over = [x for t in [unold(e.value) for e in p.events if e.value] + [unold(e.term) for e in p.events] + [t_ for t_, _ in fs] + ar
                    for x in subterms(t) if x[0] == 'attr' and x[2] == '_id' and x[1][0] in ('item', 'sub')]
            ctx.ob(bool(over) and all(x[1][:2] == ('item', ('arg', 2)) for x in over), f.qual, f.where, 'the bases of a class are not all those it extends')
            for t in [unold(e.value) for e in p.events if e.value] + [unold(e.term) for e in p.events] + ar:
                for x in subterms(t):
                    if x[0] == 'comp' and any(contains(e, y) for e in x[2] for y in over):
                        for c, b in x[4]:
                            ctx.ob(callname(c) == 'hasattr' and b or c[0] == 'cmp' and c[1] == 'in' and not b and c[2] in over, f.qual, f.where,
                                   'a base is only extended when %s' % show(c)[:80])
        sets = [e for e in p.events if e.kind in ('mutate', 'store', 'call')]
        typed = any(const('type') in list(subterms(e.value if e.kind == 'mutate' else e.term)) and const('object') in list(
            subterms(e.value if e.kind != 'call' and e.value is not None else e.term)) for e in sets)
        ctx.ob(typed, f.qual, f.where, 'the schema of a class is not that of an object unless told')
        if not RES:
            hb = [b for x, b in fs if x == ('arg', 2)]
            ext = any('extends' in show(y, -9) and any(x[0] == 'attr' and x[2] == '_id' and x[1][0] == 'item' for x in subterms(y))
                      for y in [sch] + [strip(e.value) for e in p.events if e.value is not None])
            empty = any(x[0] == 'empty' and b for x, b in fs) or any(x[0] == 'loop' for x, b in fs)
            ctx.ob(ext or empty or hb == [False], f.qual, f.where, 'the class does not extend the schemas of its bases')
        ctx.ob(any(e.kind == 'store' and strip(e.term) == ('sub', ('arg', 3), const('_clsname')) and strip(e.value) == A1 for e in p.events) or
               const('_clsname') in list(subterms(t)), f.qual, f.where, 'the name of the class is not told')
    ctx.need(2, n, 'ways of defining a class')


@rule('P11', 'proxy', 'A proxy stands for the type built at its address: every question is answered by it.')
def p11_proxy(ctx):
    f = ctx.func('TypeProxy.build')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        ms = [e for e in p.stores() if strip(e.term)[0] == 'sub' and strip(e.term)[2] == const('_proxyUri')]
        kw_ = any(const('_proxyUri') in subterms(p.returns) for _ in (0,))
        ctx.ob(any(strip(e.value) == A0 for e in ms) or kw_, f.qual, f.where, 'the address of a proxy is not the one asked for')
        ctx.ob(callname(p.returns) == 'type' and ('name', 'TypeProxy') in [y for y in subterms(p.returns)], f.qual, f.where, 'what is returned is no proxy')
    ctx.need(1, n, 'ways of making a proxy')
    behave(ctx, 'TypeProxy.proxy_type', {}, lambda e: {'ret': ['type_builder.get(A0._proxyUri)', 'type_builder._registry.get(A0._proxyUri)',
                                                                'type_builder.get(A0._proxyUri, None)']}, 'the type of a proxy')
    c = next(c for m in ctx.repo.modules.values() for c in m.classes.values() if c.name == 'TypeProxy')
    k = 0
    for name in ('check', 'convert', 'serialize', 'inputs', 'validate', 'evaluate', 'has_default'):
        m = c.methods.get(name)
        if m is None:
            ctx.ob(False, 'TypeProxy.%s' % name, c.key, 'a proxy does not hand over %s' % name)
            continue
        k += 1
        for p in ctx.paths(m):
            ts = [strip(p.returns)] if p.normal else []
            for t in ts:
                P = 'A0.proxy_type()'
                if match(P, t) is not None and any(match(P, x) is not None and not b for x, b in allfacts(p)) or t in (NONE, FALSE):
                    continue
                ok = callname(t) == name and match(P, receiver(t)) is not None and forwards_kwargs(t)
                ok = ok and (A1 in t[2] or any(v == A1 for _, v in t[3]))
                ctx.ob(ok, m.qual, m.where, 'a proxy answers %s by %s' % (name, show(t)[:80]))
    ctx.need(6, k, 'methods of a proxy')
