"""P17: a name is that of the nearest object which has it."""
import ast

from ..core import rule
from ..lib import *

A0, A1, A2, A3 = [('arg', i) for i in range(4)]
KW, ARGS = ('kwargs',), ('args',)


def kw(t, name):
    t = strip(t)
    for k, v in t[3] if t[0] == 'call' else ():
        if k == name:
            return v
    return None


def fn(ctx, key):
    for f in functions(ctx.repo):
        if f.key == 'ngoschema.' + key:
            return f
    from ..model import AnalysisError
    raise AnalysisError('%s not found' % key)


CHAIN = 'utils.utils:ReadOnlyChainMap.'
CTX = 'utils.utils:Context.'
PCTX = 'protocols.context:Context.'


def seq(terms):
    """The sequence of what is given in order, sums, tuples and stars opened."""
    out = []
    for t in terms:
        t = unold(strip(t))
        if t[0] == 'new':
            t = unold(strip(t[-1]))
        if t[0] == 'star':
            out += seq([t[1]])
        elif t[0] in ('tuple', 'list') and len(t) > 1 and isinstance(t[1], tuple):
            out += seq(t[1])
        elif t[0] == 'bin' and t[1] == 'Add':
            out += seq([t[2], t[3]])
        elif callname(t) in ('list', 'tuple') and len(t[2]) == 1:
            out += seq(t[2])
        elif t[0] == 'comp' and t[1] in ('list', 'gen', 'tuple') and not t[4] and len(t[3]) == 1 and t[2] and unold(strip(t[2][0])) == ('item', unold(strip(t[3][0]))):
            out += seq(t[3])
        else:
            out.append(t)
    return out


def is_maps(t):
    return unold(strip(t)) in (('attr', A0, '_maps'), ('attr', A0, 'maps'))


def is_reversed(t):
    t = unold(strip(t))
    return callname(t) == 'reversed' and is_maps(t[2][0]) or t[0] == 'sub' and is_maps(t[1]) and '-1' in show(t[2])


def is_item_rev(t):
    return any(x[0] == 'item' and is_reversed(x[1]) for x in subterms(t))


def item_of_maps(t):
    t = unold(strip(t))
    return t[0] == 'item' and is_maps(t[1])


@rule('P17', 'nearest', 'A chain of mappings gives the value of the first one which has the name.')
def p17_nearest(ctx):
    f = fn(ctx, CHAIN + '__getitem__')
    n = m = 0
    for p in ctx.paths(f):
        r = p.outcome[1]
        if p.normal:
            n += 1
            r = unold(strip(r))
            firsts = r[2] if callname(r) == 'next' else ()
            if firsts and unold(strip(firsts[0]))[0] == 'comp':
                c = unold(strip(firsts[0]))
                ctx.ob(any(is_maps(g) for g in c[3]) and any(x[0] == 'sub' and item_of_maps(x[1]) and x[2] == A1 for x in c[2]), f.qual, f.where, 'the value of a name is %s' % show(r)[:100])
                continue
            ctx.ob(r[0] == 'sub' and item_of_maps(r[1]) and r[2] == A1, f.qual, f.where, 'the value of a name is %s' % show(r)[:100])
        elif p.outcome[0] == 'raise':
            m += 1
            ctx.ob(callname(strip(r)) == 'KeyError', f.qual, f.where, 'a name which no mapping has raises %s' % show(r)[:60])
            ctx.ob(any(t[0] in ('empty', 'looped') and is_maps(t[1]) and b for t, b in allfacts(p)), f.qual, f.where, 'a name is refused before all the mappings are looked up')
    ctx.need(1, n, 'values of a name')
    ctx.need(1, m, 'names refused')
    for p in ctx.paths(f, loop2=True):
        loads = [e for e in p.events if e.kind == 'load']
        if p.normal and len(loads) > 1:
            # the first one which answers is the last one asked
            ctx.ob(any(t[0] == 'caught' or t[0] == 'cmp' for t, b in allfacts(p)), f.qual, f.where, 'another mapping is asked after one which has the name')
    for p in ctx.paths(f):
        for t, b in allfacts(p):
            t = unold(strip(t))
            v = t[2] if t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE else t
            ctx.ob(not ((v[0] == 'sub' or callname(v) == 'get') and item_of_maps(v[1] if v[0] == 'sub' else receiver(v))), f.qual, f.where,
                   'a mapping which has the name is passed over for its value')
    f = fn(ctx, CHAIN + '__contains__')
    called = {y.attr if isinstance(y, ast.Attribute) else getattr(y, 'id', None) for x in own_nodes(f) if isinstance(x, ast.Call) for y in [x.func]}
    helpers = [g for g in ctx.repo.all_functions(nested=True) if g.module is f.module and g.key not in ctx.baseline and g.name in called]
    cmp_in = [x for g in [f] + helpers for x in own_nodes(g) if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops)]
    params = {a.arg for g in [f] + helpers for a in g.node.args.args[(1 if g is f else 0):]}
    for p in ctx.paths(f):
        r = unold(strip(p.returns)) if p.normal else ()
        names = {callname(x) for x in subterms(r)} if r else set()
        ctx.ob('all' not in names, f.qual, f.where, 'a name must be in all the mappings')
    ctx.ob(all(isinstance(o, ast.In) for x in cmp_in for o in x.ops) or any(isinstance(x, ast.Not) for g in [f] + helpers for x in own_nodes(g)), f.qual, f.where, 'a name which a mapping does not have is found')
    ctx.ob(bool(cmp_in) and all(isinstance(x.left, ast.Name) and x.left.id in params for x in cmp_in), f.qual, f.where, 'the name is not looked for in the mappings')
    f = fn(ctx, CHAIN + 'merged')
    n = 0
    for p in ctx.paths(f):
        sts = [e for e in p.events if e.kind == 'store' or e.kind == 'mutate' and callname(e.value) in ('setdefault', 'update')]
        for e in sts:
            n += 1
            if e.kind == 'mutate':
                v = unold(strip(e.value))
                if callname(v) == 'setdefault':
                    loops = [t[1] for t, b in allfacts(p) if t[0] in ('loop', 'looped')]
                    ctx.ob(not any(is_reversed(x) for x in loops) and unold(strip(v[2][1]))[0] == 'sub', f.qual, e.where, 'the last mapping wins')
                else:
                    src = unold(strip(v[2][0]))
                    while callname(src) in ('dict',):
                        src = unold(strip(src[2][0]))
                    ctx.ob(src[0] == 'item' and is_reversed(src[1]), f.qual, e.where, 'the last mapping wins')
                continue
            t, v = unold(strip(e.term)), unold(strip(e.value))
            ok = t[0] == 'sub' and v[0] == 'sub' and t[2] == v[2] and (item_of_maps(v[1]) or v[1][0] == 'item' and is_reversed(v[1][1]))
            ctx.ob(ok, f.qual, e.where, 'the value of a name is %s' % show(v)[:80])
            if not ok:
                continue
            rev = not item_of_maps(v[1])
            key = strip(e.term)[2]
            guard = any(x[0] == 'cmp' and x[1] == 'in' and not b and unold(x[2]) == unold(key) for x, b in e.facts) or any(
                callname(x) == 'difference' or x[0] == 'bin' and x[1] == 'Sub' for x in subterms(unold(key)))
            ctx.ob(guard != rev, f.qual, e.where, 'the value of a name is that of the last mapping')
            whole = next((x for x in subterms(unold(key)) if callname(x) == 'difference'), None)
            if whole is not None:
                ctx.ob(any(callname(x) == 'keys' or x[0] == 'item' for x in subterms(whole[1][1])) and item_of_maps(v[1]), f.qual, e.where, 'names are left out')
    ctx.need(1, n, 'values merged')
    for p in ctx.paths(f):
        if p.normal:
            r = unold(strip(p.returns))
            ctx.ob(r[0] in ('dict', 'comp') or callname(r) in ('dict', 'OrderedDict'), f.qual, f.where, 'the names merged are %s' % show(r)[:60])
    for name, rev in (('__iter__', False), ('reversed_keys', True)):
        f = fn(ctx, CHAIN + name)
        n = 0
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind != 'yield':
                    continue
                t = unold(strip(e.term))
                if any(x[0] == 'item' and unold(strip(x[1])) == ('dict', ()) for x in subterms(t)):
                    continue
                n += 1
                over = [x[1] for x in subterms(t) if x[0] == 'item']
                ok = any(is_reversed(x) for x in over) if rev else any(is_maps(x) for x in over)
                ctx.ob(ok, f.qual, e.where, 'the names given are %s' % show(t)[:80])
                ctx.ob(any(x[0] == 'cmp' and x[1] == 'in' and not b and unold(x[2]) == t for x, b in e.facts), f.qual, e.where, 'a name is given several times')
                ctx.ob(any(x.kind == 'mutate' and any(unold(y) == t for y in subterms(strip(x.value))) for x in p.events), f.qual, e.where, 'a name is given several times')
            if p.normal and not p.events and any(callname(unold(strip(x))) in ('iter', 'fromkeys') for x in [p.returns]):
                n += 1
        ctx.need(1, n, 'names given by %s' % name)
        for p in ctx.paths(f):
            new = any(t[0] == 'cmp' and t[1] == 'in' and not b and t[2][0] == 'item' and ('dict', ()) not in list(subterms(t[2])) for t, b in allfacts(p))
            if new:
                ctx.ob(any(e.kind == 'yield' for e in p.events), f.qual, f.where, 'a name is left out')
            if rev:
                nested = next((b for t, b in allfacts(p) if callname(t) == 'isinstance' and t[2][1] == ('name', 'ReadOnlyChainMap')), None)
                calls = any(e.kind == 'call' and callname(e.term) in ('reversed_keys', 'reversed') and is_item_rev(unold(strip(e.term))) for e in p.events)
                ctx.ob(nested is None or nested == calls, f.qual, f.where, 'a chain in the chain is not given in reverse')
    f = fn(ctx, CHAIN + '__init__')
    for p in ctx.paths(f):
        ctx.ob(any(e.kind == 'store' and unold(strip(e.term)) == ('attr', A0, '_maps') for e in p.events), f.qual, f.where, 'the mappings are not kept')
        for e in p.events:
            if e.kind == 'store' and unold(strip(e.term)) == ('attr', A0, '_maps'):
                ctx.ob(seq([e.value]) == [ARGS], f.qual, e.where, 'the mappings are %s' % show(e.value)[:80])
    f = fn(ctx, CHAIN + 'maps_flattened')
    n = 0
    for p in ctx.paths(f):
        chain = [b for t, b in allfacts(p) if callname(t) == 'isinstance' and t[2][1] == ('name', 'ReadOnlyChainMap')]
        for e in p.events:
            if e.kind == 'mutate':
                n += 1
                v = unold(strip(e.value))
                ctx.ob(p.normal and unold(strip(p.returns))[0] not in ('const',), f.qual, f.where, 'the mappings are not given')
                if callname(v) == 'extend' or v[0] == 'bin':
                    ctx.ob(any(x[0] == 'attr' and x[2] == 'maps_flattened' and item_of_maps(x[1]) for x in subterms(v)) and chain == [True], f.qual, e.where, 'a chain is opened as %s' % show(v)[:80])
                elif callname(v) == 'append':
                    ctx.ob(item_of_maps(v[2][0]) and chain == [False], f.qual, e.where, 'the mappings are %s' % show(v)[:80])
                else:
                    ctx.ob(False, f.qual, e.where, 'the mappings are not in their order')
    ctx.need(1, n, 'mappings flattened')
    f = fn(ctx, CHAIN + '__len__')
    for p in ctx.paths(f):
        if p.normal:
            r = unold(strip(p.returns))
            ctx.ob(callname(r) == 'len' or callname(r) == 'sum', f.qual, f.where, 'the number of names is %s' % show(r)[:60])
            ctx.ob(any(callname(x) in ('set', 'union', 'merged') or x == ('attr', A0, 'merged') or x[0] == 'comp' and x[1] == 'set' or callname(x) in ('iter', 'list') for x in subterms(r)), f.qual, f.where,
                   'a name of several mappings is counted several times')


@rule('P17', 'chained', 'A context made from another one has its own names first, those it is given then, and those of the other one last.')
def p17_chained(ctx):
    f = fn(ctx, CTX + '__init__')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'call' and callname(e.term) == '__init__':
                n += 1
                a = [x for x in unold(strip(e.term))[2] if x != A0]
                ctx.ob(seq(a) == [KW, ARGS], f.qual, e.where, 'a context looks names up in %s' % ', '.join(show(x)[:40] for x in seq(a)))
    ctx.need(1, n, 'contexts made')
    f = fn(ctx, CTX + 'create_child')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        r = unold(strip(p.returns))
        fs = dict((t, b) for t, b in allfacts(p))
        par, loc = fs.get(ARGS), fs.get(KW)
        n += 1
        if callname(r) in ('Context', 'type') or r[0] == 'call':
            s = seq(r[2])
            extra = [x for k, x in r[3] or () if k is None or k == '**'] if isinstance(r[3], tuple) else []
            s = [x for x in s if x != A0]
            want = [[KW, ARGS, ('attr', A0, '_maps')]]
            if loc is False:
                want.append([ARGS, ('attr', A0, '_maps')])
            if par is False:
                want.append([KW, ('attr', A0, '_maps')])
            s = [('attr', A0, '_maps') if x == ('attr', A0, 'maps') else x for x in s]
            if KW not in s and KW in [unold(x) for x in extra]:
                s = [KW] + s
            ctx.ob(s in want, f.qual, f.where, 'the child of a context looks names up in %s' % ', '.join(show(x)[:40] for x in s))
        else:
            ctx.ob(r == A0 and par is False and loc is False, f.qual, f.where, 'the child of a context is %s' % show(r)[:60])
    ctx.need(2, n, 'children of a context')
    f = fn(ctx, CHAIN + 'new_child')
    for p in ctx.paths(f):
        if p.normal:
            r = unold(strip(p.returns))
            s = [('attr', A0, '_maps') if x == ('attr', A0, 'maps') else x for x in seq(r[2])] if r[0] == 'call' else []
            ctx.ob(s == [KW, ARGS, ('attr', A0, '_maps')], f.qual, f.where, 'the child of a chain looks names up in %s' % ', '.join(show(x)[:40] for x in s))
    for name, ok in (('prepend', lambda v: callname(v) == 'insert' and v[2][0] in (('const', 0), ('const', '0')) and v[2][1] == A1), ('append', lambda v: callname(v) == 'append' and v[2][0] == A1)):
        f = fn(ctx, CTX + name)
        n = 0
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'mutate':
                    n += 1
                    ctx.ob(ok(unold(strip(e.value))), f.qual, e.where, 'the mapping is not put at its place: %s' % show(e.value)[:80])
                elif e.kind == 'store':
                    n += 1
                    s = seq([e.value])
                    maps = [x for x in s if is_maps(x)]
                    ctx.ob(len(s) == 2 and len(maps) == 1 and s[0 if name == 'prepend' else 1] == A1, f.qual, e.where, 'the mapping is not put at its place: %s' % show(e.value)[:80])
        ctx.need(1, n, 'mappings put by %s' % name)
    f = fn(ctx, PCTX + '_create_context')
    n = 0
    ctx.ob(any(p.normal and any(x == ('arg', 'context') for x in subterms(unold(strip(p.returns)))) for p in ctx.paths(f)), f.qual, f.where, 'the context given is ignored')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = unold(strip(p.returns))
        given = next((not b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and unold(t)[2] == ('arg', 'context')), None)
        ctx.ob(not any(unold(t) == ('arg', 'context') for t, b in allfacts(p)), f.qual, f.where, 'an empty context is not that which is given')
        ctx.ob(given is not None, f.qual, f.where, 'whether a context is given is not looked at')
        ctx.ob(callname(r) == 'create_child' and seq(r[2]) == [ARGS] and any(unold(x) == KW for k, x in r[3]), f.qual, f.where, 'a context is made as %s' % show(r)[:100])
        if callname(r) != 'create_child':
            continue
        base = unold(r[1][1])
        ctx.ob(base == ('attr', A0, '_context') if given is False else base[0] == 'arg' and base != A0 if given else True, f.qual, f.where,
               'the context is made from %s' % show(base)[:60])
        ss = [e for e in p.events if e.kind == 'store' and unold(strip(e.term))[-1] == '_session']
        ctx.ob(any(any((x[0] == 'attr' and x[2] == '_session' or x[0] == 'getattr' and x[2] == '_session') and base in list(subterms(x)) for x in subterms(unold(strip(e.value)))) for e in ss),
               f.qual, f.where, 'the session of a context is not that of the one it is made from')
    ctx.need(2, n, 'contexts made from another')
    f = fn(ctx, PCTX + 'set_context')
    n = 0
    for p in ctx.paths(f):
        st = {unold(strip(e.term)): unold(strip(e.value)) for e in p.events if e.kind == 'store'}
        ctx.ob(st.get(('attr', A0, '_context')) == A1, f.qual, f.where, 'the context set is %s' % show(st.get(('attr', A0, '_context'), ('const', None))))
        given = next((b for t, b in allfacts(p) if t == A2), None)
        if given is None:
            given = next((not b for t, b in allfacts(p) if t == ('cmp', 'is', A2, NONE)), None)
        s = next((v for t, v in st.items() if t[-1] == '_session'), None)
        n += 1
        if given:
            ctx.ob(s == A2, f.qual, f.where, 'the session given is ignored')
        else:
            ctx.ob(given is False or s is not None and contains(s, A2), f.qual, f.where, 'the session given is ignored')
            ctx.ob(s is None or s[0] == 'attr' and s[2] == '_session' or s[0] == 'getattr' or callname(s) == 'getattr' or given is None, f.qual, f.where, 'the session of the context is lost')
    ctx.need(1, n, 'ways of setting a context')
    f = fn(ctx, PCTX + 'create_context')
    for p in ctx.paths(f):
        if p.normal:
            r = unold(strip(p.returns))
            ctx.ob(callname(r) == '_create_context' and seq([x for x in r[2] if x != A0]) == [ARGS] and any(unold(x) == KW for k, x in r[3]), f.qual, f.where, 'a context is made as %s' % show(r)[:100])
    n = sum(any(e.kind == 'store' and unold(strip(e.term))[-1] == '_session' and unold(strip(e.value)) == A2 for e in p.events) for p in ctx.paths(fn(ctx, PCTX + 'set_context')))
    ctx.ob(n > 0, fn(ctx, PCTX + 'set_context').qual, fn(ctx, PCTX + 'set_context').where, 'the session given is ignored')
    f = fn(ctx, PCTX + '__init__')
    for p in ctx.paths(f):
        given = next((not b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'is' and t[2] == A1), None)
        ctx.ob(not any(t == A1 for t, b in allfacts(p)), f.qual, f.where, 'an empty context is not that which is given')
        for e in p.events:
            if e.kind == 'store' and unold(strip(e.term)) == ('attr', A0, '_context'):
                v = unold(strip(e.value))
                ctx.ob(A1 in flat_alts(v) or v == A1 if given is not False else True, f.qual, e.where, 'the context given is ignored')


def first_of(t):
    """(classes, excluded, order, default) of next(m for m in context.maps if isinstance(m, class) and m is not x)."""
    t = unold(strip(t))
    if callname(t) != 'next' or not t[2] or unold(strip(t[2][0]))[0] != 'comp':
        return None
    c = unold(strip(t[2][0]))
    cls = [x[2][1] for x, b in c[4] if callname(x) == 'isinstance' and b]
    neg = [x for x, b in c[4] if callname(x) == 'isinstance' and not b]
    same = [(x, b) for x, b in c[4] if x[0] == 'cmp' and (x[1] == 'is' or x[1] == 'eq' and all(callname(y) == 'id' for y in x[2:4])) and not b]
    exc = [y[2][0] if callname(y) == 'id' else y for x, b in same for y in x[2:4] if (y[2][0] if callname(y) == 'id' else y)[0] != 'item']
    other = [x for x, b in c[4] if not (callname(x) == 'isinstance' and b or (x, b) in same)]
    item = bool(c[2]) and unold(strip(c[2][0]))[0] == 'item'
    return cls, exc, c[3][0], unold(t[2][1]) if len(t[2]) > 1 else None, neg, other, item


@rule('P17', 'parents', 'The parent of an object is the nearest object it is made in, its root the farthest, and its namespaces those of the nearest manager.')
def p17_parents(ctx):
    n = 0
    for key, attr, cls, exclude in (
            ('contexts.object_protocol_context:ObjectProtocolContext.set_context', '_parent', 'ObjectProtocol', True),
            ('contexts.instance_context:InstanceContext.set_context', '_parentInstance', 'Instance', True),
            ('contexts.ns_manager_context:find_ns_mgr', None, 'NamespaceManager', False)):
        f = fn(ctx, key)
        for p in ctx.paths(f):
            if attr:
                vals = [(e.value, e.where) for e in p.events if e.kind == 'store' and unold(strip(e.term)) == ('attr', A0, attr)]
                ctx.ob(len(vals) >= 1, f.qual, f.where, '%s is not set' % attr)
            else:
                vals = [(p.returns, f.where)] if p.normal else []
            ctx.ob(bool(vals), f.qual, f.where, 'no manager is given')
            for v, where in vals[-1:]:
                n += 1
                got = first_of(v)
                if got is None:
                    # a loop written out: the item is tested and the loop left
                    w = unold(strip(v))
                    ok = w[0] == 'item' and any(callname(t) == 'isinstance' and t[2][0] == w and t[2][1] == ('name', cls) and b for t, b in allfacts(p)) or w == (('const', 'None') if attr else ('name', 'default_ns_manager')) and any(t[0] in ('empty', 'looped') for t, b in allfacts(p))
                    ok = ok and (not exclude or w[0] != 'item' or any(t[0] == 'cmp' and t[1] == 'is' and A0 in t[2:4] and not b for t, b in allfacts(p)))
                    ok = ok and (w[0] != 'item' or not is_reversed_of(w[1]))
                    ctx.ob(ok, f.qual, where, '%s is %s' % (attr or 'the manager', show(w)[:100]))
                    continue
                cl, exc, src, dft, neg, other, item = got
                src = unold(strip(src))
                ctx.ob(cl == [('name', cls)] and not neg and not other and item, f.qual, where, '%s is the first one which is %s' % (attr or 'the manager', ', '.join(map(show, cl))))
                ctx.ob((A0 in exc) == exclude, f.qual, where, 'an object is its own parent' if exclude else 'a manager is left out')
                base = ('attr', A0, '_context') if attr else A0
                ctx.ob(src in (('attr', base, 'maps'), ('attr', base, '_maps'), ('attr', A1, 'maps')), f.qual, where, '%s is looked for in %s' % (attr or 'the manager', show(src)[:60]))
                ctx.ob(dft in (('const', 'None'), ('const', None)) if attr else dft == ('name', 'default_ns_manager'), f.qual, where, 'without any, %s is %s' % (attr or 'the manager', show(dft) if dft else 'an error'))
    ctx.need(3, n, 'parents and managers')
    # each one sets the context of the one before
    m = 0
    for key in ('contexts.object_protocol_context:ObjectProtocolContext.set_context', 'contexts.instance_context:InstanceContext.set_context',
                'contexts.ns_manager_context:NsManagerContext.set_context', 'contexts.entity_context:EntityContext.set_context'):
        f = fn(ctx, key)
        for p in ctx.paths(f):
            m += 1
            calls = [unold(strip(e.term)) for e in p.events if e.kind == 'call' and callname(e.term) == 'set_context']
            ctx.ob(len(calls) == 1 and calls[0][2][:2] in ((A0, A1), (A1,)) and any(unold(x) == KW for k, x in calls[0][3]), f.qual, f.where, 'the context, or the options given with it, is not set')
            uses = [i for i, e in enumerate(p.events) if any(x == ('attr', A0, '_context') for y in (e.term, e.value) if y is not None for x in subterms(unold(strip(y))))]
            sets = [i for i, e in enumerate(p.events) if e.kind == 'call' and callname(e.term) == 'set_context']
            ctx.ob(not uses or not sets or sets[0] < uses[0], f.qual, f.where, 'the context of before is used')
    ctx.need(4, m, 'ways of setting a context')
    # what is found is a property of those which declare it
    for key, prop, attr in (('contexts.object_protocol_context:ObjectProtocolContext.set_context', '_parent', '_parent'),
                            ('contexts.instance_context:InstanceContext.set_context', '_parentInstance', '_parentInstance'),
                            ('contexts.ns_manager_context:NsManagerContext.set_context', '_nsMgr', '_ns_mgr')):
        f = fn(ctx, key)
        n = 0
        for p in ctx.paths(f):
            dec = next((b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'in' and t[2] == ('const', repr(prop))), None)
            put = [unold(strip(e.term))[2] for e in p.events if e.kind == 'call' and callname(e.term) == '_set_dataValidated']
            st = [unold(strip(e.value)) for e in p.events if e.kind == 'store' and unold(strip(e.term)) == ('attr', A0, attr)]
            if dec is None:
                ctx.ob(not put, f.qual, f.where, 'a property is set which may not be declared')
                continue
            n += 1
            ok = len(put) == 1 and len(put[0]) == 2 and put[0][0] == ('const', repr(prop)) and put[0][1] in [('attr', A0, attr)] + st
            ctx.ob(ok if dec else not put, f.qual, f.where, 'the property %s is %s' % (prop, ', '.join(show(x)[:40] for y in put for x in y) if put else 'not set'))
        ctx.need(2, n, 'properties set by %s' % f.qual)
    f = fn(ctx, 'contexts.ns_manager_context:NsManagerContext.set_context')
    for p in ctx.paths(f):
        st = {unold(strip(e.term)): unold(strip(e.value)) for e in p.events if e.kind == 'store'}
        v = st.get(('attr', A0, '_ns_mgr'))
        ctx.ob(v is not None and (callname(v) == 'find_ns_mgr' and v[2][0] in (('attr', A0, '_context'), A1) or first_of(v) is not None), f.qual, f.where, 'the namespaces of an object are %s' % (show(v)[:60] if v else 'not set'))
    f = fn(ctx, 'contexts.object_protocol_context:ObjectProtocolContext._root')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = unold(strip(p.returns))
        has = next((b for t, b in allfacts(p) if t == ('attr', A0, '_parent')), None)
        if has is None:
            none = next((b for t, b in allfacts(p) if t[0] == 'cmp' and ('attr', A0, '_parent') in t[2:4]), None)
            has = None if none is None else not none
        if has:
            up = [x for x, b in allfacts(p) for y in subterms(x) if y == ('attr', ('attr', A0, '_parent'), '_parent')]
            ctx.ob(not any(t == ('attr', A0, '_parent') for t, b in allfacts(p)), f.qual, f.where, 'an empty parent has no root')
            ctx.ob(r == ('attr', ('attr', A0, '_parent'), '_root') or bool(up) and r[0] == 'attr' and r[2] == '_parent', f.qual, f.where,
                   'the root of an object which has a parent is %s' % show(r)[:60])
        elif has is False:
            ctx.ob(r == A0, f.qual, f.where, 'the root of an object without parent is %s' % show(r)[:60])
    ctx.need(2, n, 'roots')


@rule('P17', 'found', 'The instance of a class found in a context is the nearest one (the farthest in reverse) which is not the one excluded.')
def p17_found(ctx):
    f = fn(ctx, CTX + 'find_instance')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        rev = next((b for t, b in allfacts(p) if t == ('arg', 4)), None)
        got = first_of(p.returns)
        if got is None:
            w = unold(strip(p.returns))
            ctx.ob(w == A2 or w[0] == 'item', f.qual, f.where, 'the instance found is %s' % show(w)[:80])
            continue
        n += 1
        cl, exc, src, dft, neg, other, item = got
        src = unold(strip(src))
        ctx.ob(cl == [A1] and item and not neg and not other, f.qual, f.where, 'the instance found is one of %s' % ', '.join(map(show, cl + neg + other)))
        ctx.ob(exc == [('arg', 3)], f.qual, f.where, 'an object equal to the one excluded is left out' if not exc else 'the one excluded is %s' % show(exc[0]))
        ctx.ob(dft == A2, f.qual, f.where, 'without any, the instance found is %s' % (show(dft) if dft else 'an error'))
        back = callname(src) == 'reversed' or src[0] == 'sub' and '-1' in show(src[2])
        ctx.ob(rev is not None and rev == back and any(is_maps(x) for x in subterms(src)), f.qual, f.where, 'the instance is looked for in %s' % show(src)[:80])
    ctx.need(1, n, 'ways of finding an instance')


def is_reversed_of(t):
    return callname(unold(strip(t))) == 'reversed'


@rule('P17', 'own', 'An object looks names up in itself first, then in what it is made in.')
def p17_own(ctx):
    f = fn(ctx, 'protocols.object_protocol:ObjectProtocol._create_context')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = unold(strip(p.returns))
        ctx.ob(callname(r) == '_create_context', f.qual, f.where, 'the context of an object is %s' % show(r)[:80])
        if callname(r) != '_create_context':
            continue
        s = seq(r[2])
        if s and s[0] == A0:
            s = s[1:]
        kws = [unold(x) for k, x in r[3]]
        this = next((i for i, x in enumerate(s) if x[0] == 'dict' and any(k[1] == A0 and k[0] == ('const', "'this'") for k in x[1] if isinstance(k, tuple) and len(k) == 2)), None)
        me = s.index(A0) if A0 in s else None
        data = s.index(('attr', A0, '_dataValidated')) if ('attr', A0, '_dataValidated') in s else None
        ext = s.index(ARGS) if ARGS in s else None
        ctx.ob(this is not None, f.qual, f.where, '`this` is not the object itself')
        ctx.ob(me is not None and ext is not None and me < ext and (data is None or data < ext) and (this is None or this < ext), f.qual, f.where, 'names are not looked up in the object first')
        ctx.ob(data is not None and me is not None and data < me, f.qual, f.where, 'the values known are not used first')
        ctx.ob(KW in kws, f.qual, f.where, 'the context given is ignored')
    ctx.need(1, n, 'contexts of objects')
    f = fn(ctx, 'protocols.collection_protocol:CollectionProtocol.__init__')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        ev = [(i, unold(strip(e.term)), e) for i, e in enumerate(p.events) if e.kind == 'call']
        mk = [(i, t) for i, t, e in ev if callname(t) == '_create_context']
        st = [(i, t) for i, t, e in ev if callname(t) == 'set_context']
        tc = [i for i, t, e in ev if callname(t) == '_touch']
        use = [i for i, t, e in ev if callname(t) in ('_collType', '_validate')]
        cx = [a for a in (kw(t, 'context') for i, t in mk)]
        ctx.ob(len(mk) == 1 and cx and cx[0] is not None and cx[0][0] == 'arg', f.qual, f.where, 'the context of a collection is not made from the one given')
        ctx.ob(len(st) == 1 and mk and mk[0][1] in st[0][1][2] + tuple(x for k, x in st[0][1][3]), f.qual, f.where, 'the context set is not the one made')
        ctx.ob(bool(st) and kw(st[0][1], 'session') is not None and unold(kw(st[0][1], 'session'))[0] == 'arg' if st else False, f.qual, f.where, 'the session given is ignored')
        ctx.ob(bool(st and mk and tc) and max(tc) < mk[0][0] < st[0][0] and all(st[0][0] < i for i in use), f.qual, f.where, 'the context is not made from the final stores, or set after it is used')
        for i, t, e in ev:
            if callname(t) == '_validate':
                c = kw(t, 'context')
                ctx.ob(c is None or mk and unold(c) == mk[0][1], f.qual, e.where, 'the collection is validated in another context')
    ctx.need(1, n, 'ways of making a collection')
    for key, callee in (('protocols.collection_protocol:CollectionProtocol._items_evaluate', None), ('protocols.collection_protocol:CollectionProtocol._validate', '_validate')):
        f = fn(ctx, key)
        n = 0
        for p in ctx.paths(f):
            sd = [unold(strip(e.value)) for e in p.events if e.kind == 'mutate' and callname(e.value) == 'setdefault']
            stc = [unold(strip(e.value)) for e in p.events if e.kind == 'store' and unold(strip(e.term))[0] == 'sub' and unold(strip(e.term))[2] == ('const', 'context')]
            ok = any(x[2] == (('const', 'context'), ('attr', A0, '_context')) or len(x[2]) == 2 and x[2][0][1] in ("'context'", 'context') and x[2][1] == ('attr', A0, '_context') for x in sd) or \
                ('attr', A0, '_context') in stc
            n += 1
            ctx.ob(ok, f.qual, f.where, 'items are evaluated in another context than the collection')
        ctx.need(1, n, 'ways through %s' % f.qual)
    f = fn(ctx, 'protocols.collection_protocol:CollectionProtocol.items_serialize')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'call' and callname(e.term) == '_serialize':
                n += 1
                t = unold(strip(e.term))
                c = kw(t, 'context')
                ctx.ob(c is not None and (callname(c) == 'getattr' or c[0] in ('attr', 'getattr')), f.qual, e.where, 'an item is serialized in another context than its own')
    ctx.need(1, n, 'items serialized')


@rule('P17', 'literals', 'An expression or a template is evaluated in the context given, else in that of the type.')
def p17_literals(ctx):
    for key, dft in (('types.strings:Expr._convert', ('attr', A0, '_context')), ('types.strings:Pattern._convert', None)):
        f = fn(ctx, key)
        n = 0
        ctx.ob(any(A2 in list(subterms(unold(strip(e.term)))) for p in ctx.paths(f) for e in p.events if e.kind == 'call' and p.normal), f.qual, f.where, 'the context given is ignored')
        for p in ctx.paths(f):
            given = next((b for t, b in allfacts(p) if t == A2), None)
            for e in p.events:
                t = unold(strip(e.term))
                if e.kind != 'call' or not (callname(t) == 'eval' or t[1][0] == 'call' and callname(t[1]) == 'TemplatedString'):
                    continue
                n += 1
                names = t[2][1] if callname(t) == 'eval' and len(t[2]) > 1 else t[2][0] if callname(t) != 'eval' and t[2] else ('const', None)
                src = [x for x in subterms(names)]
                if given:
                    ctx.ob(A2 in src, f.qual, e.where, 'the context given is ignored: %s' % show(names)[:60])
                elif given is False and dft is not None:
                    ctx.ob(dft in src, f.qual, e.where, 'names are looked up in %s' % show(names)[:60])
                elif given is False:
                    ctx.ob(any(callname(x) in ('create_context', '_create_context') or x == ('attr', A0, '_context') for x in src), f.qual, e.where, 'names are looked up in %s' % show(names)[:60])
                what = unold(strip(t[2][0])) if callname(t) == 'eval' else t[1][2][0] if t[1][2] else ('const', None)
                if callname(t) == 'eval':
                    ctx.ob(what[0] == 'sub' and what[1] in (A1, ('call', ('name', 'str'), (A1,), ())) and what[2] == ('slice', ('const', '1'), ('const', 'None'), ('const', 'None')) or
                           callname(what) in ('removeprefix', 'lstrip', 'strip'), f.qual, e.where, 'what is evaluated is %s' % show(what)[:60])
                else:
                    ctx.ob(what == A1, f.qual, e.where, 'the template is %s' % show(what)[:60])
                ctx.ob(any(x == t for x in subterms(unold(strip(p.returns)))) if p.normal else True, f.qual, e.where, 'what is evaluated is not what is given')
                ctx.ob(any(x[0] == 'attr' and x[2] == 'merged' or callname(x) == 'dict' or x[0] == 'comp' for x in src), f.qual, e.where, 'the context is changed by what is evaluated')
                ev = [unold(strip(x.value)) for x in p.events[:p.events.index(e)] if x.kind in ('mutate', 'store')]
                ctx.ob(not any(x.kind == 'store' and unold(strip(x.term))[0] == 'sub' and 'this' in show(unold(strip(x.term))[2]) for x in p.events), f.qual, e.where, '`this` is not the object of the context')
            if p.normal and not any(e.kind == 'call' and (callname(e.term) == 'eval' or callname(unold(strip(e.term))[1]) == 'TemplatedString') for e in p.events):
                ctx.ob(any(t[0] == 'cmp' and t[1] == 'is' and t[2] == A1 and b for t, b in allfacts(p)), f.qual, f.where, 'a literal is not evaluated')
        ctx.need(2, n, 'evaluations')


MADE = ('types.object:Object.__call__', 'types.array:Array.__call__', 'types.type:Type.__call__', 'protocols.repository:Repository.__call__', 'protocols.loader:Loader.__call__',
        'protocols.loader:Saver.__call__', 'protocols.serializer:Deserializer.__call__', 'protocols.serializer:Serializer.__call__', 'protocols.validator:Validator._validate',
        'protocols.validator:Validator._evaluate')


@rule('P17', 'made', 'What is evaluated without a context is given one, made from that of its type; a context which is given is the one used.')
def p17_made(ctx):
    n = 0
    given = ('cmp', 'in', const('context'), KW)
    for key in MADE:
        f = fn(ctx, key)
        for p in ctx.paths(f):
            fs = [(unold(strip(t)), b) for t, b in allfacts(p)]
            has = [b for t, b in fs if t == given]
            default = any(e.kind == 'call' and callname(e.term) == 'setdefault' and const('context') in unold(strip(e.term))[2] and
                          any(callname(x) == '_create_context' for x in subterms(e.term)) for e in p.events)
            for e in p.events:
                t = unold(strip(e.term)) if e.kind == 'call' else None
                if t is None or not any(unold(v) == KW for k, v in t[3]) or callname(t) in ('_create_context', 'create_context'):
                    continue
                if not any(unold(strip(x)) in (A0, A1) for x in t[2]):
                    continue
                n += 1
                v = kw(t, 'context')
                v = None if v is None else unold(strip(v))
                if v is None:
                    ctx.ob(True in has or default, f.qual, e.where, 'what may have no context is evaluated without one: %s' % show(t)[:80])
                elif callname(v) in ('_create_context', 'create_context'):
                    ctx.ob(False in has and unold(v[1][1]) == A0 and any(unold(x) == KW for k, x in v[3]), f.qual, e.where, 'the context given is not used: %s' % show(v)[:80])
                else:
                    own = v == ('sub', KW, const('context')) or callname(v) in ('get', 'pop') and const('context') in v[2]
                    ctx.ob(own and (True in has or default), f.qual, e.where, 'the context is %s, which may not be given' % show(v)[:80])
    ctx.need(20, n, 'calls made with a context')
