"""P08: hidden, excluded and unselected properties are never in serialized data."""
import ast

from ..core import rule
from ..lib import *
from . import _build
from .p04_conversion import included, kw, forwards_kwargs
from .p01_p03_writes import store_writers

A0, A1, A2, A3 = ('arg', 0), ('arg', 1), ('arg', 2), ('arg', 3)


def params(f):
    return {a.arg: ('arg', i) for i, a in enumerate(f.node.args.args)}


def covers(t, *what):
    """Is a term a collection which holds all of these collections?"""
    def go(x):
        x = strip(x)
        if x[0] == 'new':
            return go(x[2])
        if x in what:
            return {x}
        if x[0] == 'bin' and x[1] in ('Add', 'BitOr'):
            return go(x[2]) | go(x[3])
        if x[0] == 'call' and callname(x) in ('list', 'set', 'tuple', 'union', 'frozenset', 'sorted'):
            out = set()
            if x[1][0] == 'attr':
                out |= go(x[1][1])
            for a in x[2]:
                out |= go(a[1] if a[0] == 'star' else a)
            return out
        if x[0] in ('list', 'tuple', 'set') and len(x) == 2:
            out = set()
            for a in x[1]:
                if a[0] == 'star':
                    out |= go(a[1])
            return out
        if x[0] == 'alts':
            out = None
            for y in x[1]:
                out = go(y) if out is None else out & go(y)
            return out or set()
        return set()
    return set(what) <= go(t)


@rule('P08', 'included', 'An item is left out when it is excluded, or when some are selected and it is not among them.')
def p08_included(ctx):
    included(ctx)


@rule('P08', 'collection', 'Serializing a collection leaves out what its class hides and what the caller excludes or does not select: every '
      'item written is included with regard to all of them.')
def p08_collection(ctx):
    f = ctx.func('Collection._serialize')
    P = params(f)
    HID = ('attr', A0, '_notSerialized')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        for e in p.calls('_serialize', '_null', 'null', '_is_included'):
            t = strip(e.term)
            item = callname(t) == '_serialize' and not (receiver(t) == ('attr', A0, '_serializer') or t[2] and t[2][0] == A0)
            ex, on = kw(t, 'excludes'), kw(t, 'only')
            if callname(t) == '_is_included' and len(t[2]) > 2:
                ex, on = t[2][2], t[2][3] if len(t[2]) > 3 else on
            if item:
                ctx.ob(ex == P.get('excludes') or ex is not None and covers(ex, P.get('excludes')) and not covers(ex, HID), f.qual, e.where,
                       'the items are serialized without what %s' % (show(ex) if ex else '-'))
                continue
            n += 1
            ctx.ob(forwards_kwargs(t), f.qual, e.where, 'the options are not handed over to %s' % callname(t))
            v = t[2][1] if len(t[2]) > 1 else None
            ctx.ob(v == A1 or v is not None and callname(v) == '_serialize' and v[2][:2] == (A0, A1), f.qual, e.where,
                   '%s is called with %s' % (callname(t), show(v)[:80] if v else 'nothing'))
            ctx.ob(ex is not None and covers(ex, HID, P['excludes']), f.qual, e.where,
                   '%s is called without the hidden and excluded names' % callname(t))
            ctx.ob(on == P['only'], f.qual, e.where, '%s is called without the names selected' % callname(t))
        for e in p.stores():
            t = strip(e.term)
            if t[0] == 'sub' and t[2][0] in ('sub', 'item', 'index') and loops_of(e.facts):
                inc = [x for x, b in e.facts if callname(strip(x)) == '_is_included' and b and strip(x)[2][0] == t[2]]
                ctx.ob(bool(inc), f.qual, e.where, 'an item is written which may not be included')
        # what is returned comes from the serializer or from the names kept
        src = [x for x in subterms(p.returns) if x[0] == 'call' and callname(x) in ('_serialize', '_null', 'null')]
        ctx.ob(bool(src), f.qual, f.where, 'what is returned is %s' % show(strip(p.returns))[:120])
    ctx.need(4, n, 'calls')


@rule('P08', 'forwarding', 'The ways of serializing hand all their options over.')
def p08_forwarding(ctx):
    n = 0
    for fn, callee in (('CollectionProtocol._serialize', '_serialize'), ('CollectionProtocol.do_serialize', '_serialize'),
                       ('ObjectProtocol._serialize', '_serialize'), ('ObjectSerializer._serialize', '_serialize'),
                       ('ObjectSerializer._serialize', '_print_order'), ('Object._null', '_print_order'),
                       ('Object._print_order', '_print_order'), ('Serializer.serialize', '_serialize'),
                       ('CollectionProtocol.items_serialize', '_serialize')):
        f = ctx.func(fn)
        P = params(f)
        for p in ctx.paths(f):
            if not p.normal:
                continue
            cs = [strip(e.term) for e in p.calls(callee)]
            ctx.ob(bool(cs), f.qual, f.where, '%s is not called' % callee)
            for t in cs:
                n += 1
                ctx.ob(forwards_kwargs(t), f.qual, f.where, 'the options are not handed over to %s' % show(t[1])[:80])
                for k in ('excludes', 'only'):
                    if k in P:
                        v = kw(t, k)
                        ctx.ob(v is not None and (v == P[k] or k == 'excludes' and covers(v, P[k])), f.qual, f.where,
                               '%s is not handed over to %s' % (k, show(t[1])[:80]))
            for e in p.events:
                if e.kind in ('mutate', 'del', 'store') and root(strip(e.term)) == ('kwargs',):
                    ks = {v for y in (strip(e.term), strip(e.value) if e.value is not None else ()) for x in subterms(y)
                          for ok, v in [const_value(x)] if ok and isinstance(v, str)}
                    ctx.ob(not ks & {'excludes', 'only'}, f.qual, e.where, 'the names excluded or selected are changed')
    ctx.need(9, n, 'calls')


@rule('P08', 'order', 'Only the names which are neither excluded nor unselected are kept, required or not; read-only ones are left out on demand.')
def p08_order(ctx):
    f = ctx.func('ObjectSerializer._print_order')
    P = params(f)
    RO = ('attr', A0, '_readOnly')
    n = 0
    kinds = set()
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'yield':
                continue
            n += 1
            v = strip(e.value if e.value is not None else e.term)
            inc = [strip(x) for x, b in e.facts if callname(strip(x)) == '_is_included' and b and strip(x)[2][0] == v]
            ctx.ob(bool(inc), f.qual, e.where, 'a name is kept which may be excluded or not selected')
            ro = any(match("KWARGS.get('no_readOnly', ...)", strip(x)) is not None and b or strip(x)[0] == 'call' and 'no_readOnly' in show(strip(x)) and b
                     for x, b in e.facts)
            req = any(strip(x) == ('cmp', 'in', v, ('attr', A0, '_required')) and b for x, b in e.facts)
            for t in inc:
                ex, on = kw(t, 'excludes'), kw(t, 'only')
                ctx.ob(ex is not None and (covers(ex, P['excludes'])), f.qual, e.where, 'a name is kept although excluded')
                ctx.ob(on == P['only'], f.qual, e.where, 'a name is kept although not selected')
                if ro and not req:
                    kinds.add('ro')
                    ctx.ob(ex is not None and covers(ex, P['excludes'], RO), f.qual, e.where, 'read-only names are kept')
                if not req:
                    nd = kw(t, 'no_defaults')
                    ctx.ob(nd is not None and 'no_defaults' in show(nd, -9) or nd == ('attr', A0, '_noDefaults'), f.qual, e.where,
                           'unset values are kept where defaults are left out')
        ctx.ob(True, f.qual, f.where, '')
    ctx.need(2, n, 'names kept')
    ctx.ob('ro' in kinds, f.qual, f.where, 'read-only names are never left out')
    # the names left out are those read only at the most, and those with the value of their default
    f = ctx.func('Object._print_order')
    got = set()
    for p in ctx.paths(f):
        if not p.normal or not loops_of(allfacts(p)) and not any(t[0] == 'looped' and b for t, b in allfacts(p)):
            continue
        fs = allfacts(p)
        ys = [e for e in p.events if e.kind == 'yield']
        eq = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'eq']
        nd = [b for t, b in fs if 'no_defaults' in show(t, -9) and t[0] not in ('loop', 'looped', 'empty')]
        ctx.ob(not ys or not (eq and eq[0]), f.qual, f.where, 'a name is kept though it has its default value')
        if not ys:
            ctx.ob(bool(eq) and eq[0], f.qual, f.where, 'a name is left out which has not its default value')
            ctx.ob(nd == [] or nd[0], f.qual, f.where, 'default values are left out without being asked')
            got.add('left')
        for e in ys:
            v = strip(e.value if e.value is not None else e.term)
            ctx.ob(v[0] == 'item' and '_print_order' in show(v, -9), f.qual, e.where, 'the names kept are not those of the base order')
            got.add('kept')
    ctx.ob(got == {'left', 'kept'}, f.qual, f.where, 'names are %s only' % '/'.join(sorted(got)))


@rule('P08', 'keys', 'The data of an object holds the names kept, renamed with the attribute prefix, its aliases and the address of its schema.')
def p08_keys(ctx):
    f = ctx.func('ObjectSerializer._serialize')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        parts = contents(p, p.returns)
        ctx.ob(bool(parts), f.qual, f.where, 'what is returned is not made of the names kept')
        for els, gens, conds, ev in parts:
            ok = any(callname(g) == '_print_order' for g in gens)
            ctx.ob(ok, f.qual, f.where, 'the names are those of %s' % '; '.join(show(g)[:80] for g in gens))
            k = els[0][1][0] if els[0][0] == 'tuple' else els[0]
            ctx.ob(k[0] == 'item' and k[1] in gens, f.qual, f.where, 'a name is %s' % show(k)[:80])
    f = ctx.func('ObjectProtocol._serialize')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        for e in p.stores():
            t = strip(e.term)
            if t[0] != 'sub' or root(t) in (('kwargs',),):
                continue
            ok, v = const_value(t[2])
            al = any(match('A0._aliases', x) is not None or match('A0._aliasesNegated', x) is not None for x in subterms(t[2]))
            own = any(callname(x) == '_serialize' for x in subterms(t[2]))
            ctx.ob(ok and v == '$schema' or al or own, f.qual, e.where, '%s is added to the data' % show(t[2])[:80])
        parts = contents(p, p.returns)
        for els, gens, conds, ev in parts:
            if ev is not None:
                continue
            ctx.ob(any('_serialize' in show(g, -9) for g in gens), f.qual, f.where, 'the data is made of %s' % '; '.join(show(g)[:80] for g in gens))


@rule('P08', 'aliases', 'An alias is in the data if it is selected, not excluded and its property is there, with the value of the property '
      '(or its negation), and only then.')
def p08_aliases(ctx):
    f = ctx.func('ObjectProtocol._serialize')
    P = params(f)
    EX, ON = P['excludes'], P['only']
    n = {'_aliases': 0, '_aliasesNegated': 0}
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        for m in n:
            key = ('item', ('attr', A0, m))
            if not any(t[0] == 'loop' and strip(t[1]) == key[1] and b for t, b in fs):
                continue
            n[m] += 1
            stored = [e for e in p.stores() if strip(e.term)[0] == 'sub' and contains(strip(e.term)[2], key)]
            sel = {b for t, b in fs if t == ('cmp', 'in', key, ON)}
            exc = {b for t, b in fs if t == ('cmp', 'in', key, EX)}
            inc = {b for t, b in fs if callname(t) == '_is_included' and t[2] and t[2][0] == key and kw(t, 'excludes') == EX and kw(t, 'only') == ON}
            none = any(b is (not k) for t, b in fs for k in (True, False) if is_got(t, m, key, k))
            for e in stored:
                ok = inc == {True} or (exc == {False} and (sel == {True} or (ON, False) in fs or ('empty', ON) in [t for t, b in fs if b]))
                ctx.ob(ok, f.qual, e.where, 'an alias is shown which is excluded or not selected')
                v = strip(e.value)
                neg = v[0] in ('un', 'neg') or callname(v) == 'neg' or v[0] == 'unary'
                ctx.ob(neg == (m == '_aliasesNegated'), f.qual, e.where, 'the value of an alias of %s is %s' % (m, 'negated' if neg else 'not negated'))
                ctx.ob(contains(v, ('sub', key[1], key)), f.qual, e.where, 'the value of an alias is not that of its property')
            if not stored:
                out = inc == {False} or True in exc or sel == {False} or none
                ctx.ob(out, f.qual, f.where, 'an alias is left out when %s' % '; '.join('%s is %s' % (show(t)[:60], b) for t, b in fs))
    for m in n:
        ctx.need(1, n[m], 'paths with %s' % m)


def is_got(t, m, key, negated):
    """Does a fact tell that the property of an alias has a value (negated: has none)?"""
    has = contains(t, ('sub', ('attr', A0, m), key))
    if t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE:
        return has and negated is False
    if t[0] == 'cmp' and t[1] in ('in', 'eq'):
        return has and negated
    return has and negated and t[0] == 'call'


@rule('P08', 'overrides', 'Every class serializing its objects its own way hands its options over to the general way.')
def p08_overrides(ctx):
    n = 0
    skip = {'Type', 'String', 'Serializer', 'Collection', 'CollectionProtocol', 'ObjectProtocol', 'ObjectSerializer', 'TypeProtocol'}
    objs = {'ObjectProtocol', 'Entity', 'Instance', 'Object', 'ObjectSerializer', 'Relationship', 'ForeignKey'}
    for f in functions(ctx.repo):
        if f.name != '_serialize' or f.cls is None or f.cls.name in skip:
            continue
        found = False
        for p in ctx.paths(f):
            if not p.normal:
                continue
            for e in p.calls('_serialize'):
                t = strip(e.term)
                if receiver(t)[0] == 'name' and receiver(t)[1] in objs:
                    found = True
                    ctx.ob(forwards_kwargs(t), f.qual, e.where, 'the options are not handed over')
        n += found
    ctx.need(2, n, 'ways of serializing objects')


def pieces(t, depth=0):
    """(collection, part) pairs a sequence of names is made of; part: 'all', ('in', X) or ('out', X)."""
    t = strip(t)
    if t[0] == 'new':
        return pieces(t[2], depth + 1)
    if depth > 20:
        return set()
    if t[0] == 'bin' and t[1] in ('Add', 'BitOr'):
        return pieces(t[2], depth + 1) | pieces(t[3], depth + 1)
    if t[0] == 'call' and callname(t) in ('list', 'tuple', 'set', 'sorted', 'iter', 'chain', 'dict', 'keys'):
        out = set()
        if t[1][0] == 'attr' and callname(t) == 'keys':
            return {(t[1][1], 'all')}
        for a in t[2]:
            out |= pieces(a, depth + 1) or {(a, 'all')}
        return out
    if t[0] == 'call' and callname(t) in ('intersection', 'difference') and len(t[2]) == 1:
        return {(c, ('in' if callname(t) == 'intersection' else 'out', t[2][0])) for c, x in pieces(t[1][1], depth + 1) if x == 'all'}
    if t[0] == 'bin' and t[1] in ('BitAnd', 'Sub'):
        return {(c, ('in' if t[1] == 'BitAnd' else 'out', t[3])) for c, x in pieces(t[2], depth + 1) if x == 'all'}
    if t[0] == 'alts':
        out = set()
        for x in t[1]:
            out |= pieces(x, depth + 1)
        return out
    return {(t, 'all')}


def whole(p, t, coll):
    """Do these names cover all those of a collection?"""
    ps = pieces(t)
    if t[0] == 'new':
        for e in p.events:
            x = e.term
            while isinstance(x, tuple) and x[0] == 'old':
                x = x[1]
            if e.kind == 'mutate' and isinstance(x, tuple) and x[0] == 'new' and x[1] == t[1]:
                if e.value[0] == 'call':
                    for a in e.value[2]:
                        ps |= pieces(a)
                else:
                    ps |= pieces(e.value)
    mine = [x for c, x in ps if c == coll or c[0] in ('dict', 'new') and not contains(c, A1)]
    if 'all' in mine:
        return True
    ins = [x[1] for x in mine if x[0] == 'in']
    outs = [x[1] for x in mine if x[0] == 'out']
    # what is left out by one is kept by another one
    return bool(outs) and all(o in ins or any(x[0] == 'in' and x[1] in ins for c, x in pieces(o)) for o in outs)


@rule('P08', 'complete', 'Every other name of an object is kept: those of the value, read-only or not, unless they are included by no option.')
def p08_complete(ctx):
    f = ctx.func('ObjectSerializer._print_order')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        for t, b in p.facts:
            if t[0] in ('loop', 'looped') and b:
                ctx.ob(whole(p, t[1], A1), f.qual, f.where, 'some names of the value are never kept: %s' % show(t[1])[:160])
        incs = {}
        for t, b in allfacts(p):
            if callname(t) == '_is_included':
                req = not (len(t[2]) > 1 or kw(t, 'value') is not None)
                incs.setdefault(t[2][0], []).append((b, req, t))
        for k, l in incs.items():
            n += 1
            ys = [e for e in p.events if e.kind == 'yield' and strip(e.value if e.value is not None else e.term) == k]
            want = any(b for b, _, _ in l)
            ctx.ob(bool(ys) == want, f.qual, f.where, 'a name which is%s included is %s' % ('' if want else ' not', 'kept' if ys else 'left out'))
            if not want:
                ctx.ob(any(len(t[2]) > 1 and t[2][1] == A1 or kw(t, 'value') == A1 for _, _, t in l), f.qual, f.where,
                       'a name is left out whatever its value')
            for b, req, t in l:
                v = t[2][1] if len(t[2]) > 1 else kw(t, 'value')
                ctx.ob(v is None or v == A1, f.qual, f.where, 'a name is looked for in %s' % (show(v) if v else ''))
        for t, b in allfacts(p):
            for o, d in (('no_readOnly', '_noReadOnly'), ('no_defaults', '_noDefaults')):
                for x in subterms(t):
                    if callname(x) in ('get', 'pop') and receiver(x) == ('kwargs',) and const_value(x[2][0]) == (True, o):
                        ctx.ob(len(x[2]) == 2 and x[2][1] == ('attr', A0, d), f.qual, f.where, 'the option %s defaults to %s' % (
                            o, show(x[2][1]) if len(x[2]) > 1 else 'None'))
    ctx.need(4, n, 'names')


@rule('P08', 'defaults', 'A value is left out where defaults are left out only if it equals the default of its own type.')
def p08_defaults(ctx):
    f = ctx.func('Object._print_order')
    n = 0

    def nodef(t):
        """The option, which defaults to that of the class."""
        t = unold(t)
        return callname(t) in ('pop', 'get') and receiver(t) == ('kwargs',) and const_value(t[2][0]) == (True, 'no_defaults') and \
            t[2][1:] == (('attr', A0, '_noDefaults'),)
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        env = assign(fs, {'nd': nodef, 'hd': lambda t: callname(t) in ('_has_default', 'has_default'), 'eq': lambda t: t[0] == 'cmp' and t[1] == 'eq'})
        looped = any(t[0] in ('loop', 'looped') and b for t, b in fs)
        ys = [e for e in p.events if e.kind == 'yield']
        if looped:
            if env.get('nd') and env.get('hd'):
                ctx.ob('eq' in env, f.qual, f.where, 'a value is kept or left out without being compared with its default')
            ctx.ob('nd' in env, f.qual, f.where, 'whether defaults are left out is not looked at')
            if not ys:
                ctx.ob(env == {'nd': True, 'hd': True, 'eq': True}, f.qual, f.where, 'a name is left out when %s' % env)
        for e in p.calls('_print_order'):
            nd = kw(e.term, 'no_defaults')
            ctx.ob(nd is not None and nodef(strip(nd)), f.qual, e.where, 'the base order is not told whether defaults are left out')
            ctx.ob(strip(e.term)[2][:2] == (A0, A1), f.qual, e.where, 'the base order is that of %s' % show(strip(e.term))[:80])
        for e in p.calls('default'):
            ctx.ob(kw(e.term, 'context') is not None, f.qual, e.where, 'the default is evaluated out of context')
        for t, b in allfacts(p):
            if t[0] == 'cmp' and t[1] == 'eq':
                n += 1
                sides = [t[2], t[3]]
                dv = [x for x in sides if any(callname(y) == 'default' for y in subterms(x))]
                vv = [x for x in sides if x not in dv]
                ctx.ob(len(dv) == 1 and len(vv) == 1, f.qual, f.where, 'a value is compared with %s' % show(t)[:120])
                if len(dv) == 1 and len(vv) == 1:
                    ctx.ob(any(y[0] == 'sub' and y[1] == A1 and y[2][0] == 'item' for y in subterms(vv[0])), f.qual, f.where,
                           'what is compared is %s' % show(vv[0])[:100])
                    d = next(y for y in subterms(dv[0]) if callname(y) == 'default')
                    ctx.ob(callname(receiver(d)) == '_items_type' and receiver(d)[2][-1][0] == 'item', f.qual, f.where,
                           'the default is that of %s' % show(receiver(d))[:80])
                    ctx.ob(callname(dv[0]) != 'default', f.qual, f.where, 'the default is compared before being converted')
                    neg_ = any(y[0] == 'neg' or callname(y) == 'neg' for y in subterms(vv[0]))
                    isneg = [x for tt, x in allfacts(p) if tt[0] == 'cmp' and tt[1] == 'in' and tt[3] == ('attr', A0, '_aliasesNegated')]
                    ctx.ob(neg_ == bool(isneg and isneg[0]), f.qual, f.where, 'a value is compared %s' % ('negated' if neg_ else 'as is'))
    ctx.need(1, n, 'comparisons')


@rule('P08', 'values', 'The value written for a name is the item of that name serialized by its type.')
def p08_values(ctx):
    f = ctx.func('Collection._serialize')
    P = params(f)
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        items = assign(fs, {'items': P['items']}).get('items')
        src = [strip(e.term) for e in p.calls('_serialize') if receiver(strip(e.term)) == ('attr', A0, '_serializer')]
        ctx.ob(bool(src) and all(t[2][:2] == (A0, A1) for t in src), f.qual, f.where, 'the serializer is not given the value')
        st = [e for e in p.stores() if strip(e.term)[0] == 'sub' and loops_of(e.facts)]
        inc = [b for t, b in fs if callname(t) == '_is_included']
        if items is False:
            ctx.ob(not st and bool(src) and contains(strip(p.returns), src[0]), f.qual, f.where, 'what is returned is not what the serializer made')
        if items is not False and inc and inc[0]:
            n += 1
            ctx.ob(bool(st), f.qual, f.where, 'an included item is not written')
        for e in st:
            t, v = strip(e.term), strip(e.value)
            ok = callname(v) == '_serialize' and len(v[2]) >= 2 and v[2][0] == receiver(v) and v[2][1][0] == 'sub' and \
                v[2][1][2] == t[2] and bool(src) and v[2][1][1] == src[0]
            ctx.ob(ok, f.qual, e.where, 'what is written is %s' % show(v)[:120])
            ctx.ob(ok and forwards_kwargs(v), f.qual, e.where, 'the options are not handed over to the item')
            g = loops_of(e.facts)
            ctx.ob(any(callname(x) == '_items_types' for x in g), f.qual, e.where, 'the items are those of %s' % '; '.join(show(x)[:80] for x in g))
    ctx.need(1, n, 'included items')
    f = ctx.func('ObjectSerializer._serialize')
    for p in ctx.paths(f):
        for els, gens, conds, ev in contents(p, p.returns) if p.normal else ():
            pair = els[0][1] if els[0][0] == 'tuple' else els
            v = pair[1]
            k = v[2][0] if callname(v) == 'get' else v[2] if v[0] == 'sub' else None
            base = receiver(v) if callname(v) == 'get' else v[1] if v[0] == 'sub' else None
            ctx.ob(k == pair[0] and base is not None and callname(base) == '_serialize' and base[2][:2] == (A0, A1), f.qual, f.where,
                   'the value of a name is %s' % show(v)[:100])
            ctx.ob(not conds, f.qual, f.where, 'names are left out: %s' % '; '.join(show(c)[:80] for c, b in conds))
            for g in gens:
                ctx.ob(callname(g) != '_print_order' or len(g[2]) > 1 and g[2][0] == A0 and callname(g[2][1]) == '_serialize', f.qual, f.where,
                       'the order is that of %s' % show(g)[:100])
    f = ctx.func('Object._null')
    for p in ctx.paths(f):
        for els, gens, conds, ev in contents(p, p.returns) if p.normal else ():
            ctx.ob(not conds and all(callname(g) == '_print_order' and g[2][:2] == (A0, A1) for g in gens), f.qual, f.where, 'some names are left out')


@rule('P08', 'inherited', 'A class hides what its schema, its bases and the schemas it extends hide; nothing is unhidden later.')
def p08_inherited(ctx):
    _build.inherits(ctx, '_notSerialized', 'notSerialized')
    for key, hits in sorted(store_writers(ctx, {'_notSerialized', '_readOnly'}).items()):
        f, node = hits[0]
        ctx.ob(f.name in ('build', '__init__'), f.qual, '%s:%d (%s)' % (f.module.relpath, node.lineno, f.qual), 'modifies %s' % ast.unparse(node))
    for cn, a, want in (('ObjectSerializer', '_noDefaults', True), ('ObjectSerializer', '_noReadOnly', False)):
        c = ctx.repo.cls(cn)
        v = c.attrs.get(a)
        ctx.ob(isinstance(v, ast.Constant) and v.value is want, cn, cn, '%s of objects is %s' % (a, ast.unparse(v) if v else None))
    # types made without class
    f = ctx.func('Collection.__init__')
    P = params(f)
    n = 0
    for p in ctx.paths(f):
        for e in p.stores():
            if strip(e.term) == ('attr', A0, '_notSerialized'):
                n += 1
                ns = any(strip(t) == P['notSerialized'] and not b for t, b in allfacts(p))
                ctx.ob(covers(e.value, ('attr', A0, '_notSerialized'), P['notSerialized']) or
                       ns and covers(e.value, ('attr', A0, '_notSerialized')), f.qual, e.where, 'hidden names are lost: %s' % show(strip(e.value))[:100])
    ctx.need(1, n, 'hidden names of a type')

