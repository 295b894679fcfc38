"""P01 read-only, P02 required, P03 refused writes: who may write the stored values, and under which conditions."""
import ast

from ..core import rule
from ..lib import *
from . import _build

A0, A1, A2 = ('arg', 0), ('arg', 1), ('arg', 2)
STORES = {'_data', '_dataValidated', '_itemsInputs', '_dataAdditional'}
SETTERS = {'_set_data', '_set_dataValidated', '_items_touch', '_touch', '__setitem__', '__setattr__', '__delitem__', '__delattr__',
           'fset', 'fdel', 'update', 'insert'}
RAW = "A0._properties_raw_trans(k_)[0]"
DESC = "A0._propertiesDescriptor.get(%s)" % RAW
RDESC = "A0._relationshipsDescriptor.get(%s)" % RAW


def effects_on(p, obj):
    """Events of a path which change the object or run code that may."""
    out = []
    for e in p.events:
        if is_log(e):
            continue
        if e.kind in ('store', 'del', 'mutate') and (root(e.term) == obj or strip(e.term)[0] == 'dynattr' and root(e.term[1]) == obj):
            out.append(e)
        elif e.kind == 'call' and callname(e.term) in SETTERS and (
                root(receiver(e.term) or ()) == obj or any(root(a) == obj for a in e.term[2])):
            out.append(e)
    return out


def guarded(ctx, func, obj, guard, what, cls=None):
    """No effect on obj unless the guard was tested false; the guard tested true raises."""
    ps = ctx.paths(func, cls=cls)
    f = ctx.repo.func(func)
    refused = 0
    for p in ps:
        for e in effects_on(p, obj):
            ctx.ob(holds(e.facts, guard, False), f.qual, e.where, '%s without having checked that it is not %s' % (e, what))
        if holds(allfacts(p), guard, True):
            refused += 1
            ctx.ob(p.outcome[0] == 'raise', f.qual, f.where, 'a %s property does not make it raise' % what)
    ctx.ob(refused > 0, f.qual, f.where, 'no path refuses a %s property' % what)


# ------------------------------------------------------------------------------------------ P01
@rule('P01', 'descriptor', 'Every effect of assigning through a property descriptor happens after the property was found not read-only; '
                           'a read-only property raises.')
def p01_descriptor(ctx):
    guarded(ctx, 'PropertyDescriptor.__set__', A1, 'A0.pname in A1._readOnly', 'read-only')


@rule('P01', 'raises', 'The refusal is not swallowed by the ways of writing.')
def p01_swallow(ctx):
    for fn in ('PropertyDescriptor.__set__', 'ObjectProtocol.__setitem__', 'ObjectProtocol.__setattr__'):
        f = ctx.func(fn)
        ps = ctx.paths(f, implicit=True)
        sw = swallowed(ps)
        ctx.ob(not sw, f.qual, f.where, 'an exception is caught and the assignment goes on: %s' % (
            '; '.join(show(t) for t, b in sw[0].facts) if sw else ''))


@rule('P01', 'item', 'Writing an item of an object goes to the descriptor of the property the name stands for; values are stored '
                     'directly only under names that have no descriptor and are not read-only.')
def p01_item(ctx):
    f = ctx.func('ObjectProtocol.__setitem__')
    ps = ctx.paths(f)
    nset = 0
    for p in ps:
        if not p.normal:
            continue
        fs = allfacts(p)
        if holds(fs, "'.' in A1", True):
            continue
        calls = [e for e in p.calls('__set__')]
        for e in calls:
            r = receiver(e.term)
            ok = match(DESC, r) is not None or match(RDESC, r) is not None
            nset += ok and len(e.term[2]) > 0 and strip(e.term[2][0]) == A0
            ctx.ob(ok, f.qual, e.where, 'the value is set through %s' % show(strip(r)))
        direct = [e for e in effects_on(p, A0) if any(x[0] == 'attr' and x[2] in STORES for x in subterms(strip(e.term)))
                  or e.kind == 'call']
        for e in direct:
            if e in calls:
                continue
            ctx.ob(holds(e.facts, DESC, False) or holds(fs, DESC, False), f.qual, e.where,
                   'stored directly although the property may have a descriptor: %s' % e)
            ctx.ob(holds(e.facts, 'A1 in A0._readOnly', False) or holds(e.facts, RAW + ' in A0._readOnly', False), f.qual, e.where,
                   'stored directly although the name may be read-only: %s' % e)
        if not calls:
            ctx.ob(not holds(fs, DESC, True), f.qual, f.where, 'a property with a descriptor is not set through it')
        ctx.ob(bool(calls or direct), f.qual, f.where, 'the assignment does nothing')
    ctx.ob(nset > 0, f.qual, f.where, 'no path sets through a descriptor')


@rule('P01', 'path', 'Writing through a dotted path ends in an item assignment on the object reached.')
def p01_path(ctx):
    f = ctx.func('ObjectProtocol.__setitem__')
    n = 0
    for p in ctx.paths(f):
        if not p.normal or not holds(allfacts(p), "'.' in A1", True):
            continue
        st = [e for e in p.events if e.kind in ('store', 'del', 'mutate')]
        n += 1
        for e in st:
            t = strip(e.term)
            ctx.ob(t[0] == 'sub' and not any(x[0] == 'attr' and x[2].startswith('_') for x in subterms(t[1])), f.qual, e.where,
                   'the dotted path writes %s' % show(t))
        ctx.ob(bool(st) or bool(p.calls('__set__', 'setattr')), f.qual, f.where, 'the dotted path writes nothing')
    ctx.ob(n > 0, f.qual, f.where, 'no dotted path is written')


@rule('P01', 'attribute', 'Assigning an attribute is assigning the item, except for protected names which are no properties.')
def p01_attr(ctx):
    f = ctx.func('ObjectProtocol.__setattr__')
    n = 0
    for p in ctx.paths(f):
        for e in writes(p, A0):
            t = strip(e.term)
            if t == ('sub', A0, A1):
                n += 1
                ctx.ob(strip(e.value) == A2, f.qual, e.where, 'the item is set to %s' % show(strip(e.value)))
                continue
            ctx.ob(holds(e.facts, "A1.startswith('_')", True) and holds(e.facts, 'A1 in A0._propertiesAllowed', False), f.qual,
                   e.where, 'the attribute is written without going through the item: %s' % e)
        if p.normal and not holds(allfacts(p), "A1.startswith('_')", True):
            ctx.ob(any(strip(e.term) == ('sub', A0, A1) for e in p.stores()), f.qual, f.where,
                   'assigning an attribute does not assign the item')
        for e in p.calls('__setattr__'):
            ctx.ob(holds(e.facts, "A1.startswith('_')", True), f.qual, e.where, 'the attribute is set without going through the item')
    ctx.ob(n > 0, f.qual, f.where, 'assigning an attribute never assigns the item')


# functions which are the write accessors: each is covered by a rule of P01 to P05
ACCESSORS = {
    'protocols.object_protocol:PropertyDescriptor.__get__', 'protocols.object_protocol:PropertyDescriptor.__set__',
    'protocols.object_protocol:PropertyDescriptor.__delete__', 'protocols.object_protocol:ObjectProtocol._touch',
    'protocols.object_protocol:ObjectProtocol.__getattr__', 'protocols.object_protocol:ObjectProtocol.__getitem__',
    'protocols.object_protocol:ObjectProtocol.__setitem__', 'protocols.object_protocol:ObjectProtocol.__delitem__',
    'protocols.collection_protocol:CollectionProtocol.__init__', 'protocols.collection_protocol:CollectionProtocol._items_touch',
    'protocols.collection_protocol:CollectionProtocol.__setitem__', 'protocols.collection_protocol:CollectionProtocol.__getitem__',
    'protocols.collection_protocol:CollectionProtocol.__delitem__', 'protocols.collection_protocol:CollectionProtocol._set_data',
    'protocols.collection_protocol:CollectionProtocol._set_dataValidated', 'protocols.array_protocol:ArrayProtocol._touch',
    'protocols.array_protocol:ArrayProtocol.insert',
}


def store_writers(ctx, attrs):
    """{function key: [(node, text)]} of the functions writing to <x>.attr or <x>.attr[..], aliases of it included."""
    out = {}
    for f in functions(ctx.repo):
        aliases = set()
        for n in own_nodes(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in attrs:
                aliases |= {t.id for t in n.targets if isinstance(t, ast.Name)}

        def is_store(x):
            while isinstance(x, ast.Subscript):
                x = x.value
            return isinstance(x, ast.Attribute) and x.attr in attrs

        def is_alias(x):
            while isinstance(x, ast.Subscript):
                x = x.value
            return isinstance(x, ast.Name) and x.id in aliases
        for n in own_nodes(f):
            hit = None
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            todo = list(tg)
            while todo:
                t = todo.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    todo.extend(t.elts)
                elif is_store(t) or isinstance(t, ast.Subscript) and is_alias(t):
                    hit = t
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (is_store(n.func.value) or is_alias(n.func.value)) and (
                    n.func.attr in MUTATORS or n.func.attr in ('__setitem__', '__delitem__')):
                hit = n
            if isinstance(n, ast.Call) and getattr(n.func, 'id', None) == 'setattr' and len(n.args) > 1 and isinstance(
                    n.args[1], ast.Constant) and n.args[1].value in attrs:
                hit = n
            if hit is not None:
                out.setdefault(f.key, []).append((f, hit))
    return out


def callers(ctx, name):
    return {f.key for f in functions(ctx.repo) for n in own_nodes(f) if called_name(n) == name}


def only_accessors(ctx, attrs, allowed, what):
    """Only the known accessors (or new helpers called by nobody else) write the attributes."""
    n = 0
    allowed = {'ngoschema.' + a for a in allowed}
    for key, hits in sorted(store_writers(ctx, attrs).items()):
        n += len(hits)
        f, node = hits[0]
        ok = key in allowed
        if not ok and key not in ctx.baseline:
            seen, todo = set(), [f.name]
            ok = True
            while todo:
                for c in callers(ctx, todo.pop()):
                    if c in seen or c in allowed:
                        continue
                    seen.add(c)
                    if c in ctx.baseline:
                        ok = False
                    else:
                        todo.append(c.rsplit(':', 1)[1].rsplit('.', 1)[-1])
        ctx.ob(ok, f.qual, '%s:%d (%s)' % (f.module.relpath, node.lineno, f.qual), '%s written outside its accessors: %s' % (
            what, ast.unparse(node)))
    ctx.need(5, n, 'writes of ' + what)


@rule('P01', 'accessors', 'The stored values of objects are written by the accessors only, package-wide.')
def p01_accessors(ctx):
    only_accessors(ctx, {'_data', '_dataValidated', '_dataAdditional'}, ACCESSORS, 'stored values')


@rule('P01', 'overrides', 'No class built on objects replaces an inherited way of writing (update, setdefault, pop, ...) by another.')
def p01_overrides(ctx):
    n = 0
    for c in ctx.repo.subclasses('CollectionProtocol'):
        n += 1
        for m in ('update', 'setdefault', 'pop', 'popitem', 'clear', '__ior__', '__setstate__', '__delattr__', '__set__'):
            if m in c.methods:
                f = c.methods[m]
                ctx.ob(not store_writers_of(ctx, f), f.qual, f.where, '%s writes stored values directly' % m)
    ctx.need(3, n, 'collection classes')


def store_writers_of(ctx, f):
    return store_writers(ctx, STORES).get(f.key)


@rule('P01', 'constraints', 'The sets of read-only, required and hidden names of a class are made when it is built and not modified since.')
def p01_constraints(ctx):
    attrs = {'_readOnly', '_required', '_notSerialized', '_notValidated'}
    bad = store_writers(ctx, attrs)
    ctx.need(1, len(ctx.repo.classes) if hasattr(ctx.repo, 'classes') else 1, 'classes')
    for key, hits in sorted(bad.items()):
        f, node = hits[0]
        if f.name in ('build', '__init__'):
            continue
        ctx.ob(False, f.qual, '%s:%d (%s)' % (f.module.relpath, node.lineno, f.qual), 'modifies %s' % ast.unparse(node))
    ctx.ob(True, 'package', '', '')


@rule('P01', 'inherited', 'A class refuses what its schema, its bases and the schemas it extends declare read-only.')
def p01_inherit(ctx):
    _build.inherits(ctx, '_readOnly', 'readOnly')


@rule('P01', 'installed', 'Every property of a class has a descriptor; those of its bases are inherited.')
def p01_installed(ctx):
    descriptors_installed(ctx)


def descriptors_installed(ctx):
    f, terms, lossy, _ = _build.contributions(ctx, '_propertiesDescriptor')
    got, made = set(), []
    for ev, t in terms:
        o, _ = _build.leaves(t, '_propertiesDescriptor', 'properties')
        got |= o
        if callname(t) == 'PropertyDescriptor' or any(callname(x) == 'PropertyDescriptor' for x in subterms(t) if x[0] == 'call'):
            made.append((ev, t))
    for x, what in (('bases', 'base classes'), ('extends', 'extended schemas')):
        ctx.ob(x in got, 'descriptors', f.where, 'the descriptors of the %s are not inherited' % what)
    ctx.ob(bool(made), 'descriptors', f.where, 'no descriptor is made for the properties')
    for ev, t in made:
        conds = [(x, b) for x, b in ev.facts if strip(x)[0] in ('loop',)]
        src = set()
        for x, b in conds:
            src |= set(_prop_sources(x))
        ctx.ob('own' in src, 'descriptors', ev.where, 'descriptors are not made for the properties of the schema')
        key = strip(ev.term)
        if key[0] == 'sub' and callname(t) == 'PropertyDescriptor':
            ctx.ob(strip(t[2][0]) == key[2], 'descriptors', ev.where, 'the descriptor of %s is registered as %s' % (
                show(strip(t[2][0])), show(key[2])))
        fl = [(x, b) for x, b in ev.facts if _inner_filter(x, b, key)]
        ctx.ob(not fl, 'descriptors', ev.where, 'a descriptor is only made when %s' % '; '.join(
            ('' if b else 'not ') + show(strip(x))[:120] for x, b in fl))


def _inner_filter(x, b, key):
    """Facts about the property the descriptor is made for."""
    x = strip(x)
    if x[0] in ('loop', 'looped', 'empty', 'caught') or key[0] != 'sub':
        return False
    return key[2] in subterms(x) and key[2][0] == 'item'


def _prop_sources(x, depth=0):
    out = set()
    if depth > 20 or not isinstance(x, tuple):
        return out
    for y in subterms(x):
        if y[0] == 'ref':
            out |= _prop_sources(_build.REFS[y[1]], depth + 1)
        if y[0] == 'call' and callname(y) == 'get' and strip(receiver(y)) == _build.SCHEMA and y[2] and strip(y[2][0]) == const('properties'):
            out.add('own')
    return out


# ------------------------------------------------------------------------------------------ P02
@rule('P02', 'descriptor', 'Every effect of deleting through a property descriptor (its deleter included) happens after the property was '
                           'found not required; a required property raises.')
def p02_descriptor(ctx):
    guarded(ctx, 'PropertyDescriptor.__delete__', A1, 'A0.pname in A1._required', 'required')


@rule('P02', 'item', 'Deleting an item of an object goes to the descriptor of the property the name stands for; values are removed '
                     'directly only under names that have no descriptor and are not required.')
def p02_item(ctx):
    f = ctx.func('ObjectProtocol.__delitem__')
    ps = ctx.paths(f, implicit=False)
    ndel = 0
    for p in ps:
        fs = allfacts(p)
        dels = [e for e in effects_on(p, A0)]
        via = [e for e in p.calls('__delete__')] + [e for e in dels if e.kind == 'del' and strip(e.term)[0] == 'dynattr']
        for e in p.calls('__delete__'):
            ok = match(DESC, receiver(e.term)) is not None
            ndel += ok
            ctx.ob(ok, f.qual, e.where, 'deleted through %s' % show(strip(receiver(e.term))))
        for e in dels:
            if e in via or e.kind == 'call' and e in p.calls('__delete__'):
                continue
            ctx.ob(holds(e.facts, DESC, False) or holds(fs, DESC, False), f.qual, e.where,
                   'removed directly although the property may have a descriptor: %s' % e)
            ctx.ob(any(holds(z, q, False) for z in (e.facts, fs) for q in ('A1 in A0._required', RAW + ' in A0._required')), f.qual, e.where,
                   'removed directly although the name may be required: %s' % e)
        for e in dels:
            if e.kind == 'del' and strip(e.term)[0] == 'dynattr':
                ctx.ob(find('A0._propertiesTranslation', e.term) is not None or strip(e.term)[2] == A1, f.qual, e.where,
                       'the attribute deleted is not the one of the property: %s' % e)
        if p.normal:
            ctx.ob(bool(via or dels), f.qual, f.where, 'the deletion does nothing')
    ctx.ob(ndel > 0, f.qual, f.where, 'no path deletes through a descriptor')
    for fn in ('PropertyDescriptor.__delete__', 'ObjectProtocol.__delitem__'):
        g = ctx.func(fn)
        sw = swallowed(ctx.paths(g, implicit=True))
        ctx.ob(not sw, g.qual, g.where, 'an exception is caught and the deletion goes on')


@rule('P02', 'accessors', 'The stored values of objects are removed by the accessors only, package-wide; no inherited way of deleting is '
                          'replaced by one that removes directly.')
def p02_accessors(ctx):
    only_accessors(ctx, {'_data', '_dataValidated', '_dataAdditional'}, ACCESSORS, 'stored values')
    p01_overrides(ctx)


@rule('P02', 'inherited', 'A class keeps what its schema, its bases and the schemas it extends declare required.')
def p02_inherit(ctx):
    _build.inherits(ctx, '_required', 'required')


@rule('P02', 'constraints', 'The sets of required names are not modified once the class is built.')
def p02_constraints(ctx):
    p01_constraints(ctx)


@rule('P02', 'installed', 'Every property of a class has a descriptor; those of its bases are inherited.')
def p02_installed(ctx):
    descriptors_installed(ctx)


# ------------------------------------------------------------------------------------------ P03
RAISERS = {'_items_evaluate', '_items_inputs_evaluate', '_set_dataValidated', '_validate'}


def oldfacts(p):
    return [(unold(t), b) for t, b in allfacts(p)]


def refused_paths(ctx, fn, inline=(), cls=None, types=None):
    f = ctx.func(fn)
    ps = ctx.paths(f, cls=cls, implicit=True, may_raise=RAISERS, inline=inline, types=types)
    return f, [p for p in ps if p.outcome[0] in ('exc', 'raise')], ps


def data_history(p, obj):
    """[(event, key, value, kind)] of the writes to obj._data and replacement of obj._data."""
    out = []
    d = ('attr', obj, '_data')
    for e in p.events:
        if e.kind not in ('store', 'del', 'mutate'):
            continue
        t = strip(e.term)
        if t[0] == 'sub' and unold(t[1]) == d:
            out.append((e, t[2], e.value, e.kind))
        elif t == d:
            out.append((e, None, e.value, e.kind))
    return out


def restored(ctx, fn, obj, key, inline=(), cls=None, types=None, after=('_items_evaluate', '_items_inputs_evaluate', '_set_dataValidated')):
    """On a refusal raised by the evaluation, the last write gives the value read before the first write back, or removes the key."""
    f, bad, ps = refused_paths(ctx, fn, inline, cls, types)
    n = 0
    old = {('old', ('sub', ('attr', obj, '_data'), key)), ('old', ('call', ('attr', ('attr', obj, '_data'), 'get'), (key,), ())),
           ('old', ('call', ('attr', ('attr', obj, '_data'), 'get'), (key, NONE), ()))}
    for p in bad:
        h = data_history(p, obj)
        if not h:
            continue
        what = p.outcome[1]
        n += 1
        e, k, v, kind = h[-1]
        if kind == 'del':
            ctx.ob(True, f.qual, e.where, '')
            continue
        vv = strip(v) if v is not None else None
        ctx.ob(kind == 'store' and vv in old, f.qual, e.where, 'when %s raises, %s is left with %s' % (
            show(strip(what))[:60] if isinstance(what, tuple) else what, show(strip(e.term)), show(vv) if vv else kind))
    ctx.ob(n > 0, f.qual, f.where, 'no refusal is followed')
    return f, bad, ps


@rule('P03', 'property', 'When the evaluation of an assigned property raises, the value stored last is the one read before.')
def p03_property(ctx):
    f, bad, ps = restored(ctx, 'PropertyDescriptor.__set__', A1, ('attr', A0, 'pname'), inline=('_set_data',),
                          types={A1: 'ObjectProtocol'})
    cached(ctx, f, bad, A1, ('attr', A0, 'pname'))


@rule('P03', 'additional', 'The same for a name without descriptor; a new one is removed.')
def p03_additional(ctx):
    f, bad, ps = restored(ctx, 'ObjectProtocol.__setitem__', A0, A1)
    for p in bad:
        h = data_history(p, A0)
        if h and h[-1][3] == 'store':
            ctx.ob(holds(oldfacts(p), 'A1 in A0._data', True), f.qual, h[-1][0].where,
                   'a name which was not there keeps an entry after a refusal')
        if h and h[-1][3] == 'del':
            ctx.ob(holds(oldfacts(p), 'A1 in A0._data', False), f.qual, h[-1][0].where,
                   'a name which was there is removed after a refusal')
    cached(ctx, f, bad, A0, A1)


@rule('P03', 'array-item', 'The same for an item of an array.')
def p03_item(ctx):
    f, bad, ps = restored(ctx, 'CollectionProtocol.__setitem__', A0, A1)
    cached(ctx, f, bad, A0, A1)


def cached(ctx, f, bad, obj, key):
    """After the restoration, the cached value is outdated."""
    for p in bad:
        h = data_history(p, obj)
        if not h:
            continue
        i = p.events.index(h[-1][0])
        ok = False
        for j, e in enumerate(p.events):
            if e.kind == 'call' and callname(e.term) in ('_items_touch', '_touch') and j > i:
                ok = True
            if e.kind == 'del' and strip(e.term)[0] == 'sub' and strip(e.term)[1] == ('attr', obj, '_dataValidated') and j > i:
                ok = True
            if e.kind == 'store' and strip(e.term) == ('sub', ('attr', obj, '_dataValidated'), key) and j > i and (
                    strip(e.value) == NONE or strip(e.value)[0] == 'old'):
                ok = True
        # a value which was never evaluated since the restored write is not cached
        written = [e for e in p.events if e.kind == 'call' and callname(e.term) == '_set_dataValidated']
        ctx.ob(ok or not written and _touched_before(p), f.qual, h[-1][0].where,
               'the cached value is not outdated after the previous value is restored')


def _touched_before(p):
    return False


@rule('P03', 'insert', 'A value refused by an array is removed from all the lists it was put in, at the same position.')
def p03_insert(ctx):
    f, bad, ps = refused_paths(ctx, 'ArrayProtocol.insert')
    n = 0
    for p in bad:
        ins = [e for e in p.events if e.kind == 'mutate' and callname(e.value) == 'insert']
        if not ins:
            continue
        n += 1
        for e in ins:
            lst = strip(e.term)
            pos = unold(strip(e.value)[2][0])
            j = p.events.index(e)
            undo = [x for x in p.events[j + 1:] if x.kind == 'del' and unold(x.term) == ('sub', lst, pos)
                    or x.kind == 'mutate' and strip(x.term) == lst and callname(x.value) == 'pop' and unold(x.value)[2] == (pos,)
                    or x.kind == 'store' and strip(x.term) == lst]
            ctx.ob(len(undo) == 1, f.qual, e.where, 'when %s raises, the value is left in %s' % (
                show(strip(p.outcome[1]))[:60], show(lst)))
            ctx.ob(undo and pos[0] != 'arg' or not undo, f.qual, e.where, 'the position is not normalised before inserting: deleting it '
                   'may remove another item')
    ctx.ob(n > 0, f.qual, f.where, 'no refusal is followed')


@rule('P03', 'deletion', 'An array whose size does not allow a deletion keeps its items.')
def p03_deletion(ctx):
    f, bad, ps = refused_paths(ctx, 'CollectionProtocol.__delitem__')
    n = 0
    for p in bad:
        for a in ('_data', '_dataValidated', '_itemsInputs'):
            t = ('attr', A0, a)
            dels = [e for e in p.events if e.kind == 'del' and strip(e.term)[0] == 'sub' and unold(strip(e.term)[1]) == t
                    or e.kind == 'mutate' and strip(e.term) == t and callname(e.value) == 'pop']
            if not dels:
                continue
            n += 1
            j = p.events.index(dels[-1])
            undo = [x for x in p.events[j + 1:] if x.kind in ('store', 'mutate') and (strip(x.term) == t or strip(x.term)[0] == 'sub'
                    and strip(x.term)[1] == t)]
            before = [x for x in p.events[:p.events.index(dels[0])] if x.kind == 'call' and callname(x.term) in ('copy', 'list', 'dict', 'deepcopy')
                      and t in subterms(strip(x.term)) or x.kind == 'load' and strip(x.term)[1] == t]
            ctx.ob(bool(undo), f.qual, dels[-1].where, 'when the deletion is refused %s is not restored' % show(t))
            for x in undo:
                # what is put back was copied before, or is the item itself
                v = unold(strip(x.value)) if x.value is not None else NONE
                if x.kind == 'store' and strip(x.term) == t:
                    ctx.ob(v != t, f.qual, x.where, 'what is put back in %s is what the item was removed from' % show(t))
    ctx.ob(n > 0, f.qual, f.where, 'no refusal is followed')
    val = [p for p in ps if p.normal]
    for p in val:
        i = max([j for j, e in enumerate(p.events) if e.kind == 'del' and '_data' in show(strip(e.term))] or [-1])
        ctx.ob(any(e.kind == 'call' and callname(e.term) == '_validate' for e in p.events[i + 1:]), f.qual, f.where,
               'the deletion is not validated')


@rule('P03', 'propagates', 'Every refusal reaches the caller.')
def p03_propagates(ctx):
    for fn in ('PropertyDescriptor.__set__', 'ObjectProtocol.__setitem__', 'ObjectProtocol.__setattr__', 'CollectionProtocol.__setitem__',
               'CollectionProtocol.__delitem__', 'ArrayProtocol.insert', 'CollectionProtocol._items_evaluate',
               'ObjectProtocol.__delitem__', 'PropertyDescriptor.__delete__', 'PropertyDescriptor.__get__',
               'CollectionProtocol._set_dataValidated', 'CollectionProtocol._set_data'):
        f = ctx.func(fn)
        sw = swallowed(ctx.paths(f, implicit=True))
        ctx.ob(not sw, f.qual, f.where, 'a refusal is caught and not raised again')
