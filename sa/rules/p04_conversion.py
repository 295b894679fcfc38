"""P04: what is assigned is converted with the type of the property and validated against its schema."""
from ..core import rule
from ..lib import *

A0, A1, A2, A3 = ('arg', 0), ('arg', 1), ('arg', 2), ('arg', 3)


def kw(t, name):
    t = strip(t)
    for k, v in t[3] if t[0] == 'call' else ():
        if k == name:
            return v
    return None


def forwards_kwargs(t):
    # all of them: no option is left out on account of its value
    return any(k.startswith('**') and not any(x[0] == 'comp' and any(c[0][0] not in ('loop', 'looped') for c in x[4]) for x in subterms(v))
               for k, v in strip(t)[3])


# ------------------------------------------------------------------------------------------ writing evaluates
def evaluates(ctx, fn, obj, key, value, types=None, inline=(), relevant=None):
    """Unless the object is lazy, a write that returns has cached the evaluation of the value stored last."""
    f = ctx.func(fn)
    n = 0
    for p in ctx.paths(f, inline=inline, types=types):
        if not p.normal:
            continue
        fs = [(unold(t), b) for t, b in allfacts(p)]
        if relevant and not relevant(p, fs):
            continue
        st = [e for e in p.events if e.kind == 'store' and unold(e.term) == ('sub', ('attr', obj, '_data'), key)
              or e.kind == 'mutate' and strip(e.term) == ('attr', obj, '_data') and callname(e.value) == 'insert'
              or e.kind == 'call' and callname(e.term) == '_set_data' and receiver(e.term) == obj]
        if not st:
            continue
        n += 1
        e = st[-1]
        v = strip(e.value) if e.kind == 'store' else strip(e.value if e.kind == 'mutate' else e.term)[2][1]
        ctx.ob(value(v), f.qual, e.where, 'what is stored is %s' % show(v))
        lazy = any(match(q, t) is not None and b for t, b in fs for q in (('attr', obj, '_lazyLoading'),))
        if lazy:
            continue
        i = p.events.index(e)
        ev = [x for x in p.events[i + 1:] if x.kind == 'call' and callname(x.term) == '_items_evaluate' and receiver(x.term) == obj]
        sv = [x for x in p.events[i + 1:] if x.kind == 'call' and callname(x.term) == '_set_dataValidated' and receiver(x.term) == obj]
        ok = False
        for x in sv:
            a = strip(x.term)[2]
            if len(a) == 2 and unold(a[0]) == unold(strip(ev[-1].term)[2][0]) if ev else False:
                ok = callname(strip(a[1])) == '_items_evaluate' and unold(strip(a[1])[2][0]) == unold(a[0])
        ctx.ob(ok, f.qual, e.where, 'the value written is not evaluated, or not what is read afterwards')
        for x in ev:
            val = kw(x.term, 'validate')
            off = val is not None and strip(val) == FALSE
            nv = any(b and match(('cmp', 'in', key, ('attr', obj, '_notValidated')), t) is not None for t, b in fs)
            ctx.ob(not off or nv, f.qual, x.where, 'the value is evaluated without validation')
            ctx.ob(all(k in ('validate', '**') or k.startswith('**') for k, _ in strip(x.term)[3]), f.qual, x.where,
                   'the evaluation is modified: %s' % show(strip(x.term)))
    ctx.ob(n > 0, f.qual, f.where, 'no path stores a value')


@rule('P04', 'property-written', 'Unless loading is lazy, assigning a property stores the evaluation of the value; validation is skipped '
                                 'for names excluded from validation only.')
def p04_set(ctx):
    evaluates(ctx, 'PropertyDescriptor.__set__', A1, ('attr', A0, 'pname'), lambda v: v == A2)
    evaluates(ctx, 'CollectionProtocol.__setitem__', A0, A1, lambda v: v == A2)
    evaluates(ctx, 'ObjectProtocol.__setitem__', A0, A1, lambda v: v in (A2, ('neg', A2)) or callname(v) == 'neg' or v[0] == 'call')
    evaluates(ctx, 'ArrayProtocol.insert', A0, None, lambda v: v == A2)


@rule('P04', 'set-data', 'Recording a value for a property records that value.')
def p04_setdata(ctx):
    f = ctx.func('CollectionProtocol._set_data')
    for p in ctx.paths(f):
        if p.normal:
            ctx.ob(any(e.kind == 'store' and match('A0._data[A1]', e.term) is not None and strip(e.value) == A2 for e in p.events), f.qual,
                   f.where, 'the value is not recorded')
    f = ctx.func('CollectionProtocol._set_dataValidated')
    for p in ctx.paths(f):
        if p.normal:
            ctx.ob(any(e.kind == 'store' and match('A0._dataValidated[A1]', e.term) is not None and strip(e.value) == A2 for e in p.events),
                   f.qual, f.where, 'the evaluated value is not recorded')


@rule('P04', 'array-insert', 'Inserting validates the array itself, its items apart.')
def p04_insert(ctx):
    behave(ctx, 'ArrayProtocol.insert', {}, lambda e: {'must': ['A0._validate(A0, A0, ...)', 'A0._data.insert(ANY, A2)']},
           'insertion', implicit=False)


@rule('P04', 'read', 'Reading evaluates a value which was not evaluated yet and returns what was evaluated.')
def p04_read(ctx):
    behave(ctx, 'CollectionProtocol.__getitem__', {'none': 'A0._dataValidated[A1] is None'},
           lambda e: {'ret': lambda t, p: unold(t) == ('sub', ('attr', A0, '_dataValidated'), A1) or callname(t) == '_items_evaluate',
                      'must': ['A0._set_dataValidated(A1, A0._items_evaluate(A1))'] if e['none'] else []}, 'reading an item',
           skip=lambda p: any(callname(t) == 'isinstance' and t[2] == (A1, ('name', 'slice')) and b for t, b in allfacts(p)))

    def spec(e):
        if e['owner']:
            return None
        must = []
        if e['outdated'] or e['get'] and e['none']:
            must.append('A1._set_dataValidated(A0.pname, A1._items_evaluate(A0.pname, ...))')
        return {'must': must, 'ret': lambda t, p: unold(t) == ('sub', ('attr', A1, '_dataValidated'), ('attr', A0, 'pname'))}
    behave(ctx, 'PropertyDescriptor.__get__', {
        'owner': 'A1 is None', 'outdated': 'A1._is_outdated(A0.pname)', 'get': 'A0.fget',
        'none': 'A1._dataValidated.get(A0.pname) is None'}, spec, 'reading a property', implicit=False,
        skip=lambda p: any(f[0][0] == 'caught' for f in p.facts))
    f = ctx.func('PropertyDescriptor.__get__')
    for p in ctx.paths(f):
        for e in p.calls('_items_evaluate'):
            v = kw(e.term, 'validate')
            ctx.ob(v is None or holds(e.facts, 'A0.pname in A1._notValidated', True), f.qual, e.where, 'evaluated without validation')


# ------------------------------------------------------------------------------------------ evaluation of an item
@rule('P04', 'item-evaluation', 'Evaluating an item calls its type on the stored value; the value is returned as it is only if it is an '
                                'instance of the type already or if its type accepts anything.')
def p04_item(ctx):
    f = ctx.func('CollectionProtocol._items_evaluate')
    n = 0
    T, V = "A0._items_type(A0, A1)", "A0._data[A1]"
    for p in ctx.paths(f):
        fs = allfacts(p)
        if not p.normal:
            continue
        t = strip(p.returns)
        n += 1
        if match('A0._data[A1]', unold(t)) is not None:
            anyt = any(b and match('isinstance(%s, k_)' % T, x) is not None and '_True' in show(x) for x, b in fs)
            inst = any(b and match('isinstance(%s, %s)' % (V, T), unold(x)) is not None for x, b in fs)
            ctx.ob(anyt or inst and not holds(fs, T + '.is_primitive()', True), f.qual, f.where, 'the value is returned without evaluation')
            continue
        ok = t[0] == 'call' and unold(t[1]) == parse_pattern(T) and len(t[2]) == 1 and unold(t[2][0]) == parse_pattern(V)
        ctx.ob(ok, f.qual, f.where, 'returns %s' % show(t))
        if not ok:
            continue
        ctx.ob(forwards_kwargs(t) or kw(t, 'context') is not None, f.qual, f.where, 'the options are not passed on')
        for k, v in t[3]:
            v = strip(v)
            if k in ('convert', 'evaluate', 'deserialize'):
                ctx.ob(v != FALSE, f.qual, f.where, 'the value is not converted (%s=%s)' % (k, show(v)))
            if k == 'serialize':
                ctx.ob(v == FALSE, f.qual, f.where, 'the value is serialized')
            if k == 'validate' and v != TRUE:
                lazy = holds(fs, T + '._lazyLoading', True)
                ctx.ob(lazy, f.qual, f.where, 'the value is not validated')
        for e in p.events:
            if e.kind in ('store', 'mutate') and 'validate' in show(strip(e.term)) + (show(strip(e.value)) if e.value else ''):
                ctx.ob(holds(e.facts, T + '._lazyLoading', True), f.qual, e.where, 'the value is not validated')
    ctx.need(3, n, 'returns')


@rule('P04', 'item-type', 'The type of an item is its property, else the first pattern found in its name, else the additional type; names '
                          'that match none raise a key error.')
def p04_itemtype(ctx):
    CACHE = 'A0._items_type_cache.get(A1)'
    PT = ["A0._properties.get(A1)"]

    def spec(e):
        if e['cached']:
            return {'ret': CACHE}
        if e['prop']:
            return {'ret': 'A0._properties.get(A1)'}
        if e['pattern']:
            return {'ret': lambda t, p: t[0] in ('sub', 'item') and '_propertiesPattern' in show(t)}
        if e['additional']:
            return {'ret': 'A0._propertiesAdditional'}
        return {'raises': 'KeyError'}
    behave(ctx, 'Object._items_type', {
        'cached': CACHE, 'prop': ['!A0._properties.get(A1) is None', 'A1 in A0._properties', 'A0._properties.get(A1)'],
        'pattern': lambda t: callname(t) in ('search', 'match') and '_propertiesPattern' in show(t),
        'additional': 'A0._propertiesAdditional'}, spec, 'type of a property',
        default={'pattern': False})
    f = ctx.func('Object._items_type')
    for p in ctx.paths(f):
        for t, b in allfacts(p):
            if '_propertiesPattern' in show(t) and callname(t):
                ctx.ob(callname(t) == 'search' and strip(t[2][0]) == A1, f.qual, f.where, 'patterns are tested with %s' % show(t))
        for e in p.stores():
            t = strip(e.term)
            if t[0] == 'sub' and t[1] == ('attr', A0, '_items_type_cache'):
                ctx.ob(t[2] == A1 and (strip(e.value) == strip(p.returns) if p.normal else True), f.qual, e.where,
                       'the type cached is not the one of the property')
    behave(ctx, 'Array._items_type', {'list': 'A0._itemsIsList', 'proxy': lambda t: t[0] == 'getattr' or callname(t) in ('getattr', 'hasattr') or t[0] == 'attr' and t[2] == '_proxyUri'},
           lambda e: {'ret': lambda t, p: (match('A0._items[A1]' if e['list'] else 'A0._items', t[1][1] if e['proxy'] and t[0] == 'call' else t)
                                           is not None)}, 'type of an array item')
    # one type per item there is
    for name in ('Array._items_types', 'Object._items_types'):
        f = ctx.func(name)
        for p in ctx.paths(f):
            if not p.normal:
                continue
            said = [unold(p.returns)] + [unold(e.term) for e in p.events] + [unold(e.value) for e in p.events if e.value] + [t for t, _ in allfacts(p)]
            ctx.ob(any(contains(t, A1) for t in said), f.qual, f.where, 'the types of the items are told whatever items there are')
            for t, b in allfacts(p):
                ctx.ob(b or t != A1, f.qual, f.where, 'no types')
    # what fills an object: the names which are not there
    f = ctx.func('Object._deserialize')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind not in ('mutate', 'store') or e.value is None:
                continue
            v = unold(e.value)
            fills = [(x, x[4]) for x in subterms(v) if x[0] == 'comp' and x[1] == 'dict' and any(show(i) in ('<arg 0>._properties', '<arg 0>._propertiesWithDefault', '<arg 0>._properties.keys()') for i in x[3])]
            t = unold(e.term)
            if e.kind == 'store' and t[0] == 'sub' and t[2][0] == 'item' and '<arg 0>._properties' in show(t[2]):
                fills.append((t, [(c, b) for c, b in e.facts if contains(c, t[2])]))
            for x, conds in fills:
                n += 1
                ctx.ob(any(c[0] == 'cmp' and c[1] == 'in' and c[2][0] == 'item' and not b for c, b in conds), f.qual, e.where,
                       'values which were given are replaced when %s' % '; '.join(show(c)[:60] for c, b in conds))
    # the object's own: through the aliases, resolving what is not built yet
    f = ctx.func('ObjectProtocol._items_type')
    AL = 'A0._aliases.get(A1, A1)'
    RAW = 'A0._aliasesNegated.get(%s, %s)' % (AL, AL)
    AL2 = 'A0._aliasesNegated.get(A1, A1)'
    RAW2 = 'A0._aliases.get(%s, %s)' % (AL2, AL2)
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        t = strip(p.returns)
        n += 1
        ok = any(match(q, t) is not None for q in (
            CACHE, 'Object._items_type(A0, %s)' % RAW, 'Object._items_type(A0, %s)' % RAW2,
            'Object._items_type(A0, %s).proxy_type()' % RAW, 'Object._items_type(A0, %s).proxy_type()' % RAW2))
        ctx.ob(ok, f.qual, f.where, 'the type of a property is %s' % show(t))
    ctx.need(2, n, 'returns')


# ------------------------------------------------------------------------------------------ types: calling, evaluating
@rule('P04', 'type-call', 'Calling a type deserializes the value: conversion and validation are on unless turned off by the caller.')
def p04_call(ctx):
    def spec(e):
        v = 'A0._deserialize(A0, A1, ...)' if e['des'] else 'A1'
        return {'ret': 'A0._serialize(A0, %s, ...)' % v if e['ser'] else v}
    behave(ctx, 'Type.__call__', {'des': 'A2', 'ser': 'A3'}, spec, 'calling a type')
    f = ctx.func('Type.__call__')
    for p in ctx.paths(f):
        for e in p.calls('_deserialize'):
            ctx.ob(all(kw(e.term, k) is None for k in ('convert', 'evaluate', 'validate')) and forwards_kwargs(e.term), f.qual, e.where,
                   'options are modified')
    dft = ('attr', A0, '_default')
    for fn in ('Object.__call__', 'Array.__call__'):
        f = ctx.func(fn)
        rest = ('args',)
        for p in ctx.paths(f):
            if not p.normal:
                continue
            t = strip(p.returns)
            ok = t[0] == 'call' and callname(t) in ('__call__',) and len(t[2]) == 2 and t[2][0] == A0 and forwards_kwargs(t)
            ctx.ob(ok, f.qual, f.where, 'calling the type returns %s' % show(t))
            if not ok:
                continue
            given, fs = strip(t[2][1]), allfacts(p)
            none, more = holds(fs, 'A1 is None', True), [b for x, b in fs if strip(x) == rest]
            parts = set(subterms(given))
            if more == [True]:
                want = A1 in parts and any(x[0] == 'star' and strip(x[1]) == rest for x in parts)
            elif none:
                # what is given by keywords, without the options of the call, else the default of the type
                want = dft in parts or ('kwargs',) in parts and given != ('kwargs',)
            else:
                want = given == A1
            ctx.ob(want, f.qual, f.where, 'calling the type with %s deserializes %s' % (
                'several values' if more == [True] else 'no value' if none else 'a value', show(given)))
    behave(ctx, 'Deserializer._deserialize', {'ev': 'A2'},
           lambda e: {'ret': 'A0._validator._evaluate(A0, A1, **KWARGS)' if e['ev'] else 'A1'}, 'deserializing')
    behave(ctx, 'Deserializer.deserialize', {'ev': 'A2'},
           lambda e: {'ret': ['A0._validator._evaluate(A0, A0._deserialize(A0, A1, ..., evaluate=False), ...)',
                              'A0._evaluate(A0, A0._deserialize(A0, A1, ..., evaluate=False), ...)'] if e['ev'] else
                      'A0._deserialize(A0, A1, ..., evaluate=False)'}, 'deserializing')
    behave(ctx, 'Serializer._serialize', {'des': 'A2'},
           lambda e: {'ret': 'A0._deserializer._deserialize(A0, A1, **KWARGS)' if e['des'] else 'A1'}, 'serializing')


def noisy_kw(p, name):
    return None


@rule('P04', 'evaluation', 'Evaluating converts, then validates what was converted and returns it; None stands for a copy of the default.')
def p04_eval(ctx):
    def spec(e):
        if e['none'] and e['nodef']:
            return {'ret': 'None', 'never': ['A0._convert(...)', 'A0._validate(...)']}
        v = 'copy(A0._default)' if e['none'] else 'A1'
        d = [v, 'deepcopy(A0._default)', 'copy.copy(A0._default)', 'copy.deepcopy(A0._default)'] if e['none'] else [v]
        vals = ['A0._convert(A0, %s, ...)' % x for x in d] if e['conv'] else d
        w = {'ret': vals}
        w['must' if e['val'] else 'never'] = [['A0._validate(A0, %s, ..., with_type=False)' % x for x in vals]] if e['val'] else \
            ['A0._validate(...)']
        return w
    f = ctx.func('Validator._evaluate')
    behave(ctx, f, {'none': 'A1 is None', 'nodef': 'A0._default is None', 'conv': 'A2', 'val': 'A3'}, spec, 'evaluation')
    for p in ctx.paths(f):
        for e in p.calls('_convert', '_validate'):
            ctx.ob(forwards_kwargs(e.term), f.qual, e.where, 'options are not passed on')
            ctx.ob(kw(e.term, 'excludes') is None, f.qual, e.where, 'keywords are excluded')
            if callname(e.term) == '_validate':
                i, j = p.events.index(e), [p.events.index(x) for x in p.calls('_convert')]
                ctx.ob(not j or max(j) < i, f.qual, e.where, 'validated before the conversion')
    defaults_on(ctx, 'Validator._evaluate', ('convert', 'validate'))
    defaults_on(ctx, 'Collection._evaluate', ('convert', 'validate', 'items'))
    defaults_on(ctx, 'Deserializer._deserialize', ('evaluate',))
    defaults_on(ctx, 'Deserializer.deserialize', ('evaluate',))
    defaults_on(ctx, 'Type.__call__', ('deserialize',))
    defaults_on(ctx, 'Collection._convert', ('items',))
    defaults_on(ctx, 'Collection._validate', ('items',))
    defaults_on(ctx, 'CollectionProtocol.__init__', ('validate',))
    defaults_on(ctx, 'Validator._errors', ('with_type',))
    for fn in ('Validator.__call__', 'Validator.evaluate'):
        behave(ctx, fn, {}, lambda e: {'ret': 'A0._evaluate(A0, A1, **KWARGS)'}, 'evaluation')
    behave(ctx, 'Validator.validate', {}, lambda e: {'ret': 'A0._validate(A0, A1, with_type=A2, **KWARGS)'}, 'validation')


def defaults_on(ctx, fn, names):
    """Parameters which are true by default."""
    import ast
    f = ctx.func(fn)
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    for n in names:
        if n in d:
            ctx.ob(isinstance(d[n], ast.Constant) and d[n].value is True, f.qual, f.where, '%s is off by default' % n)


@rule('P04', 'errors', 'A value with schema errors is refused: every keyword of the schema that is not excluded is checked and every error '
                       'raises an invalid value.')
def p04_errors(ctx):
    behave(ctx, 'Validator._validate', {'err': lambda t: find('Validator._format_errors(A0, A1, ...)', t) is not None or
                                        find('A0._format_errors(A0, A1, ...)', t) is not None or find('A0._format_errors(A1, ...)', t) is not None},
           lambda e: {'raises': 'InvalidValue'} if e['err'] else {'ret': 'A1'}, 'validation')
    f = ctx.func('Validator._validate')
    for p in ctx.paths(f):
        for e in p.calls('_format_errors'):
            ctx.ob(forwards_kwargs(e.term), f.qual, e.where, 'options are not passed on')
    ERR = ['Validator._errors(A0, A1, **KWARGS)', 'A0._errors(A0, A1, **KWARGS)']
    behave(ctx, 'Validator._format_errors', {'err': ERR},
           lambda e: {'ret': lambda t, p: t[0] not in ('const',) and any(find(q, t) is not None for q in ERR) and t != parse_pattern('""')} if e['err'] else
           {'ret': lambda t, p: t in (NONE, const('')) or any(match(q, t) is not None for q in ERR)}, 'reporting errors')
    f = ctx.func('Validator._errors')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        calls = p.calls('iter_errors')
        ctx.ob(bool(calls), f.qual, f.where, 'the errors are not those of the validator')
        for e in calls:
            c = strip(e.term)
            ctx.ob(strip(receiver(c)) == ('attr', A0, '_jsValidator') and strip(c[2][0]) == A1 and len(c[2]) > 1, f.qual, e.where,
                   'the errors are %s' % show(c)[:120])
            raw = e.term[2][1]
            if schema_is(strip(raw)):
                n += 1
                continue
            parts = contents(p, raw)
            looped = any(t[0] in ('looped', 'loop') and '_schema' in show(t) for t, b in allfacts(p))
            ctx.ob(bool(parts) or not looped and any(t[0] == 'empty' for t, b in allfacts(p)), f.qual, e.where, 'the schema checked is %s' % show(strip(raw))[:120])
            for els, gens, conds, _ in parts:
                n += 1
                ctx.ob(any(schema_is(g) or callname(g) == 'items' and schema_is(receiver(g)) for g in gens), f.qual, e.where,
                       'the schema checked is made of %s' % '; '.join(show(g) for g in gens))
                for x, b in conds:
                    ok = match('k_ in x_', x) is not None and not b
                    ctx.ob(ok, f.qual, e.where, 'keywords are only checked when %s%s' % ('' if b else 'not ', show(x)))
                    if ok:
                        src = strip(x[3])
                        typ = const('type') in list(subterms(src))
                        others = [y for y in subterms(src) if y[0] == 'const' and y not in (const('type'), NONE)]
                        ctx.ob(not others, f.qual, e.where, 'keywords are never checked: %s' % show(src))
                        ctx.ob(not typ or holds(allfacts(p), 'A3', False), f.qual, e.where, 'the type is not checked')
                        ctx.ob(A2 in list(subterms(src)), f.qual, e.where, 'excluded keywords are checked')
        if not any(t[0] == 'empty' and 'iter_errors' in show(t) for t, b in allfacts(p)):
            parts = contents(p, p.returns)
            ctx.ob(bool(parts), f.qual, f.where, 'the errors are not returned')
            for els, gens, conds, _ in parts:
                ctx.ob(any(callname(g) == 'iter_errors' for g in gens), f.qual, f.where, 'the errors are made of something else')
                conds = [c for c in conds if any(x[0] == 'item' and callname(x[1]) == 'iter_errors' for x in subterms(c[0]))]
                ctx.ob(not conds, f.qual, f.where, 'errors are dropped when %s' % '; '.join(('' if b else 'not ') + show(x)[:100] for x, b in conds))
    ctx.need(2, n, 'paths of _errors')


def schema_is(t):
    t = strip(t)
    return match("KWARGS.get('schema', A0._schema)", t) is not None or t == ('attr', A0, '_schema') or \
        match("KWARGS['schema']", t) is not None


# ------------------------------------------------------------------------------------------ collections
def item_loop(ctx, fn, op, source, message, on='A4', off=(), need_kwargs=True):
    """With items on, every included item is replaced by type.op(type, item); only _is_included filters."""
    f = ctx.func(fn)
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        if not any(t[0] in ('looped', 'loop') for t, b in fs):
            continue
        its = [(t, b) for t, b in fs if any(x[0] in ('item', 'index') for x in subterms(t)) and t[0] not in ('looped', 'loop', 'empty')]
        inc = [(t, b) for t, b in its if callname(t) == '_is_included']
        oth = [(t, b) for t, b in its if callname(t) != '_is_included']
        ctx.ob(not oth, f.qual, f.where, '%s: items are left out when %s' % (message, '; '.join(('' if b else 'not ') + show(t)[:100] for t, b in oth)))
        if any(not b for t, b in inc):
            continue
        done = []
        for e in p.calls(op):
            r = receiver(e.term)
            a = strip(e.term)[2]
            if any(x[0] == 'item' for x in subterms(strip(r))) and len(a) > 1 and strip(a[0]) == strip(r):
                done.append(e)
        n += 1
        ctx.ob(bool(done), f.qual, f.where, '%s: an included item is not handed to its type' % message)
        for e in done:
            v = strip(strip(e.term)[2][1])
            ctx.ob(v[0] == 'sub' and any(x[0] == 'item' for x in subterms(v[2])), f.qual, e.where, '%s: the type is given %s' % (message, show(v)[:120]))
            ctx.ob(forwards_kwargs(e.term), f.qual, e.where, '%s: options are not passed on to the items' % message)
            for k in off:
                x = kw(e.term, k)
                ctx.ob(x is None or strip(x) != FALSE, f.qual, e.where, '%s: %s is turned off for the items' % (message, k))
            st = [x for x in p.events if x.kind == 'store' and strip(x.term)[0] == 'sub' and strip(x.value) == strip(e.term)]
            ctx.ob(bool(st), f.qual, e.where, '%s: what the type returns is dropped' % message)
    ctx.ob(n > 0, f.qual, f.where, '%s: no item is treated' % message)


@rule('P04', 'collections', 'Converting, validating, evaluating and deserializing a collection does the same to all of its included items, '
                            'with their own types, and keeps the result.')
def p04_collections(ctx):
    item_loop(ctx, 'Collection._convert', '_convert', None, 'conversion')
    item_loop(ctx, 'Collection._validate', '_validate', None, 'validation')
    item_loop(ctx, 'Collection._deserialize', '_deserialize', None, 'deserialization', off=())
    f = ctx.func('Collection._evaluate')
    n = 0
    for p in ctx.paths(f):
        fs = allfacts(p)
        inc = [b for t, b in fs if callname(t) == '_is_included']
        if not p.normal or not inc or not inc[0]:
            continue
        n += 1
        ev = [e for e in p.calls('_evaluate') if any(x[0] == 'item' for x in subterms(strip(receiver(e.term))))]
        ctx.ob(len(ev) == 1, f.qual, f.where, 'an included item is not evaluated')
        for e in ev:
            ctx.ob(strip(kw(e.term, 'validate') or NONE) == A3, f.qual, e.where, 'items are not validated as asked')
            ctx.ob(any(x.kind == 'store' and strip(x.value) == strip(e.term) for x in p.events), f.qual, e.where, 'the evaluated item is dropped')
    ctx.need(1, n, 'items evaluated')
    behave(ctx, f, {}, lambda e: {'ret': lambda t, p: callname(t) == '_evaluate' and len(t[2]) == 2 and t[2][0] == A0
                                  and strip(kw(t, 'validate') or NONE) == A3 and forwards_kwargs(t)
                                  and callname(strip(t[2][1])) == '_evaluate' and strip(kw(t[2][1], 'convert') or NONE) == A2
                                  and strip(strip(t[2][1])[2][1]) == A1}, 'evaluating a collection')
    behave(ctx, 'Collection._convert', {}, lambda e: {'ret': 'A0._deserializer._convert(A0, A0._collType(A1), **KWARGS)'}, 'conversion')
    behave(ctx, 'Collection._validate', {'items': 'A2'}, lambda e: {
        'ret': 'A0._collType(A0._deserializer._validate(A0, A1, **KWARGS))' if e['items'] else 'A0._deserializer._validate(A0, A1, **KWARGS)'}, 'validation')
    D = ['A0._deserializer._deserialize(A0, ANY, evaluate=False, items=A3, **KWARGS)']
    behave(ctx, 'Collection._deserialize', {'ev': 'A2'}, lambda e: {
        'ret': ['A0._evaluate(A0, %s, items=False, **KWARGS)' % x for x in D] if e['ev'] else D}, 'deserialization')


@rule('P04', 'object-constraints', 'An object with an undeclared name that matches no pattern is refused when additional properties are not '
                                   'allowed; one missing a required name is refused.')
def p04_object(ctx):
    f = ctx.func('Object._validate')
    n = 0
    for p in ctx.paths(f):
        fs = allfacts(p)
        match_ = [b for t, b in fs if callname(t) in ('search', 'match')]
        some = [t for t, b in fs if t[0] in ('loop', 'looped') and '_properties)' in show(t)]
        add = [b for t, b in fs if match('A0._propertiesAdditional', t) is not None]
        if p.outcome[0] == 'raise':
            n += 1
            ctx.ob(exc_name(p.outcome[1]) == 'InvalidValue' and True not in match_ and add == [False], f.qual, f.where,
                   'an object is refused although %s' % '; '.join(('' if b else 'not ') + show(t)[:80] for t, b in fs))
        elif p.normal:
            if some:
                ctx.ob(True in match_ or add == [True], f.qual, f.where, 'an undeclared name is accepted where additional properties are not')
            c = [e for e in p.calls('_validate') if strip(e.term)[2][:2] == (A0, A1)]
            ctx.ob(bool(c) and all(strip(p.returns) == strip(e.term) for e in c[-1:]), f.qual, f.where, 'the rest of the schema is not validated')
            for e in c:
                ex = kw(e.term, 'excludes')
                names = {x[1] for x in subterms(strip(ex)) if x[0] == 'const'} if ex else set()
                allowed = {repr(x) for x in ('required', 'properties', 'propertiesAdditional', 'additionalProperties')}
                ctx.ob(names <= allowed, f.qual, e.where, 'keywords are never validated: %s' % sorted(names - allowed))
                it = kw(e.term, 'items')
                ctx.ob(it is not None and strip(it) == A2, f.qual, e.where, 'the items are not validated as asked')
    ctx.need(1, n, 'refusals')
    for t in [t for p in ctx.paths(f) for t, b in allfacts(p) if t[0] in ('loop', 'looped', 'empty') and '_properties)' in show(t)]:
        ctx.ob(match('set(A1).difference(A0._properties)', t[1]) is not None or '_properties' in show(t), f.qual, f.where,
               'the names looked at are %s' % show(t[1]))
    behave(ctx, 'ObjectDeserializer._validate', {'missing': 'A0._required.difference(A1)'},
           lambda e: {'raises': 'InvalidValue'} if e['missing'] else {'ret': lambda t, p: callname(t) == '_validate' and t[2] == (A0, A1)
                                                                      and forwards_kwargs(t)}, 'required names')


@rule('P04', 'array-constraints', 'An array longer than its maximal size, or with equal items where they must be unique, is refused.')
def p04_array(ctx):
    f = ctx.func('ArrayDeserializer._validate')
    V = lambda t: any(callname(x) == '_validate' for x in subterms(t)) or A1 in list(subterms(t))

    def spec(e):
        if not e['nomax'] and e['toolong'] or e['unique'] and e['dup']:
            return {'raises': 'InvalidValue'}
        return {'ret': lambda t, p: callname(t) == '_validate' and t[2] == (A0, A1) and forwards_kwargs(t)}
    behave(ctx, f, {
        'nomax': 'A0._maxItems is None', 'unique': 'A0._uniqueItems',
        'toolong': lambda t: t[0] == 'cmp' and t[1] in ('lt', 'le', 'eq') and '_maxItems' in show(t),
        'dup': lambda t: callname(t) == 'any' or t[0] == 'cmp' and 'set(' in show(t)}, spec, 'size and uniqueness')
    for p in ctx.paths(f):
        for t, b in allfacts(p):
            if t[0] == 'cmp' and '_maxItems' in show(t) and t[1] not in ('is',):
                ctx.ob(match('A0._maxItems < len(k_)', t) is not None, f.qual, f.where, 'the size is compared by %s' % show(t))
    f = ctx.func('Array._validate')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        c = [e for e in p.calls('_validate') if strip(e.term)[2][:2] == (A0, A1)]
        ctx.ob(bool(c) and strip(p.returns) == strip(c[-1].term), f.qual, f.where, 'the rest of the schema is not validated')
        for e in c:
            ex = kw(e.term, 'excludes')
            names = {x[1] for x in subterms(strip(ex)) if x[0] == 'const'} if ex else set()
            allowed = {repr(x) for x in ('minItems', 'maxItems', 'uniqueItems', 'items')}
            ctx.ob(names <= allowed, f.qual, e.where, 'keywords are never validated: %s' % sorted(names - allowed))


@rule('P04', 'protocols', 'What objects and arrays exclude from validation is what their class declares not validated, nothing else; a value '
                          'is taken as it is only if it is an instance of the class already.')
def p04_protocols(ctx):
    for fn, op in (('CollectionProtocol._convert', '_convert'), ('CollectionProtocol._validate', '_validate'),
                   ('CollectionProtocol._evaluate', '_evaluate')):
        f = ctx.func(fn)
        n = 0
        for p in ctx.paths(f):
            if not p.normal:
                continue
            t = strip(p.returns)
            if t == A1:
                ctx.ob(op == '_evaluate' and holds(allfacts(p), 'isinstance(A1, A0._pyType)', True), f.qual, f.where, 'the value is returned as it is')
                if holds(allfacts(p), "KWARGS.get('validate')", True):
                    ctx.ob(has_event(p, 'A0._validate(A0, A1, ...)'), f.qual, f.where, 'an instance is not validated when asked')
                n += 1
                continue
            n += 1
            ok = t[0] == 'call' and match('A0._collection.%s' % op, t[1]) is not None and t[2] == (A0, A1) and forwards_kwargs(t)
            ctx.ob(ok, f.qual, f.where, 'returns %s' % show(t)[:120])
            if ok:
                ex = kw(t, 'excludes')
                ctx.ob(ex is not None and not [x for x in subterms(strip(ex)) if x[0] == 'const'] and
                       {x[2] for x in subterms(strip(ex)) if x[0] == 'attr'} <= {'_notValidated', 'union'}, f.qual, f.where,
                       'what is excluded is %s' % (show(strip(ex)) if ex else 'not passed on'))
                for k, v in t[3]:
                    if k in ('validate', 'convert', 'evaluate'):
                        ctx.ob(strip(v) != FALSE, f.qual, f.where, '%s is turned off' % k)
        ctx.need(1, n, 'returns')


@rule('P04', 'construction', 'Constructing an object or an array deserializes what is given and validates the result; unless loading is lazy '
                             'all items are evaluated.')
def p04_init(ctx):
    f = ctx.func('CollectionProtocol.__init__')
    atoms = {'validate': 'KW_validate', 'none': 'A1 is None'}
    n = 0
    pos = {a.arg: i for i, a in enumerate(f.node.args.args)}

    def arg(name):
        return ('arg', pos[name]) if name in pos else ('arg', name)
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        st = [e for e in p.stores() if match('A0._data', e.term) is not None]
        ctx.ob(len(st) >= 1 and callname(strip(st[0].value)) == '_deserialize', f.qual, f.where, 'what is given is not deserialized')
        for e in st:
            v = strip(e.value)
            if callname(v) == '_deserialize':
                given = v[2][1] if len(v[2]) > 1 else None
                none = holds(fs, 'A1 is None', True)
                some = [b for t, b in fs if strip(t) == ('kwargs',)]
                ctx.ob(given == A1 and not none or none and (given == ('kwargs',) and True in some or
                                                             given is not None and ('attr', A0, '_default') in set(subterms(given)) and True not in some), f.qual, e.where,
                       'what is deserialized is %s' % (show(given) if given else '?'))
        val = [b for t, b in fs if t == arg('validate')]
        lz = [b for t, b in fs if match('A0._lazyLoading', t) is not None or t == arg('lazyLoading')]
        its = [b for t, b in fs if t == arg('items')]
        done = [e for e in p.calls('_validate') if strip(e.term)[2][:2] == (A0, A0)]
        n += 1
        if val == [True]:
            ctx.ob(bool(done), f.qual, f.where, 'the object is not validated')
        elif not val:
            ctx.ob(bool(done), f.qual, f.where, 'the object may not be validated')
        full = [e for e in p.calls('_collType')]
        none_items = holds(fs, ('cmp', 'is', arg('items'), NONE), True)
        if its == [True] or none_items and lz and lz[-1] is False:
            ctx.ob(bool(full), f.qual, f.where, 'the items are not evaluated although loading is not lazy')
        if its == [False]:
            pass
    ctx.need(4, n, 'paths')


@rule('P04', 'conversion', 'A value of the wanted Python type is kept, any other one is converted by that type or refused with a conversion error.')
def p04_convert(ctx):
    PY = "KWARGS.get('pyType', A0._pyType)"

    def spec(e):
        if e['nopy'] or e['none'] or e['inst']:
            return {'ret': 'A1'}
        if e['failed']:
            return {'raises': 'ConversionError'}
        return {'ret': PY + '(A1)'}
    behave(ctx, 'Converter._convert', {
        'nopy': PY + ' is None', 'none': 'A1 is None', 'inst': 'isinstance(A1, %s)' % PY, 'failed': lambda t: t[0] == 'caught'},
        spec, 'conversion', implicit=True, default={'failed': False})
    f = ctx.func('Converter._convert')
    ctx.ob(not swallowed(ctx.paths(f, implicit=True)), f.qual, f.where, 'a failed conversion is ignored')
    # booleans
    f = ctx.func('Boolean._convert')
    for p in ctx.paths(f):
        fs = allfacts(p)
        if p.normal:
            t = strip(p.returns)
            lower = [(x, b) for x, b in fs if x[0] == 'cmp' and x[1] == 'in']
            if t == A1:
                ctx.ob(holds(fs, 'Boolean.check(A1)', True) or holds(fs, 'isinstance(A1, bool)', True), f.qual, f.where, 'the value is returned as it is')
            elif t == TRUE:
                ctx.ob(any(b and match('A0._TRUES', x[3]) is not None for x, b in lower), f.qual, f.where, 'a text is true although not listed so')
            elif t == FALSE:
                ctx.ob(any(b and match('A0._FALSES', x[3]) is not None for x, b in lower), f.qual, f.where, 'a text is false although not listed so')
            elif any(b and match('A0._TRUES', x[3]) is not None for x, b in lower):
                ctx.ob(False, f.qual, f.where, 'a text listed as true becomes %s' % show(t))
            else:
                ctx.ob(any(b and x[3] in (('list', (const(0), const(1))), ('tuple', (const(0), const(1))), ('set', (const(0), const(1))),
                                          ('list', (const(1), const(0))), ('tuple', (const(1), const(0)))) for x, b in lower), f.qual, f.where,
                       'a number which is neither 0 nor 1 becomes %s' % show(t))
        elif p.outcome[0] == 'raise':
            ctx.ob(exc_name(p.outcome[1]) == 'ConversionError', f.qual, f.where, 'raises %s' % show(strip(p.outcome[1])))
    # enumerations: only members
    f = ctx.func('Enum._convert')
    for p in ctx.paths(f):
        if p.normal:
            t = strip(p.returns)
            fs = allfacts(p)
            member = t[0] == 'sub' and match('A0._enum', t[1]) is not None
            listed = any(b and x[0] == 'cmp' and x[1] == 'in' and x[2] == t and match('A0._enum', x[3]) is not None for x, b in fs)
            ctx.ob(member or listed, f.qual, f.where, '%s is accepted although it may not be in the enumeration' % show(t))
            if member and t[2] != const(0):
                rng = [x for x, b in fs if x[0] == 'cmp' and b and ('_enum' in show(x) and 'len' in show(x))]
                low = [x for x, b in fs if x[0] == 'cmp' and x[2] == const(0) and b or x[0] == 'cmp' and x[3] == const(0) and not b]
                ctx.ob(bool(rng) and bool(low), f.qual, f.where, 'an index out of the enumeration is not refused')
    f = ctx.func('_False._validate')
    for p in ctx.paths(f):
        ctx.ob(p.outcome[0] == 'raise', f.qual, f.where, 'a value of the type that accepts nothing is accepted')


@rule('P04', 'included', 'An item is treated unless excluded, not among those selected, absent, or None where defaults are left out.')
def p04_included(ctx):
    included(ctx)


def included(ctx):
    f = ctx.func('Deserializer._is_included')
    pos = {a.arg: ('arg', i) for i, a in enumerate(f.node.args.args)}
    K, V, EX, ON, ND = (pos[x] for x in ('key', 'value', 'excludes', 'only', 'no_defaults'))
    VK = ('call', ('name', 'getattr'), (V, const('_data'), V), ())

    def isvk(t):
        t = strip(t)
        return t == V or t[0] == 'getattr' and t[1] == V and t[2] in ('_data', const('_data')) or t == ('attr', V, '_data') or \
            t[0] == 'alts' and all(isvk(x) for x in t[1])
    atoms = {
        'excluded': ('cmp', 'in', K, EX), 'only': ON, 'selected': ('cmp', 'in', K, ON),
        'novalue': ('cmp', 'is', V, NONE),
        'text': lambda t: match(('call', ('name', 'isinstance'), (K, ('name', 'str')), ()), t) is not None,
        'haskey': lambda t: t[0] == 'cmp' and t[1] == 'in' and t[2] == K and isvk(t[3]),
        'none': lambda t: t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and t[2] != V,
        'nodef': ND,
    }
    # the index is within the size: two spellings
    def size(t):
        return t[0] == 'cmp' and t[1] != 'in' and 'len(' in show(t) and K in list(subterms(t))
    rows = []
    for p in ctx.paths(f):
        if not p.normal:
            continue
        for fs, v in truths(p):
            env = assign(fs, atoms)
            inside = None
            for t, b in fs:
                if size(t):
                    # canonical form a < b / a <= b
                    if t[2] == K:
                        inside = b if t[1] == 'lt' else None
                    else:
                        inside = (not b) if t[1] == 'le' else None
                    ctx.ob(inside is not None, f.qual, f.where, 'the index is compared by %s' % show(t))
            if inside is not None:
                env['inside'] = inside
            for e in completions(env, list(atoms) + ['inside']):
                if not e['only'] and e['selected']:
                    continue
                # the value looked at is None: the item's, or the missing value itself
                want = not e['excluded'] and not (e['only'] and not e['selected']) and \
                    (e['novalue'] or (e['haskey'] if e['text'] else e['inside'])) and \
                    not (e['nodef'] and (e['novalue'] or e['none']))
                ok = v == want
                ctx.ob(ok, f.qual, f.where, 'an item is %s when %s' % ('included' if v else 'left out', ', '.join(
                    ('' if x else 'not ') + k for k, x in sorted(e.items()))))
                if not ok:
                    break
            rows.append(v)
    ctx.need(6, len(rows), 'rows')
