"""P05: reads are never stale. P06: aliases stand for their property."""
import ast
from ..core import rule
from ..lib import *
from . import _build

A0, A1, A2 = ('arg', 0), ('arg', 1), ('arg', 2)
RESETS = {'_items_touch', '_touch', '_set_data'}


def resets(p, obj):
    ev = [e for e in p.calls(*RESETS) if receiver(e.term) == obj or strip(e.term)[2][:1] == (obj,)]
    a = {strip(e.term)[2] for e in p.stores() if strip(e.term)[0] == 'attr' and strip(e.term)[1] == obj and strip(e.value) == NONE}
    return bool(ev) or {'_repr', '_str'} <= a


# ------------------------------------------------------------------------------------------ P05
@rule('P05', 'touch', 'Touching a collection forgets its cached representation and text.')
def p05_touch(ctx):
    f = ctx.func('CollectionProtocol._touch')
    for p in ctx.paths(f):
        for a in ('_repr', '_str'):
            ctx.ob(any(e.kind == 'store' and strip(e.term) == ('attr', A0, a) and strip(e.value) == NONE for e in p.events), f.qual, f.where,
                   '%s is not forgotten' % a)
    for fn in ('ObjectProtocol._touch', 'ArrayProtocol._touch'):
        f = ctx.func(fn)
        for p in ctx.paths(f):
            if p.normal:
                ctx.ob(any(strip(e.term)[2][:1] == (A0,) for e in p.calls('_touch')) or resets(p, A0), f.qual, f.where,
                       'the cached texts are not forgotten')
                for a in ('_dataValidated', '_itemsInputs'):
                    st = [e for e in p.stores() if strip(e.term) == ('attr', A0, a)]
                    ctx.ob(bool(st), f.qual, f.where, '%s is not allocated again' % a)
                for e in p.stores():
                    if strip(e.term) == ('attr', A0, '_dataValidated'):
                        ctx.ob(fresh(p, e.value), f.qual, e.where, 'evaluated values are kept')


def fresh(p, v):
    """A new collection of None, one for each stored value."""
    t = strip(v)
    if t[0] == 'bin' and t[1] == 'Mult' and t[2] == ('list', (NONE,)) and find('A0._data', t[3]) is not None:
        return True
    if callname(t) == 'fromkeys':
        return find('A0._data', t) is not None and (len(t[2]) == 1 or t[2][1] == NONE)
    parts = contents(p, v)
    return bool(parts) and all(els[-1] == NONE and any(find('A0._data', g) is not None for g in gens) and not conds
                               for els, gens, conds, _ in parts) or any(x[0] == 'empty' for x, b in allfacts(p))


@rule('P05', 'item-touch', 'Outdating an item forgets the cached texts, its evaluated value and its recorded inputs, and outdates all the '
                           'items that depend on it.')
def p05_itemtouch(ctx):
    f = ctx.func('CollectionProtocol._items_touch')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        ctx.ob(resets_directly(p), f.qual, f.where, 'the cached texts are not forgotten')
        ctx.ob(any(e.kind == 'store' and match('A0._dataValidated[A1]', e.term) is not None and strip(e.value) == NONE for e in p.events),
               f.qual, f.where, 'the evaluated value is not forgotten')
        fs = allfacts(p)
        its = item_facts(fs)
        if any(t[0] in ('looped', 'loop') for t, b in fs):
            dep = [b for t, b in its if t[0] == 'cmp' and t[1] == 'in' and t[2] == A1]
            oth = [(t, b) for t, b in its if not (t[0] == 'cmp' and t[1] == 'in' and t[2] == A1)]
            ctx.ob(not oth, f.qual, f.where, 'dependent items are only outdated when %s' % '; '.join(show(t) for t, b in oth))
            ctx.ob(any(find('A0._dependencies', t) is not None for t, b in fs if t[0] in ('looped', 'loop')), f.qual, f.where,
                   'the items looked at are not those of the dependencies')
            if dep != [False]:
                n += 1
                rec = [e for e in p.calls('_items_touch') if receiver(e.term) == A0 and any(x[0] == 'item' for x in subterms(strip(e.term)[2]))]
                ctx.ob(bool(rec), f.qual, f.where, 'a dependent item is not outdated')
    ctx.need(1, n, 'dependents')
    for f in functions(ctx.repo):
        if f.name != '_items_touch' or f.cls is None or f.cls.name == 'CollectionProtocol':
            continue
        for p in ctx.paths(f):
            if not p.normal:
                continue
            base = any(strip(e.term)[2] == (A0, A1) for e in p.calls('_items_touch'))
            ctx.ob(base or has_event(p, 'A0._dataValidated[A1] := None'), f.qual, f.where, 'the item is not outdated')
            ctx.ob(base or resets_directly(p), f.qual, f.where, 'the cached texts are not forgotten')
            ctx.ob(base or any(e.kind in ('store', 'del', 'mutate') and '_itemsInputs' in show(strip(e.term)) for e in p.events), f.qual, f.where,
                   'the recorded inputs are not forgotten')
            ctx.ob(base or any(t[0] in ('looped', 'loop', 'empty') and find('A0._dependencies', t) is not None for t, b in allfacts(p)), f.qual, f.where,
                   'the dependent items are not outdated')


def resets_directly(p):
    ev = [e for e in p.calls('_touch') if receiver(e.term) == A0 or strip(e.term)[2][:1] == (A0,)]
    a = {strip(e.term)[2] for e in p.stores() if strip(e.term)[0] == 'attr' and strip(e.term)[1] == A0 and strip(e.value) == NONE}
    return bool(ev) or {'_repr', '_str'} <= a


@rule('P05', 'writes', 'Every accessor that changes the stored values outdates what was computed from them.')
def p05_writes(ctx):
    n = 0
    for fn, obj, key in (('PropertyDescriptor.__set__', A1, ('attr', A0, 'pname')), ('PropertyDescriptor.__delete__', A1, None),
                         ('ObjectProtocol.__setitem__', A0, A1), ('ObjectProtocol.__delitem__', A0, None),
                         ('CollectionProtocol.__setitem__', A0, A1), ('CollectionProtocol.__delitem__', A0, None),
                         ('ArrayProtocol.insert', A0, None)):
        f = ctx.func(fn)
        for p in ctx.paths(f):
            if not p.normal:
                continue
            w = [e for e in p.events if e.kind in ('store', 'del', 'mutate') and any(
                x == ('attr', obj, '_data') for x in subterms(unold(e.term)))]
            if not w and not p.calls('_set_data'):
                continue
            n += 1
            ctx.ob(resets(p, obj), f.qual, (w or p.events)[-1].where, 'the cached texts are not forgotten')
            if key is not None and w:
                # the evaluated value is outdated or replaced
                ok = any(strip(e.term)[2][:1] == (key,) for e in p.calls('_items_touch', '_set_dataValidated', '_set_data')) or any(
                    e.kind == 'store' and strip(e.term) == ('sub', ('attr', obj, '_dataValidated'), key) for e in p.events)
                ctx.ob(ok, f.qual, w[-1].where, 'the value evaluated before is kept')
            if key is None:
                # the three stores stay aligned
                for a in ('_dataValidated', '_itemsInputs'):
                    ctx.ob(any(e.kind in ('store', 'del', 'mutate') and any(x == ('attr', obj, a) for x in subterms(unold(e.term)))
                               for e in p.events), f.qual, w[-1].where if w else f.where, '%s keeps an entry for another item' % a)
    ctx.need(7, n, 'writes')
    behave(ctx, 'CollectionProtocol._set_data', {
        'primitive': 'A0._items_type(A0, A1).is_primitive()',
        'same': lambda t: t[0] == 'cmp' and t[1] in ('eq', 'is') and A2 in t and find('A0._data', t) is not None},
        lambda e: {'must': ['A0._items_touch(A1)'] if not (e['primitive'] and e['same']) else [], 'ret': 'None'}, 'recording a value')


@rule('P05', 'expressions', 'Recording an evaluated value keeps the expression or template it was evaluated from, and replaces any other raw value.')
def p05_validated(ctx):
    behave(ctx, 'CollectionProtocol._set_dataValidated', {
        'primitive': 'A0._items_type(A0, A1).is_primitive()', 'pattern': 'Pattern.check(A0._data[A1])', 'expr': 'Expr.check(A0._data[A1])'},
        lambda e: {'never': ['A0._data[A1] := ']} if e['primitive'] and (e['pattern'] or e['expr']) else {'must': ['A0._data[A1] := A2']},
        'recording an evaluated value')


@rule('P05', 'outdated', 'A value is outdated if it was never evaluated or if its current inputs are not those recorded when it was.')
def p05_outdated(ctx):
    ps = ctx.paths('CollectionProtocol._is_outdated')
    bool_table(ctx, ps, {
        'noeval': 'A0._dataValidated[A1] is None', 'nodata': 'A0._data[A1] is None',
        'same': lambda t: t[0] == 'cmp' and t[1] == 'eq' and '_itemsInputs' in show(t) and find('A0._items_inputs_evaluate(A1)', t) is not None},
        lambda e: e['noeval'] and not e['nodata'] or not e['same'], 'CollectionProtocol._is_outdated', 'being outdated')


@rule('P05', 'inputs', 'The inputs of an item are the values of all the items it depends on, declared or used by its expression.')
def p05_inputs(ctx):
    f = ctx.func('CollectionProtocol._items_inputs_evaluate')
    T = 'A0._items_type(A0, A1)'
    kinds = set()
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        parts = contents(p, p.returns)
        prim, raw = holds(fs, T + '.is_primitive()', True), holds(fs, T + '._rawLiterals', False)
        dep = [strip(t) for t, b in fs if t[0] in ('looped', 'loop') and find('A0._dependencies', t) is not None]
        exp = [strip(t) for t, b in fs if t[0] in ('looped', 'loop') and find(T + '._inputs(...)', t) is not None]
        exp0 = [t for t, b in fs if t[0] == 'empty' and find(T + '._inputs(...)', t) is not None]
        if any(t[0] == 'caught' for t, b in fs):
            continue
        got = set()
        for els, gens, conds, ev in parts:
            v = els[-1]
            ok = v[0] == 'sub' and v[1] == A0 and v[2][0] == 'item' and els[0] == v[2]
            ctx.ob(ok, f.qual, ev.where if ev else f.where, 'an input is recorded as %s' % show(v)[:100])
            if ok:
                src = v[2][1]
                got.add('dep' if find('A0._dependencies', src) is not None else 'exp' if find(T + '._inputs(%s, A0._data[A1])' % T, src) is not None else '?')
            declared = ok and find('A0._dependencies', v[2][1]) is not None
            bad = [c for c in conds if declared or T[:12] not in show(c[0])]
            ctx.ob(not bad, f.qual, ev.where if ev else f.where, 'an input is left out when %s' % '; '.join(show(x) for x, b in bad))
        ctx.ob('?' not in got, f.qual, f.where, 'inputs come from somewhere else')
        none = [t for t, b in fs if t[0] == 'empty' and find('A0._dependencies', t) is not None]
        ctx.ob(dep or none or 'dep' in got, f.qual, f.where, 'the items depended on are not looked at when %s' % '; '.join(
            '%s is %s' % (show(t)[:60], b) for t, b in fs if find('A0._dependencies', t) is None))
        if dep:
            ctx.ob('dep' in got, f.qual, f.where, 'the items depended on are not recorded')
        if prim and raw:
            ctx.ob('exp' in got or bool(exp0), f.qual, f.where, 'the items used by the expression are not recorded')
        kinds |= got
    ctx.ob({'dep', 'exp'} <= kinds, f.qual, f.where, 'the inputs recorded are %s' % sorted(kinds))


@rule('P05', 'property-read', 'Reading a property that is outdated runs its getter, evaluates it and records the inputs it was evaluated with.')
def p05_read(ctx):
    def spec(e):
        if e['owner']:
            return None
        must = []
        if e['outdated'] or e['get'] and e['none']:
            must += ['A1._itemsInputs[A0.pname] := A1._items_inputs_evaluate(A0.pname)',
                     'A1._set_dataValidated(A0.pname, A1._items_evaluate(A0.pname, ...))']
            if e['get']:
                must += ['A1._set_data(A0.pname, A0.fget(A1))']
        return {'must': must, 'ret': lambda t, p: unold(t) == ('sub', ('attr', A1, '_dataValidated'), ('attr', A0, 'pname'))}
    f = ctx.func('PropertyDescriptor.__get__')
    ps = behave(ctx, f, {'owner': 'A1 is None', 'outdated': 'A1._is_outdated(A0.pname)', 'get': 'A0.fget',
                         'none': 'A1._dataValidated.get(A0.pname) is None'}, spec, 'reading a property',
                skip=lambda p: any(x[0][0] == 'caught' for x in p.facts))
    for p in ps:
        for e in p.calls('_items_evaluate'):
            later = [x for x in p.calls('_set_data') if p.events.index(x) > p.events.index(e)]
            ctx.ob(not later, f.qual, e.where, 'evaluated before the getter')


@rule('P05', 'item-read', 'Reading an item of an object or array evaluates it again when it is outdated; names without value raise a key error.')
def p05_item(ctx):
    f = ctx.func('ObjectProtocol.__getitem__')
    n = m = 0
    for p in ctx.paths(f):
        fs = allfacts(p)
        if holds(fs, "'.' in A1", True) or holds(fs, 'A1', False) or any(t[0] == 'caught' for t, b in fs):
            continue
        if not p.normal:
            if p.outcome[0] == 'raise' and exc_name(p.outcome[1]) == 'KeyError':
                m += 1
                ctx.ob(any(t[0] == 'cmp' and t[1] == 'in' and not b and match('A0._data', t[3]) is not None for t, b in fs), f.qual, f.where,
                       'a key error is raised although the name has a value')
            continue
        t = strip(p.returns)
        while t[0] == 'neg':
            t = t[1]
        if callname(t) == '__get__':
            ctx.ob(t[2][:1] == (A0,), f.qual, f.where, 'the descriptor is read on %s' % show(t))
            continue
        n += 1
        key = t[2] if t[0] == 'sub' and unold(t[1]) == ('attr', A0, '_dataValidated') else None
        if key is None:
            ctx.ob(callname(t) == '_items_evaluate', f.qual, f.where, 'returns %s' % show(t))
            continue
        ctx.ob(not any(match(q, x) is not None and not b for x, b in fs for q in ('k_ in A0._data',) if False), f.qual, f.where, '')
        current = any(callname(x) == '_is_outdated' and x[2] == (key,) and not b for x, b in fs)
        done = any(strip(e.term)[2] == (key, ('call', ('attr', A0, '_items_evaluate'), (key,), ())) for e in p.calls('_set_dataValidated'))
        ctx.ob(current or done, f.qual, f.where, 'the value returned may be stale')
        if done:
            ctx.ob(any(e.kind == 'store' and strip(e.term) == ('sub', ('attr', A0, '_itemsInputs'), key) for e in p.events), f.qual, f.where,
                   'the inputs of the value are not recorded')
    ctx.need(2, n, 'values read')
    ctx.need(1, m, 'missing names')


@rule('P05', 'slices', 'A slice of an array is made of its items, read one by one.')
def p05_slices(ctx):
    n = 0
    for f in functions(ctx.repo):
        if f.name != '__getitem__' or f.cls is None or not (f.cls.name == 'CollectionProtocol' or any(b.name == 'CollectionProtocol' for b in ctx.repo.mro(f.cls))):
            continue
        for p in ctx.paths(f):
            if not p.normal or not any(callname(t) == 'isinstance' and t[2][0] == A1 and 'slice' in show(t[2][1]) and b for t, b in allfacts(p)):
                continue
            n += 1
            t = unold(strip(p.returns))
            els = [y for x in contents(p, p.returns) or () for y in x[0]] or [x for x in subterms(t) if x[0] == 'sub' and x[1] == A0]
            ok = bool(els) and all(unold(strip(x)) == ('sub', A0, unold(strip(x))[-1]) or callname(x) == '__getitem__' for x in els)
            ok = ok or any(y[0] in ('empty',) for y, b in allfacts(p))
            ctx.ob(ok, f.qual, f.where, 'a slice is %s' % show(t)[:100])
            idx = [y for x in els for y in subterms(unold(strip(x))) if callname(y) == 'indices' or y == A1]
            ctx.ob(bool(idx) or any(y[0] in ('empty',) for y, b in allfacts(p)), f.qual, f.where, 'the items of the slice are not those asked for')
    ctx.need(1, n, 'slices of arrays')


@rule('P05', 'texts', 'The representation and text of a collection are computed from its current values when they are not cached, cached otherwise.')
def p05_texts(ctx):
    for fn, a in (('ObjectProtocol.__repr__', '_repr'), ('ObjectProtocol.__str__', '_str'), ('ArrayProtocol._str_list', '_str')):
        f = ctx.func(fn)
        behave(ctx, f, {'none': 'A0.%s is None' % a}, lambda e: {
            'must': ['A0.%s := ' % a] if e['none'] else [], 'ret': lambda t, p: unold(t) == ('attr', A0, a) or any(
                strip(x.value) == t for x in p.stores() if strip(x.term) == ('attr', A0, a))}, 'text')
        for p in ctx.paths(f):
            for e in p.stores():
                if strip(e.term) == ('attr', A0, a) and not any(t[0] == 'empty' for t, b in allfacts(p)):
                    both = ' '.join(show(strip(x.term)) for x in p.events if not is_log(x))
                    ctx.ob('_dataValidated' in both and '._data' in both, f.qual, e.where, 'the text is not made of the values')


@rule('P05', 'size', 'The size and the keys of a collection are those of its stored values.')
def p05_size(ctx):
    for fn, pats in (('ObjectProtocol.__len__', ['len(A0._dataValidated)', 'len(A0._data)', 'len(A0._dataValidated.keys())', 'len(A0._data.keys())']),
                     ('ArrayProtocol.__len__', ['len(A0._dataValidated)', 'len(A0._data)'])):
        behave(ctx, fn, {}, lambda e: {'ret': pats}, 'size')
    f = ctx.func('ObjectProtocol.__iter__')
    for p in ctx.paths(f):
        ctx.ob(p.returns is not None and any(find(q, p.returns) is not None for q in ('A0._dataValidated', 'A0._data')) or any(
            e.kind == 'yield' for e in p.events), f.qual, f.where, 'the keys are not those of the values')


@rule('P05', 'dependencies', 'A class depends on what its schema, its bases and the schemas it extends declare.')
def p05_deps(ctx):
    _build.inherits(ctx, '_dependencies', 'dependencies', allow=lambda m: 'only one of its elements is kept' in m)


@rule('P05', 'accessors', 'An item computed from others, as its accessor declares, is outdated with them: what is declared is recorded on the accessor, read when the class is '
      'built, and no constructor forgets it.')
def p05_accessors(ctx):
    f = ctx.func('depend_on_prop')
    given = f.node.args.vararg.arg if f.node.args.vararg else None
    marks = set()
    inner = [g for g in ctx.repo.all_functions(nested=True) if g.module is f.module and g.qual.startswith(f.qual + '.<locals>.') and len(g.node.args.args) == 1]
    for g in inner:
        for p in ctx.paths(g):
            here = set()
            for e in p.events:
                t, v = e.term, e.value
                if e.kind == 'store' and t[0] == 'attr' and unold(strip(t[1])) == ('arg', 0):
                    here.add((t[2], any(y == ('name', given) for y in subterms(v))))
                elif e.kind == 'call' and callname(t) in ('setattr', '__setattr__') and len(t[2]) == 3 and t[2][1][0] == 'const':
                    here.add((t[2][1][1], any(y == ('name', given) for y in subterms(t[2][2]))))
            ctx.ob(any(ok for m, ok in here), g.qual, g.where, 'the names given are not recorded on what is decorated')
            marks |= {m for m, ok in here if ok}
            ctx.ob(p.returns is not None and any(unold(y) == ('arg', 0) for y in subterms(p.returns)), g.qual, g.where, 'what is decorated is not returned')
    ctx.ob(bool(inner) and bool(marks), f.qual, f.where, 'the names given are not recorded on what is decorated')
    b = ctx.func('ObjectProtocol.build')
    up = {}
    for x in ast.walk(b.node):
        for y in ast.iter_child_nodes(x):
            up[y] = x

    def reads(x):
        return isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in marks or isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'getattr' and len(x.args) >= 2 \
            and isinstance(x.args[1], ast.Constant) and x.args[1].value in marks
    # functions of the module which read the mark of what they are given
    readers = {g.name for g in ctx.repo.all_functions(nested=False) if g.module is b.module and g is not b and any(reads(x) for x in ast.walk(g.node))}
    found = [x for x in ast.walk(b.node) if reads(x) or isinstance(x, ast.Call) and (getattr(x.func, 'id', None) or getattr(x.func, 'attr', None)) in readers]
    ctx.ob(bool(found), b.qual, b.where, 'what accessors declare is not read')
    n = 0
    for x in found:
        names, todo = set(), [x]
        loops, ifs, used = [], [], []
        y = x
        while y is not b.node:
            y = up[y]
            if isinstance(y, ast.stmt) and not used:
                used.append(y)
                if isinstance(y, ast.Assign):
                    names |= {z.id for t in y.targets for z in ast.walk(t) if isinstance(z, ast.Name)}
                elif isinstance(y, ast.For):
                    names |= {z.id for z in ast.walk(y.target) if isinstance(z, ast.Name)}
            if isinstance(y, ast.For):
                loops.append(y)
        prefixes = [l for l in loops if any(isinstance(z, ast.Constant) and z.value in ('get', 'set', 'del') for z in ast.walk(l.iter))]
        for l in prefixes:
            ctx.ob({z.value for z in ast.walk(l.iter) if isinstance(z, ast.Constant)} >= {'get', 'set', 'del'}, b.qual, b.module.relpath + ':%d' % l.lineno, 'some accessors are not looked at')
        loopnames = {z.id for l in loops for z in ast.walk(l.target) if isinstance(z, ast.Name)}
        sinks = []
        for z in ast.walk(b.node):
            src = key = None
            if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ('update', 'add') and isinstance(z.func.value, ast.Subscript):
                src, key = z.args, z.func.value
            elif isinstance(z, ast.AugAssign) and isinstance(z.op, ast.BitOr) and isinstance(z.target, ast.Subscript):
                src, key = [z.value], z.target
            elif isinstance(z, ast.Assign) and len(z.targets) == 1 and isinstance(z.targets[0], ast.Subscript):
                src, key = [z.value], z.targets[0]
            if src and any(w is x or isinstance(w, ast.Name) and w.id in names for v in src for w in ast.walk(v)) and isinstance(key.value, ast.Name) and key.value.id in depends(b.node):
                sinks.append((z, key))
        ctx.ob(bool(sinks), b.qual, b.module.relpath + ':%d' % x.lineno, 'what an accessor declares is not added to the dependencies')
        fun = {w.id for w in ast.walk(x) if isinstance(w, ast.Name)} | names
        for z, key in sinks:
            n += 1
            ctx.ob(isinstance(key.slice, ast.Name) and key.slice.id in loopnames, b.qual, b.module.relpath + ':%d' % z.lineno, 'what an accessor declares is added to another property')
            y = z
            while y is not b.node and y not in loops:
                last, y = y, up[y]
                if isinstance(y, ast.If):
                    ns = {w.id for w in ast.walk(y.test) if isinstance(w, ast.Name)}
                    neg = isinstance(y.test, ast.UnaryOp) and isinstance(y.test.op, ast.Not) or any(isinstance(w, ast.Is) for w in ast.walk(y.test))
                    ctx.ob(ns <= fun and (last in y.body) != neg, b.qual, b.module.relpath + ':%d' % y.lineno, 'what an accessor declares is only added when %s' % ast.unparse(y.test)[:80])
    ctx.need(1, n, 'declarations of accessors')
    n = 0
    for g in ctx.repo.all_functions(nested=False):
        if not any(isinstance(x, ast.Attribute) and x.attr == '_dependencies' and isinstance(x.ctx, ast.Store) for x in ast.walk(g.node)):
            continue
        for p in ctx.paths(g):
            for e in p.events:
                if e.kind == 'store' and e.term[0] == 'attr' and e.term[2] == '_dependencies':
                    n += 1
                    o = unold(strip(e.term[1]))
                    kept = any(y[0] == 'attr' and y[2] == '_dependencies' and any(unold(z) == o for z in subterms(y[1])) for y in subterms(e.value))
                    asked = any(y[0] == 'arg' and y != o and any(full_(t) == y and b for t, b in allfacts(p)) for y in subterms(e.value))
                    ctx.ob(kept or asked, g.qual, e.where, 'the dependencies of the class are forgotten: %s' % show(e.value)[:80])
    ctx.need(2, n, 'changes of the dependencies')


def full_(t):
    return unold(strip(t))


def depends(node):
    """The variables which become the dependencies of the class."""
    for x in ast.walk(node):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == '_dependencies' for t in x.targets):
            return {w.id for w in ast.walk(x.value) if isinstance(w, ast.Name)}
    return set()


@rule('P05', 'failing', 'A read that fails raises; what is read is never replaced silently.')
def p05_swallow(ctx):
    for fn in ('PropertyDescriptor.__get__', 'CollectionProtocol.__getitem__', 'CollectionProtocol._items_evaluate'):
        f = ctx.func(fn)
        ctx.ob(not swallowed(ctx.paths(f, implicit=True)), f.qual, f.where, 'an error is caught and ignored')


# ------------------------------------------------------------------------------------------ P06
MAPS = ('_aliases', '_aliasesNegated', '_propertiesTranslation')


def peel(t):
    """(name, layers): what a resolved name was made from, and the maps it went through."""
    t = strip(t)
    layers = set()
    while True:
        if t[0] == 'call' and callname(t) == 'get' and t[2] and receiver(t)[0] == 'attr' and receiver(t)[1] == A0 and receiver(t)[2] in MAPS:
            layers.add(receiver(t)[2])
            t = t[2][0]
        elif t[0] == 'sub' and t[1][0] == 'attr' and t[1][1] == A0 and t[1][2] in MAPS:
            layers.add(t[1][2])
            t = t[2]
        elif t[0] == 'sub' and callname(t[1]) == '_properties_raw_trans' and t[2] == const(0):
            layers |= set(MAPS)
            t = t[1][2][0]
        else:
            return t, layers


def resolved(ctx, f, p, key, where, need=('_aliases', '_aliasesNegated')):
    base, layers = peel(key)
    fs = allfacts(p)
    ctx.ob(base == A1, f.qual, where, 'the name looked up is %s' % show(strip(key))[:160])
    for m in need:
        out = any(t[0] == 'cmp' and t[1] == 'in' and match('A0.%s' % m, t[3]) is not None and not b for t, b in fs)
        ctx.ob(m in layers or out, f.qual, where, 'the name is looked up without going through %s' % m)


@rule('P06', 'read', 'Reading an alias, as an attribute or an item, reads the property it stands for; reading a negated alias, and nothing '
                     'else, negates the value.')
def p06_read(ctx):
    NEG = 'A1 in A0._aliasesNegated'
    for fn in ('ObjectProtocol.__getattr__', 'ObjectProtocol.__getitem__'):
        f = ctx.func(fn)
        n = 0
        for p in ctx.paths(f):
            if not p.normal:
                continue
            fs = allfacts(p)
            t = strip(p.returns)
            if t == NONE or callname(t) == '__getattribute__' or holds(fs, "'.' in A1", True) or match('A0._parent', t) is not None:
                continue
            if callname(t) == '__get__' and match('A0._relationshipsDescriptor.get(A1)', receiver(t)) is not None:
                continue
            flips = 0
            while t[0] == 'neg' or callname(t) == 'neg':
                t, flips = t[1] if t[0] == 'neg' else t[2][0], flips + 1
            yes, no = holds(fs, NEG, True), holds(fs, NEG, False)
            n += 1
            ctx.ob(flips == 1 and yes or flips == 0 and no, f.qual, f.where, 'the value is %s although the name is%s' % (
                'negated' if flips % 2 else 'not negated', ' not known to be a negated alias' if flips else ' not known not to be a negated alias'))
            if callname(t) == '__get__':
                r = strip(receiver(t))
                ok = callname(r) == 'get' and receiver(r)[0] == 'attr' and receiver(r)[2] in ('_propertiesDescriptor', '_relationshipsDescriptor')
                ctx.ob(ok, f.qual, f.where, 'read through %s' % show(r)[:120])
                if ok:
                    resolved(ctx, f, p, r[2][0], f.where)
            elif t[0] == 'sub':
                resolved(ctx, f, p, t[2], f.where)
        ctx.need(4, n, 'values')


@rule('P06', 'write', 'Assigning an alias assigns the property it stands for; assigning a negated alias, and nothing else, assigns the opposite.')
def p06_write(ctx):
    NEG = 'A1 in A0._aliasesNegated'
    f = ctx.func('ObjectProtocol.__setitem__')
    n = 0
    for p in ctx.paths(f):
        fs = allfacts(p)
        if holds(fs, "'.' in A1", True):
            continue
        vals = [(e, strip(e.term)[2][1]) for e in p.calls('__set__')] + \
            [(e, strip(e.value)) for e in p.stores() if match('A0._data[k_]', e.term) is not None and strip(e.value)[0] != 'old']
        for e, v in vals:
            flips = 0
            while v[0] == 'neg' or callname(v) == 'neg':
                v, flips = v[1] if v[0] == 'neg' else v[2][0], flips + 1
            n += 1
            ctx.ob(v == A2, f.qual, e.where, 'the value assigned is %s' % show(v))
            ctx.ob(flips == 1 and holds(fs, NEG, True) or flips == 0 and holds(fs, NEG, False), f.qual, e.where,
                   'the value assigned is %snegated' % ('' if flips % 2 else 'not '))
        for e in p.calls('__set__'):
            r = strip(receiver(e.term))
            if callname(r) == 'get':
                resolved(ctx, f, p, r[2][0], e.where)
    ctx.need(4, n, 'values')


@rule('P06', 'names', 'A name stands for the property of that name, else the property it is a translation of, else the property it is an alias '
                      'of, else for itself if additional properties are allowed.')
def p06_names(ctx):
    f = ctx.func('ObjectProtocol._properties_raw_trans')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        t = strip(p.returns)
        n += 1
        cache = [x for e in p.events for y in (e.term, e.value) if y is not None for x in subterms(y) if x[0] == 'attr' and 'raw_trans' in x[2] and x[1] == A0]
        ctx.ob(not cache or any('__dict__' in show(x) or callname(x) == 'vars' for x, b in fs), f.qual, f.where, 'what is remembered is that of another class')
        if t[0] != 'tuple':
            ctx.ob(t[0] in ('call', 'sub') and '__properties_raw_trans' in show(t) and A1 in list(subterms(t)), f.qual, f.where, 'returns %s' % show(t))
            continue
        raw = t[1][0]
        base, layers = peel(raw)
        prop = holds(fs, 'A1 in A0._properties', True)
        if raw == A1:
            ctx.ob(prop or holds(fs, 'A0._propertiesAdditional', True) and not_alias(fs), f.qual, f.where,
                   'a name which may be an alias, or not allowed, stands for itself')
        elif raw == NONE:
            ctx.ob(holds(fs, 'A0._propertiesAdditional', False) and not_alias(fs) and holds(fs, 'A1 in A0._properties', False), f.qual, f.where,
                   'a name which may be known is not resolved')
        elif base == A1:
            ctx.ob(layers <= {'_aliases', '_aliasesNegated'} and len(layers) == 1, f.qual, f.where, 'the name stands for %s' % show(raw))
            ctx.ob(holds(fs, 'A1 in A0._properties', False), f.qual, f.where, 'an alias hides a property')
        else:
            # an item of the translation which the name was found in
            ctx.ob(raw[0] == 'sub' and match('A0._propertiesTranslation', raw[1]) is not None and raw[2][0] == 'item' and any(
                b and x[0] == 'cmp' and x[1] in ('in', 'eq') and x[2] == A1 or b and x[0] == 'cmp' and x[1] == 'eq' and A1 in x for x, b in fs), f.qual, f.where,
                'the name stands for %s' % show(raw))
        for e in p.stores():
            x = strip(e.term)
            if x[0] == 'sub' and '__properties_raw_trans' in show(x[1]):
                ctx.ob(x[2] == A1 and strip(e.value) == t, f.qual, e.where, 'what is remembered for the name is not what it stands for')
    ctx.need(6, n, 'returns')


def not_alias(fs):
    return all(any(match(q % m, t) is not None and not b for t, b in fs for q in ('A0.%s.get(A1)', 'A1 in A0.%s')) for m in ('_aliases', '_aliasesNegated'))


@rule('P06', 'type', 'The type of an alias is the type of its property.')
def p06_type(ctx):
    f = ctx.func('ObjectProtocol._items_type')
    n = 0
    for p in ctx.paths(f):
        for e in p.calls('_items_type'):
            n += 1
            resolved(ctx, f, p, strip(e.term)[2][1], e.where)
    ctx.need(1, n, 'lookups')


@rule('P06', 'construction', 'Values given under aliases when constructing are those of the properties, negated for negated aliases.')
def p06_construction(ctx):
    f = ctx.func('ObjectProtocol._deserialize')
    seen = {}
    for p in ctx.paths(f):
        if not p.normal:
            continue
        upd = []
        for e in p.events:
            if e.kind == 'mutate' and callname(e.value) == 'update':
                upd += [(x, e) for a in e.value[2] for x in contents(p, a)]
            if e.kind == 'store' and strip(e.term)[0] == 'sub':
                upd.append(((( strip(e.term)[2], strip(e.value)), loops_of(e.facts), item_facts(e.facts), e), e))
        for (els, gens, conds, _), e in upd:
            for m in ('_aliases', '_aliasesNegated'):
                if not any(match('A0.%s' % m, g) is not None or match('A0.%s.items()' % m, g) is not None or find('A0.%s' % m, g) is not None for g in gens):
                    continue
                k, v = els[0], els[-1]
                flips = 0
                while v[0] == 'neg' or callname(v) == 'neg':
                    v, flips = v[1] if v[0] == 'neg' else v[2][0], flips + 1
                seen[m] = True
                ctx.ob(k[0] == 'sub' and k[2][0] == 'item' and match('A0.%s' % m, k[1]) is not None, f.qual, e.where, 'the property is %s' % show(k))
                ctx.ob(callname(v) == 'pop' and v[2] and v[2][0][0] == 'item' or v[0] == 'sub' and v[2][0] == 'item', f.qual, e.where, 'the value is %s' % show(v))
                ctx.ob(flips == (1 if m == '_aliasesNegated' else 0), f.qual, e.where, 'the value is %snegated' % ('' if flips else 'not '))
                conds = [c for c in conds if not (c[0][0] == 'cmp' and c[0][1] == 'in' and c[0][2][0] == 'item' and c[1])]
                ctx.ob(not conds, f.qual, e.where, 'aliases are only treated when %s' % '; '.join(show(x) for x, b in conds))
    for m in ('_aliases', '_aliasesNegated'):
        ctx.ob(m in seen, f.qual, f.where, 'the names of %s are not treated' % m)


@rule('P06', 'serialization', 'The serialized data holds every alias whose property is there and which is not excluded, with the value of the '
                              'property, negated for negated aliases.')
def p06_serialization(ctx):
    f = ctx.func('ObjectProtocol._serialize')
    seen = {}
    pos = {a.arg: ('arg', i) for i, a in enumerate(f.node.args.args)}
    for p in ctx.paths(f):
        if not p.normal:
            continue
        for e in p.stores():
            t = strip(e.term)
            if t[0] != 'sub' or not loops_of(e.facts):
                continue
            for m in ('_aliases', '_aliasesNegated'):
                if not any(match('A0.%s' % m, x[1]) is not None for x in subterms(t[2]) if x[0] == 'item'):
                    continue
                v = strip(e.value)
                flips = 0
                while v[0] == 'neg' or callname(v) == 'neg':
                    v, flips = v[1] if v[0] == 'neg' else v[2][0], flips + 1
                seen[m] = True
                ctx.ob(flips == (1 if m == '_aliasesNegated' else 0), f.qual, e.where, 'the value of an alias is %snegated' % ('' if flips else 'not '))
                key = v[2][0] if callname(v) == 'get' and v[2] else v[2] if v[0] == 'sub' else None
                ctx.ob(key is not None and key[0] == 'sub' and match('A0.%s' % m, key[1]) is not None and key[2][0] == 'item', f.qual, e.where,
                       'the value of an alias is %s' % show(v)[:120])
                for x, b in item_facts(e.facts):
                    if not any(y[0] == 'item' and match('A0.%s' % m, y[1]) is not None for y in subterms(x)):
                        continue
                    ok = x[0] == 'cmp' and x[1] == 'in' and x[2][0] == 'item' and (x[3] == pos['excludes'] and not b or x[3] == pos['only'] and b) \
                        or x[0] == 'cmp' and x[1] == 'is' and x[3] == NONE and not b or callname(x) == 'is_primitive' \
                        or x[0] == 'cmp' and x[1] == 'in' and b and x[3] not in (pos['excludes'], pos['only'])
                    ctx.ob(ok, f.qual, e.where, 'an alias is only written when %s%s' % ('' if b else 'not ', show(x)[:120]))
    for m in ('_aliases', '_aliasesNegated'):
        ctx.ob(m in seen, f.qual, f.where, 'the names of %s are not serialized' % m)
    # an alias given to check() is read as its property
    f = ctx.func('ObjectProtocol._check')
    for p in ctx.paths(f):
        for t, b in allfacts(p):
            if t[0] in ('loop', 'looped') and 'ChainMap' in show(t):
                ctx.ob(all('._%s' % m in show(t, -9) or find('A0._%s' % m, t) is not None for m in ('aliases', 'aliasesNegated', 'propertiesTranslation')),
                       f.qual, f.where, 'not all the other names are known')


@rule('P06', 'inherited', 'The aliases of the bases and of the extended schemas are those of the class too.')
def p06_inherited(ctx):
    for a, k in (('_aliases', 'aliases'), ('_aliasesNegated', 'negatedAliases')):
        _build.inherits(ctx, a, k, need=('bases', 'extends'))
