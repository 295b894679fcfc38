"""P07: what a class declares is added to what its bases and the schemas it extends declare."""
from ..core import rule
from ..lib import *
from . import _build

ACC = [('_required', 'required'), ('_readOnly', 'readOnly'), ('_notSerialized', 'notSerialized'), ('_notValidated', 'notValidated')]


@rule('P07', 'sets', 'The required, read-only, hidden and not validated names are those of the schema, of its bases and of the extended schemas.')
def p07_sets(ctx):
    for a, k in ACC:
        _build.inherits(ctx, a, k)


@rule('P07', 'properties', 'The properties of a class are those of its schema, of its bases and of the extended schemas; so are the patterns.')
def p07_properties(ctx):
    _build.inherits(ctx, '_properties', 'properties', aliases=('_propertiesChained',))
    _build.inherits(ctx, '_propertiesPattern', 'patternProperties', need=('bases', 'extends'))


@rule('P07', 'names', 'So are the aliases, the translated names, the dependencies, the relationships and the primary keys.')
def p07_names(ctx):
    for a, k in (('_aliases', 'aliases'), ('_aliasesNegated', 'negatedAliases'), ('_relationships', 'relationships')):
        _build.inherits(ctx, a, k, need=('bases', 'extends'))
    _build.inherits(ctx, '_primaryKeys', 'primaryKeys', need=('bases', 'extends'), always=False,
                    allow=lambda m: 'filtered by not item' in m and ' in ' in m)    # keys which are already there
    _build.inherits(ctx, '_dependencies', 'dependencies', allow=lambda m: 'only one of its elements is kept' in m)
    for a in ('_propertiesTranslation', '_propertiesWithDefault', '_relationshipsDescriptor'):
        _build.inherits(ctx, a, '-', own=False, need=('bases', 'extends'))


def _own(t, key):
    """Does a term come from the schema's own declaration?"""
    for y in subterms(t):
        if y[0] == 'ref' and _own(_build.REFS[y[1]], key):
            return True
        if y[0] == 'call' and callname(y) == 'get' and strip(receiver(y)) == _build.SCHEMA and y[2] and strip(y[2][0]) == const(key):
            return True
    return False


def chains(ctx, attr):
    """[(event, ordered maps)] of the lookups chained in an attribute."""
    f, terms, _, _ = _build.contributions(ctx, attr)
    out = []
    for ev, t in terms:
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if not isinstance(x, tuple) or id(x) in seen:
                continue
            seen.add(id(x))
            if x and x[0] == 'ref':
                todo.append(_build.REFS[x[1]])
            if x and x[0] == 'call' and callname(x) in ('ChainMap', 'ReadOnlyChainMap'):
                out.append((ev, x[2]))
            todo += [y for y in x if isinstance(y, tuple)]
    return f, out


@rule('P07', 'nearest', 'What the schema itself declares wins over what it inherits, and nearer bases win over farther ones.')
def p07_nearest(ctx):
    n = 0
    for attr, key in (('_aliases', 'aliases'), ('_aliasesNegated', 'negatedAliases'), ('_propertiesChained', 'properties'),
                      ('_relationships', 'relationships'), ('_propertiesDescriptor', 'properties'), ('_schema', None)):
        f, cs = chains(ctx, attr)
        for ev, maps in cs:
            inh = [i for i, m in enumerate(maps) if m[0] == 'star' and _inherited(m[1], attr)]
            if not inh:
                continue
            n += 1
            ctx.ob(all(i == len(maps) - 1 for i in inh) and len(maps) > 1, f.qual, ev.where,
                   '%s: inherited declarations come before own ones' % attr)
            for i in inh:
                ctx.ob(not _reversed(maps[i][1]), f.qual, ev.where, '%s: the order of the bases is not kept' % attr)
    ctx.need(1, n, 'chained declarations')


def _inherited(t, attr):
    return any(y[0] in ('attr', 'getattr') and y[2] in (attr, '_propertiesChained') for y in deep(t))


def deep(t, depth=0):
    for y in subterms(t):
        yield y
        if y[0] == 'ref' and depth < 12:
            yield from deep(_build.REFS[y[1]], depth + 1)


def _reversed(t):
    """Does a term reverse or sort the bases?"""
    for y in subterms(t):
        if y[0] == 'call' and callname(y) in ('reversed', 'sorted', 'set', 'frozenset'):
            return True
        if y[0] == 'slice' and strip(y[-1]) == const(-1):
            return True
    return False


@rule('P07', 'accessors', 'The getter, setter and deleter of a property are those the class defines, else those of its bases or of the '
      'extended schemas, for its own, redefined and inherited properties.')
def p07_accessors(ctx):
    f = ctx.func('ObjectProtocol.build')
    s = slice_function(f, {'properties_descriptor'}, stop=_build.STOP)
    a = Analyzer(ctx.repo, ctx.baseline, share=60, unroll=False, zero=False)
    ps = a.paths(s)
    ctx.npaths += len(ps)
    _build.REFS.clear()
    _build.REFS.update(a.refs)
    _build._memo.clear()
    made = own = inherited = 0
    redone, seen = False, set()
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and callname(e.term) == 'PropertyDescriptor':
                args = dict(enumerate(e.term[2]))
                args.update({{'fget': 2, 'fset': 3, 'fdel': 4}[k]: v for k, v in e.term[3] if k in ('fget', 'fset', 'fdel')})
                for i, k in ((2, 'get'), (3, 'set'), (4, 'del')):
                    made += 1
                    t = args.get(i, NONE)
                    got = {const_value(x[2][0])[1] for x in [t] if callname(x) == 'get' and x[2]} | \
                        {const_value(x[2])[1] for x in [t] if x[0] == 'sub'}
                    ctx.ob(got == {k}, f.qual, e.where, 'the %ster of the descriptor is %s' % (k, show(strip(t))[:100]))
            if e.kind == 'store' and e.value is not None and (e.where, id(e.value)) not in seen:
                seen.add((e.where, id(e.value)))
                if e.term[0] == 'dynattr':
                    redone = True
                    own_ = [y for y in deep(e.term[1]) if callname(y) in ('copy', 'deepcopy', '__copy__') or callname(y) == 'PropertyDescriptor']
                    shared = [y for y in deep(e.term[1]) if y[0] in ('attr', 'getattr') and y[2] == '_propertiesDescriptor']
                    ctx.ob(bool(own_) or not shared, f.qual, e.where, 'the descriptor of a base is changed')
                for x in list(deep(e.value)) + list(deep(e.term)):
                    ks = {const_value(k)[1] for k in x[1][1] if const_value(k)[0]} if x[0] == 'item' and x[1][0] in ('list', 'tuple', 'set') and len(x[1]) > 1 and isinstance(x[1][1], tuple) else set()
                    if x[0] == 'item' and x[1][0] == 'call' and callname(x[1]) in ('list', 'tuple', 'set'):
                        ks = {const_value(k)[1] for k in x[1][2] if const_value(k)[0]}
                    if ks & {'get', 'set', 'del'} and all(isinstance(k, str) for k in ks):
                        ctx.ob(ks == {'get', 'set', 'del'}, f.qual, e.where, 'only the %ster of a property is looked for' % 'ter, '.join(sorted(ks)))
                    if x[0] == 'sub' and const_value(x[2])[0] and isinstance(const_value(x[2])[1], int):
                        for y in deep(x[1]):
                            if y[0] == 'comp' and len(y[2]) == 1 and callname(y[2][0]) == 'getattr':
                                ctx.ob(const_value(x[2])[1] == 0 and not _reversed(y[3][0]), f.qual, e.where, 'the accessor is that of the farthest base')
                for x in deep(e.value):
                    if x[0] == 'comp' and len(x[2]) == 1 and len(x[3]) == 1 and callname(x[2][0]) == 'getattr' and \
                            strip(x[2][0])[2][0] == ('item', strip(x[3][0])) and all(callname(strip(c)) == 'hasattr' for c, b in x[4]):
                        src = _build.sources(x[3][0])
                        inherited += 1
                        ctx.ob({'bases', 'extends'} <= src, f.qual, e.where, 'the accessors of the %s are not looked for' % ' and '.join(
                            {'bases': 'base classes', 'extends': 'extended schemas'}[y] for y in ('bases', 'extends') if y not in src))
                        ok = any(callname(strip(t)) == 'get' and strip(receiver(t)) == ('arg', 3) and not b for t, b in e.facts)
                        ctx.ob(ok, f.qual, e.where, 'the accessor of a base comes before the one the class defines')
                    if callname(x) == 'get' and strip(receiver(x)) == ('arg', 3):
                        own += 1
            if e.kind == 'call' and callname(e.term) in ('copy', 'deepcopy') and any(
                    y[0] in ('attr', 'getattr') and y[2] == '_propertiesDescriptor' for y in deep(e.term)):
                its = [y for y in deep(e.term) if y[0] == 'getattr' and y[2] == '_propertiesDescriptor' and y[1][0] == 'item']
                for y in its:
                    ctx.ob(not _reversed(y[1][1]), f.qual, e.where, 'the descriptor is that of the farthest base')
                    ctx.ob({'bases', 'extends'} <= _build.sources(y[1][1]), f.qual, e.where, 'the descriptors of some bases are not looked at')
    ctx.need(3, made, 'accessors of descriptors')
    ctx.ob(own > 0, f.qual, f.where, 'the accessors defined by the class are not looked for')
    ctx.ob(inherited > 0, f.qual, f.where, 'the accessors defined by the bases are not looked for')
    ctx.ob(redone, f.qual, f.where, 'inherited descriptors are not given the accessors of the class')


@rule('P07', 'ancestors', 'A class is a subclass of its bases and of the classes of the schemas it extends.')
def p07_ancestors(ctx):
    f = ctx.func('ObjectProtocol.build')
    s = slice_function(f, {'cls'}, stop=_build.STOP)
    a = Analyzer(ctx.repo, ctx.baseline, share=60, unroll=False, zero=False)
    ps = a.paths(s)
    _build.REFS.clear()
    _build.REFS.update(a.refs)
    _build._memo.clear()
    n = 0
    for p in ps:
        for e in p.calls('type'):
            if len(e.term[2]) == 3:
                n += 1
                src = _build.sources(e.term[2][1])
                ctx.ob({'bases', 'extends'} <= src, f.qual, e.where, 'the class does not inherit from all of them')
    ctx.need(1, n, 'class creation')
    _build.inherits(ctx, '_mroType', '-', own=False, need=())
    f, terms, _, _ = _build.contributions(ctx, '_extends')
    src = set()
    for ev, t in terms:
        for y in deep(t):
            if y[0] == 'comp' and len(y[3]) == 1:
                src |= set(_build.sources(y[3][0]))
    ctx.ob({'bases', 'extends'} <= src, f.qual, f.where, 'what the class extends is not recorded')


@rule('P07', 'defaults', 'A property has a default when its type has one or when the class has an attribute of its name, whatever its value.')
def p07_defaults(ctx):
    f = ctx.func('ObjectProtocol.build')
    s = slice_function(f, {'has_default', 'extra_schema_properties'}, stop=_build.STOP)
    a = Analyzer(ctx.repo, ctx.baseline, share=60, unroll=False, zero=False)
    ps = a.paths(s)
    ctx.npaths += len(ps)
    _build.REFS.clear()
    _build.REFS.update(a.refs)
    _build._memo.clear()
    typed = told = falsy = 0
    seen = set()
    for p in ps:
        has = [(t, b) for t, b in allfacts(p) if callname(strip(t)) == 'has_default']
        adds = [e for e in p.events if e.kind == 'mutate' and callname(e.value) in ('add', 'update') and any(
            y[0] in ('attr', 'getattr') and y[2] == '_propertiesWithDefault' for y in deep(e.term))]
        for t, b in has:
            names = [e for e in adds if any(callname(strip(x)) == 'has_default' for x, c in e.facts)]
            typed += 1
            ctx.ob(bool(names) == b, f.qual, f.where, 'a property whose type has %s default is %samong those which have one' % ('a' if b else 'no', '' if names else 'not '))
        for e in p.events:
            if e.kind == 'store' and e.value is not None and e.term[0] == 'sub' and strip(e.term[2]) == const('default'):
                own = [(t, b) for t, b in e.facts if any(callname(y) in ('pop', 'get') and strip(receiver(y)) == ('arg', 3) for y in deep(t))]
                taken = any(callname(y) in ('pop', 'get') and strip(receiver(y)) == ('arg', 3) for y in deep(e.value))
                if not taken:
                    continue
                told += 1
                direct = [b for t, b in own if callname(unref(t)) in ('pop', 'get')]
                falsy += not direct or False in direct
    ctx.need(2, typed, 'properties with a default')
    ctx.need(1, told, 'defaults told by the class')
    ctx.ob(falsy > 0, f.qual, f.where, 'a default which is false is lost')


def unref(t):
    t = unold(strip(t))
    while t[0] == 'ref':
        t = unold(strip(_build.REFS[t[1]]))
    return t
