"""P18: equal means the same items with the same values, and equal objects are interchangeable in sets and dictionaries."""
import ast

from ..core import rule
from ..lib import *
from .p17_contexts import A0, A1, fn

EQ = 'protocols.collection_protocol:CollectionProtocol.__eq__'
HASH = 'protocols.collection_protocol:CollectionProtocol.__hash__'
DATA = [('attr', A0, '_data'), ('attr', A0, '_dataValidated'), A0]


def all_items(t, key_only=False):
    """The names (indexes) of all items of the object itself."""
    t = unold(strip(strip_iter(unold(strip(t)))))
    if t in DATA:
        return True
    if t[0] == 'comp' and len(t[3]) == 1 and not t[4] and len(t[2]) == 1:
        return key_of(t[2][0]) and all_items(t[3][0])
    c = callname(t)
    if t[0] == 'call':
        if c == '_items_types' and len(t[2]) == 2 and strip(t[2][0]) == A0 and strip(t[2][1]) in DATA[:2]:
            return True
        if c in ('keys', 'items') and t[1][0] == 'attr' and strip(t[1][1]) in DATA and not t[2]:
            return True
        if c == 'range' and len(t[2]) == 1 and callname(strip(t[2][0])) == 'len' and strip(strip(t[2][0])[2][0]) in DATA:
            return True
        if c in ('list', 'tuple', 'iter', 'enumerate', 'sorted', 'reversed', 'set', 'frozenset') and len(t[2]) == 1 and not [k for k, _ in t[3] if k != 'key']:
            return all_items(t[2][0])
    return False


def key_of(t):
    """t is the name of an item met while all items of the object are gone through."""
    t = unold(strip(t))
    if t[0] == 'sub' and t[2] == const(0):
        t = unold(strip(t[1]))
    if t[0] in ('item', 'index'):
        return all_items(t[1])
    return False


def value_of(t, obj):
    """(key) of an item of obj whose value is read the way users read it."""
    t = unold(strip(t))
    if t[0] == 'sub' and strip(t[1]) == obj:
        return strip(t[2])
    if callname(t) == '__getitem__' and receiver(t) == obj:
        return strip(t[2][0])
    return None


def same_value(t):
    """t is the comparison of one item of both: its sign, or None."""
    t, pos = strip(t), True
    while t[0] == 'not':
        t, pos = strip(t[1]), not pos
    if t[0] != 'cmp' or t[1] != 'eq':
        return None
    for a, b in ((t[2], t[3]), (t[3], t[2])):
        ka, kb = value_of(a, A0), value_of(b, A1)
        if ka is not None and ka == kb and key_of(ka):
            return pos
    return None


def all_same(t):
    """(sign) t says that all values are the same: all(a == b ...), not any(a != b ...)."""
    t, pos = strip(t), True
    while t[0] == 'not':
        t, pos = strip(t[1]), not pos
    c = callname(t)
    if c not in ('all', 'any') or len(t[2]) != 1:
        return None
    x = unold(strip(t[2][0]))
    if x[0] != 'comp' or len(x[3]) != 1 or [c for c in x[4] if own(*c) is not True] or not x[4] or not all_items(x[3][0]):
        return None
    s = same_value(x[2][0])
    if s is None or s != (c == 'all'):
        return None
    return pos == (c == 'all')


def full(t):
    return unold(strip(t))


def contextual(t):
    """t is the set of the items given by the context: neither serialized nor validated."""
    t = unold(strip(t))
    if t[0] == 'new':
        t = unold(strip(t[-1]))
    both = []
    if callname(t) == 'intersection' and len(t[2]) == 1 and t[1][0] == 'attr':
        both = [t[1][1], t[2][0]]
    elif t[0] == 'bin' and t[1] == 'BitAnd':
        both = list(t[2:4])
    out = set()
    for x in both:
        x = unold(strip(x))
        x = unold(strip(x[2][0])) if callname(x) in ('set', 'frozenset') and len(x[2]) == 1 else x
        if x[0] == 'attr' and x[1] in (A0, ('attr', A0, '__class__')):
            out.add(x[2])
    return out == {'_notSerialized', '_notValidated'}


def parts(t):
    """The sets which a union is made of."""
    t = unold(strip(t))
    if t[0] == 'new':
        t = unold(strip(t[-1]))
    if callname(t) == 'union':
        if t[1][0] == 'attr' and t[1][1] != ('name', 'set'):
            yield from parts(t[1][1])
        for x in t[2]:
            yield from parts(x[1] if x[0] == 'star' else x)
    elif callname(t) in ('list', 'set', 'tuple', 'frozenset', 'chain') and t[2]:
        for x in t[2]:
            yield from parts(x)
    elif t[0] == 'bin' and t[1] in ('BitOr', 'Add'):
        yield from parts(t[2])
        yield from parts(t[3])
    else:
        yield t


def own(t, b):
    """What a condition says on whether the item is the object's own: True, False, or None when it says nothing."""
    t = strip(t)
    while t[0] == 'not':
        t, b = strip(t[1]), not b
    if t[0] == 'cmp' and t[1] == 'in' and key_of(t[2]) and contextual(t[3]):
        return not b
    return None


def fact_of(t, b):
    """What a condition of the comparison says."""
    s = strip(t)
    if own(s, b) is not None:
        return ('own', own(s, b))
    if s[0] == 'cmp' and s[1] == 'is':
        for x, y in ((s[2], s[3]), (s[3], s[2])):
            if x == A1 and y == NONE:
                return ('none', b)
            if x == A1 and y == A0:
                return ('self', b)
    if callname(s) == 'check' and receiver(s) == A0 or callname(s) == 'check' and len(s[2]) == 2:
        return ('check', b)
    if s[0] == 'cmp' and s[1] == 'eq':
        if all(callname(strip(x)) == 'len' for x in s[2:4]) and {strip(strip(x)[2][0]) for x in s[2:4]} <= {A0, A1, *DATA}:
            return ('len', b)
    v = same_value(s)
    if v is not None:
        return ('value', b == v)
    v = all_same(s)
    if v is not None:
        return ('values', b == v)
    if s[0] == 'looped':
        return ('looped', b) if all_items(s[1]) else ('part', b)
    if s[0] == 'empty':
        return ('empty', b) if all_items(s[1]) else ('part', b)
    if s[0] == 'loop':
        return None
    if s[0] == 'caught':
        return ('caught', b)
    if s[0] == 'cmp' and s[1] == 'in' and strip(s[3]) == A1 and key_of(s[2]):
        return ('in', b)
    return ('other', show(s))


@rule('P18', 'equal', '`__eq__` says equal only when the other is the same object, or can be looked at as one, has as many items and '
      'the same value for every one of them but those the context gives; it says different only for one of these reasons')
def equal(ctx):
    f = fn(ctx, EQ)
    ps = [p for p in ctx.paths(f) if p.outcome[0] == 'return']
    ctx.need(3, len(ps), 'ways to compare')
    n = 0
    for p in ps:
        for fs, v in truths(p):
            n += 1
            got = [x for x in (fact_of(t, b) for t, b in fs) if x is not None]
            s = set(got)
            if v:
                ok = ('self', True) in s or (('check', True) in s and ('len', True) in s and ('none', True) not in s and (
                    ('looped', True) in s and (('value', True) in s or ('own', False) in s) or ('empty', True) in s or ('values', True) in s)
                    and not any(x[0] == 'caught' for x in got) and ('value', False) not in s)
                msg = 'two collections are said equal though %s' % (
                    'they may have different numbers of items' if ('len', True) not in s else
                    'not all their items are compared')
            else:
                ok = any(x in s for x in (('none', True), ('check', False), ('len', False), ('value', False), ('values', False), ('in', False))) \
                    or any(x[0] == 'caught' for x in got)
                ok = ok and ('self', True) not in s
                msg = 'two collections are said different for no difference of their items'
            other = [x[1] for x in got if x[0] == 'other']
            if 'value' in {x[0] for x in got}:
                ctx.ob(('own', True) in s, f.qual, f.where, 'what the context gives, such as the parent which holds them, is compared')
            ctx.ob(ok, f.qual, f.where, msg + (': %s' % ', '.join(other)[:160] if other else ''))
    ctx.need(3, n, 'answers of __eq__')
    ctx.ob(not any(p.outcome[0] == 'raise' for p in ctx.paths(f)), f.qual, f.where, 'comparing raises')


@rule('P18', 'missing', 'items which the other does not have make the two different: the lookup in the other is guarded for missing names and indexes')
def missing(ctx):
    f = fn(ctx, EQ)
    names, guarded = set(), False
    for p in ctx.paths(f):
        for t, b in allfacts(p):
            if t[0] == 'caught' and b:
                names |= set(t[1]) or {'Exception'}
            guarded = guarded or fact_of(t, b) == ('in', True)
    ok = bool(names & {'LookupError', 'Exception', 'BaseException'}) or {'KeyError', 'IndexError'} <= names
    ctx.ob(ok or guarded, f.qual, f.where, 'a name or an index which the other does not have raises instead of making them different')


@rule('P18', 'hash', 'the hash is made of the names and values of all items but those the context gives only, in no order, with the values as read (not as given): '
      'equal collections, of whatever class and in whatever order, have the same')
def hashes(ctx):
    f = fn(ctx, HASH)
    ps = [p for p in ctx.paths(f) if p.outcome[0] == 'return']
    ctx.need(1, len(ps), 'ways to hash')
    for p in ps:
        t = strip(p.returns)
        t = contents(p, t) if t[0] == 'new' else t
        bad = []

        def unordered(x):
            x = unold(strip(x))
            if x[0] == 'new':
                x = unold(strip(x[-1]))
            c = callname(x)
            if c == 'hash' and len(x[2]) == 1:
                return unordered(x[2][0])
            if c in ('frozenset', 'sum', 'set', 'sorted') and len(x[2]) == 1:
                return elements(x[2][0])
            if c == 'reduce' and len(x[2]) >= 2:
                return elements(x[2][1])
            if c in ('tuple', 'list') and len(x[2]) == 1 and callname(unold(strip(x[2][0]))) in ('sorted', 'frozenset'):
                return unordered(x[2][0])
            if x[0] == 'comp' and x[1] == 'set':
                return elements(x)
            bad.append('it depends on the order of the items or on something else: %s' % show(x)[:120])

        def elements(x):
            x = unold(strip(x))
            if x[0] == 'new':
                x = unold(strip(x[-1]))
            if x[0] != 'comp' or len(x[3]) != 1 or not all_items(x[3][0]):
                bad.append('not made of the items of the object: %s' % show(x)[:120])
                return
            for c in x[4]:
                if own(*c) is not True:
                    bad.append('only some of the items count: %s' % show(strip(c[0]))[:120])
            if not x[4]:
                bad.append('what the context gives, such as the parent which holds them, is hashed')
            seen = []
            for e in x[2]:
                seen.append(element(e))
            if not any(seen):
                bad.append('the values of the items do not count')

        def element(x):
            """x is made of the key and the value of the item only; True if the value counts."""
            x = unold(strip(x))
            if x[0] == 'new':
                x = unold(strip(x[-1]))
            k = value_of(x, A0)
            if k is not None and key_of(k):
                return True
            if key_of(x) or const_value(x)[0]:
                return False
            if x[0] == 'tuple':
                return any([element(y) for y in x[1]])
            if callname(x) in ('hash', 'str') and len(x[2]) == 1:
                return element(x[2][0])
            if x[0] == 'bin':
                return any([element(x[2]), element(x[3])])
            bad.append('something else counts: %s' % show(x)[:120])
            return False
        unordered(t)
        ctx.ob(not bad, f.qual, f.where, 'equal collections may have different hashes: %s' % '; '.join(bad))


@rule('P18', 'pair', 'a class which redefines what equal means redefines the hash with it (Python removes it otherwise), and the collections of '
      'all classes are compared in the same way')
def pair(ctx):
    n = 0
    for c in [c for m in ctx.repo.modules.values() for c in m.classes.values()]:
        n += 1
        names = set(c.methods) | set(c.attrs)
        ctx.ob('__eq__' not in names or '__hash__' in names, c.name, '%s:%d (%s)' % (c.module.relpath, c.node.lineno, c.name), 'objects of %s are compared by value and have no hash' % c.name)
        if '__eq__' in names or '__hash__' in names:
            ok = c.name not in ('ObjectProtocol', 'ArrayProtocol')
            ctx.ob(ok, c.name, '%s:%d (%s)' % (c.module.relpath, c.node.lineno, c.name), '%s compares its objects in a way of its own' % c.name)
    ctx.need(30, n, 'classes')


@rule('P18', 'pure', 'comparing and hashing change neither')
def pure(ctx):
    for k in (EQ, HASH):
        f = fn(ctx, k)
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind in ('store', 'del', 'mutate'):
                    r = root(e.term)
                    ctx.ob(r not in (A0, A1), f.qual, f.where, 'comparing changes %s' % show(e.term)[:80])
        ctx.ob(True, f.qual, f.where, '')


@rule('P18', 'copy', 'a copy is made of all that was given to the original, in the same context, by its class')
def copied(ctx):
    f = fn(ctx, 'protocols.collection_protocol:CollectionProtocol.copy')
    ps = [p for p in ctx.paths(f) if p.outcome[0] == 'return']
    ctx.need(1, len(ps), 'ways to copy')
    for p in ps:
        t = unold(strip(p.returns))
        if t[0] == 'new':
            t = unold(strip(t[-1]))
        src = unold(strip(t[2][0])) if t[0] == 'call' and t[2] else None
        while src is not None and callname(src) in ('dict', 'list', 'copy', 'OrderedDict') and (src[2] or callname(src) == 'copy'):
            src = unold(strip(src[2][0] if src[2] else receiver(src)))
        by = t[0] == 'call' and (callname(t) == 'create' and strip(receiver(t)) in (A0, ('attr', A0, '__class__'), ('call', ('name', 'type'), (A0,), ()))
                                 or t[1] == ('attr', A0, '__class__') or t[1] == ('call', ('name', 'type'), (A0,), ()))
        ctx.ob(by, f.qual, f.where, 'the copy is not made by the class of the original: %s' % show(t)[:120])
        ctx.ob(src in DATA, f.qual, f.where, 'the copy is not made of all that the original was given: %s' % (show(src)[:120] if src else ''))
        kws = dict((k, strip(v)) for k, v in (t[3] if t[0] == 'call' else ()))
        c = kws.get('context')
        c = unold(strip(c)) if c is not None else None
        c = unold(strip(c[-1])) if c is not None and c[0] == 'new' else c
        ctx.ob(c is not None and any(full(x) in (('attr', A0, '_context'), ('attr', A0, 'context')) for x in subterms(c)), f.qual, f.where, 'the copy is not made in the context of the original')
        cut = [full(x) for x in subterms(c or ())if full(x)[0] == 'slice']
        out = [x for x in cut if full(x[1])[0] == 'bin' and full(x[1])[1] == 'Add' and const(1) in [full(y) for y in full(x[1])[2:4]]
               and any(full(y)[0] == 'cmp' and full(y)[1] == 'is' and A0 in [full(z) for z in full(y)[2:4]] for y in subterms(x[1]))]
        looked = [b for t, b in allfacts(p) if full(t)[0] == 'cmp' and full(t)[1] == 'is' and A0 in [full(z) for z in full(t)[2:4]] or callname(full(t)) == 'any'
                  and any(full(y)[0] == 'cmp' and full(y)[1] == 'is' and A0 in [full(z) for z in full(y)[2:4]] for y in subterms(t))]
        ctx.ob(bool(out) or bool(looked) and looked[-1] is False, f.qual, f.where, 'the copy may be made in the original itself')
        for x in out:
            m = next((full(y) for y in subterms(x[1]) if callname(full(y)) in ('max', 'next') and full(y)[2]), None)
            if m is not None:
                d = full(dict(m[3]).get('default') or (m[2][1] if callname(m) == 'next' and len(m[2]) > 1 else NONE))
                ctx.ob(d in (const(-1), ('const', '-1'), ('un', 'USub', const(1))), f.qual, f.where, 'a part of the context is left out when the original is not in it')
                ctx.ob(callname(m) == 'max' or any(callname(full(y)) == 'reversed' for y in subterms(m)), f.qual, f.where, 'the copy may be made in the original itself, when it is there twice')
        sess = 'session' in kws or any(e.kind == 'store' and e.term[0] == 'attr' and e.term[2] == '_session' and any(full(y)[0] == 'attr' and full(y)[2] in ('session', '_session')
                                       for y in subterms(e.value)) for e in p.events) or c is not None and callname(c) == 'create_child' or c == ('attr', A0, '_context')
        ctx.ob(sess, f.qual, f.where, 'the copy is not in the session of the original')


@rule('P18', 'written', 'an object is written without what the context gives, such as the parent, which holds it')
def written(ctx):
    n = 0
    for m in ('__repr__', '__str__'):
        f = fn(ctx, 'protocols.object_protocol:ObjectProtocol.' + m)
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'call' and callname(e.term) == '_print_order':
                    n += 1
                    x = dict(e.term[3]).get('excludes')
                    ctx.ob(x is not None and any(contextual(y) or y[0] == 'attr' and y[1] in (A0, ('attr', A0, '__class__')) and y[2] in ('_notSerialized', '_notValidated') for y in parts(x)), f.qual, e.where,
                           'the parent is written in what it holds')
    ctx.need(2, n, 'ways to write an object')
