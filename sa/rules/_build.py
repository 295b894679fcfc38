"""What flows into the attributes of a class built from an object schema.

The construction function is sliced on the attribute, the slice is unfolded into paths, and the
value of the attribute (with everything added to it) is searched for its contributions: the
schema's own declaration, the attribute of each base and extended class, the declarations of the
extended schemas whose class is not ready yet.
"""
from ..lib import *

STOP = {'schema', 'attrs', 'id', 'type_builder', 'scope', 'logger', 'clean_js_name', 'relationship_builder', 'inspect_function',
        'logging', 'decorators', 'resolve_uri'}
SCHEMA, BASES = ('arg', 1), ('arg', 2)
LOSSY_CALLS = {'difference', 'intersection', 'symmetric_difference', 'difference_update', 'intersection_update', 'discard', 'remove',
               'pop', 'popitem', 'clear', 'symmetric_difference_update', 'filter', 'next', 'islice'}
LOSSY_OPS = {'Sub', 'BitAnd', 'BitXor', 'Mod', 'Mult'}
WRAP = {'set', 'tuple', 'list', 'frozenset', 'dict', 'sorted', 'union', 'copy', 'OrderedDict', 'deepcopy', 'reversed', 'chain', 'keys',
        'from_iterable', 'iter'}


REFS = {}


class Slices:
    cache = {}

    @classmethod
    def paths(cls, ctx, attr):
        k = (id(ctx.repo), attr)
        if k not in cls.cache:
            f = ctx.func('ObjectProtocol.build')
            s = slice_function(f, {'attrs[%s]' % attr}, stop=STOP)
            a = Analyzer(ctx.repo, ctx.baseline, share=60, unroll=False, zero=False)
            ps = a.paths(s)
            cls.cache[k] = (f, ps, a.refs)
        f, ps, refs = cls.cache[k]
        REFS.clear()
        REFS.update(refs)
        _memo.clear()
        ctx.npaths += len(ps)
        ctx.functions.add(f.key)
        return f, ps


_memo = {}


def sources(t, depth=0):
    """Which of {'bases', 'extends'} all go in the collection denoted by a term; 'notready' for proxies."""
    if t in _memo:
        return _memo[t]
    r = _sources(t, depth)
    _memo[t] = r
    return r


def _sources(t, depth):
    if depth > 30 or not isinstance(t, tuple) or not t:
        return frozenset()
    if t[0] == 'new':
        return sources(t[2], depth + 1)
    if t[0] == 'ref':
        return sources(REFS[t[1]], depth + 1)
    if t[0] == 'old':
        return sources(t[1], depth + 1)
    if t == BASES or t[:2] == BASES[:2] and len(t) >= 2 and t[0] == 'arg' and t[1] == 2:
        return frozenset({'bases'})
    if is_extends_list(t):
        return frozenset({'extends-ids'})
    if t[0] == 'bin' and t[1] in ('Add', 'BitOr'):
        return sources(t[2], depth + 1) | sources(t[3], depth + 1)
    if t[0] == 'call' and callname(t) in WRAP:
        out = frozenset()
        if t[1][0] == 'attr' and t[1][1][0] != 'name':
            out |= sources(t[1][1], depth + 1)
        for a in t[2]:
            out |= sources(a[1] if a[0] == 'star' else a, depth + 1)
        return out
    if t[0] in ('list', 'tuple', 'set') and len(t) == 2:
        out = frozenset()
        for x in t[1]:
            if x and x[0] == 'star':
                out |= sources(x[1], depth + 1)
        return out
    if t[0] == 'alts':
        out = None
        for x in t[1]:
            s = sources(x, depth + 1)
            out = s if out is None else out & s
        return out or frozenset()
    if t[0] == 'comp' and len(t[2]) == 1 and len(t[3]) == 1:
        gen, elt = t[3][0], t[2][0]
        src = sources(gen, depth + 1)
        if not all(filter_ok(c, gen) for c in t[4]):
            if any(is_not_ready_filter(c, gen) for c in t[4]):
                return frozenset({'proxies'})
            return frozenset()
        e = strip(elt)
        if e == ('item', strip(gen)) or elt == ('item', gen):
            return src
        if callname(elt) == 'load' and 'extends-ids' in src:
            return frozenset({'extends'})
        if callname(elt) == 'expand' and src & {'proxies'}:
            return frozenset({'notready'})
        return frozenset()
    return frozenset()


def is_extends_list(t):
    return t[0] == 'call' and callname(t) == 'get' and strip(receiver(t)) == SCHEMA and t[2] and strip(t[2][0]) == const('extends') or \
        t[0] == 'sub' and strip(t[1]) == SCHEMA and strip(t[2]) == const('extends')


def filter_ok(cond, gen):
    """Filters which drop nothing that is not inherited anyway."""
    t, truth = cond
    t = strip(t)
    it = ('item', strip(gen))
    while t[0] == 'not':
        t, truth = t[1], not truth
    c = callname(t)
    if t[0] == 'loop':
        return True
    # only object classes have these attributes
    if c in ('issubclass', 'isinstance', 'hasattr') and t[2] and t[2][0] == it and truth:
        cl = show(t[2][1])
        return 'ObjectProtocol' in cl or c == 'hasattr'
    # dropped because a kept class inherits from it: issubclass(kept, dropped)
    if c == 'any' and not truth and len(t[2]) == 1 and t[2][0][0] == 'comp' and len(t[2][0][2]) == 1 and not t[2][0][4]:
        e = t[2][0][2][0]
        return callname(e) == 'issubclass' and len(e[2]) == 2 and e[2][1] == it and e[2][0] != it
    if c == 'any' and truth is False:
        return False
    # proxies not ready are accounted for apart
    if t[0] == 'cmp' and t[1] == 'in' and t[2] == it and not truth:
        return 'proxies' in sources(t[3])
    if is_proxy_test(t, it):
        return False
    return False


def is_proxy_test(t, it):
    return callname(t) == 'isinstance' and t[2][0] == it and 'TypeProxy' in show(t[2][1])


def is_not_ready_filter(cond, gen):
    t, truth = cond
    t = strip(t)
    return truth and is_proxy_test(t, ('item', strip(gen)))


def of_one(t, attr, depth=0):
    """Is a value what one of the bases declares, alone (a loop where each one replaces the one before)?"""
    t = t[1] if t[0] == 'old' else t
    if t[0] == 'ref':
        return of_one(REFS[t[1]], attr, depth + 1)
    if t[0] == 'new':
        return of_one(t[2], attr, depth + 1)
    if t[0] == 'call' and callname(t) in ('list', 'set', 'tuple', 'dict', 'frozenset', 'sorted', 'copy') and len(t[2]) == 1 and not t[3]:
        return of_one(t[2][0], attr, depth + 1)
    if t[0] == 'getattr' or t[0] == 'attr':
        x = t[1]
        while x[0] == 'old':
            x = x[1]
        return t[2] in (attr, const(attr)) and x[0] == 'item' and bool(sources(x[1]) & {'bases', 'extends'})
    return False


def contributions(ctx, attr):
    """(FuncInfo, [terms flowing in], lossy [(where, text)], [terms of each path])."""
    f, ps = Slices.paths(ctx, attr)
    tgt = ('sub', ('arg', 3), const(attr))
    terms, lossy, stored = [], [], 0
    seen, by_path = set(), []
    for p in ps:
        final = [e for e in p.stores() if strip(e.term) == tgt or strip(e.term)[0] == 'sub' and strip(e.term)[2] == const(attr)]
        if not final:
            if p.normal:
                lossy.append((f.where, 'a path builds the class without setting %s' % attr))
            continue
        stored += 1
        e = final[-1]
        todo = [(e, e.value)]
        containers = {x for x in subterms(e.value) if x[0] == 'new'}
        for m in p.events:
            if m.kind in ('mutate', 'store', 'del') and m is not e:
                b = m.term
                while b[0] == 'sub' or b[0] == 'attr' and b[1][0] in ('new', 'sub'):
                    b = b[1]
                if b in containers:
                    if m.kind == 'del':
                        lossy.append((m.where, 'removes from it'))
                    elif m.value is not None:
                        todo.append((m, m.value))
                        if m.kind == 'mutate' and callname(m.value) in LOSSY_CALLS:
                            lossy.append((m.where, 'removes from it with %s' % callname(m.value)))
        by_path.append((p, [t for _, t in todo]))
        if of_one(e.value, attr):
            lossy.append((e.where, 'only what the last base declares is kept'))
        for ev, t in todo:
            if (ev.where, id(t)) in seen:
                continue
            seen.add((ev.where, id(t)))
            terms.append((ev, t))
    if not stored:
        lossy.append((f.where, '%s is not set' % attr))
    return f, terms, lossy, by_path


def leaves(t, attr, skey):
    """Contributions in a term: set of 'own', 'bases', 'extends', 'notready'; and lossy operations on the way."""
    out, lossy = set(), []

    def go(x, depth=0):
        if not isinstance(x, tuple) or not x or depth > 60:
            return
        if x[0] == 'ref':
            return go(REFS[x[1]], depth + 1)
        if x[0] in ('new', 'old', 'star'):
            return go(x[2] if x[0] == 'new' else x[1], depth + 1)
        if x[0] == 'bin' and x[1] in LOSSY_OPS:
            lossy.append('%s on it' % x[1])
            return go(x[2], depth + 1)
        if x[0] == 'call':
            c = callname(x)
            if c in LOSSY_CALLS:
                lossy.append('%s on it' % c)
            if c == 'get' and x[2] and strip(x[2][0]) == const(skey):
                r = receiver(x)
                if strip(r) == SCHEMA:
                    out.add('own')
                elif r[0] == 'item':
                    out.update(sources(r[1]))
                for a in x[2][1:]:
                    go(a, depth + 1)
                return
            if x[1][0] == 'attr':
                go(x[1][1], depth + 1)
            for a in x[2]:
                go(a, depth + 1)
            for _, a in x[3]:
                go(a, depth + 1)
            return
        if x[0] == 'sub':
            ok, v = const_value(x[2])
            if ok and v == skey and strip(x[1]) == SCHEMA:
                out.add('own')
                return
            if x[2][0] == 'slice':
                lossy.append('only a part of it is kept')
            elif ok and isinstance(v, int):
                lossy.append('only one of its elements is kept')
            go(x[1], depth + 1)
            go(x[2], depth + 1)
            return
        if x[0] == 'attr' and x[2] == attr or x[0] == 'getattr' and x[2] == attr:
            if x[1][0] in ('item',):
                s = sources(x[1][1])
                if not s:
                    lossy.append('not all bases are looked at: %s' % show(strip(x[1]))[:200])
                out.update(s)
            return
        if x[0] == 'comp':
            for c in x[4]:
                tt = strip(c[0])
                if tt[0] == 'loop':
                    continue
                if x[3] and (filter_ok(c, x[3][0]) or is_not_ready_filter(c, x[3][0])):
                    continue
                if not neutral(tt, c[1]):
                    lossy.append('filtered by %s%s' % ('' if c[1] else 'not ', show(tt)[:160]))
            for y in x[2]:
                go(y, depth + 1)
            for y in x[3]:
                if not sources(y):
                    go(y, depth + 1)
            return
        if x[0] == 'item':
            return go(x[1], depth + 1)
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], tuple):
                    for z in y:
                        go(z, depth + 1)
                else:
                    go(y, depth + 1)
    go(t)
    return out, lossy


def neutral(t, truth):
    """Conditions which filter nothing that matters: emptiness of what is added, being there already."""
    if t[0] in ('loop', 'empty', 'looped', 'caught'):
        return True
    return False


def inherits(ctx, attr, skey, own=True, need=('bases', 'extends', 'notready'), aliases=(), allow=None, always=True):
    """Obligations: the attribute receives the schema's declaration and those of all bases, losing none."""
    f, terms, lossy, by_path = contributions(ctx, attr)
    con = attr
    got = set()
    memo = {}
    for p, ts in by_path if always else ():
        here = set()
        for t in ts:
            for a in (attr,) + tuple(aliases):
                if (t, a) not in memo:
                    memo[t, a] = leaves(t, a, skey)[0]
                here |= memo[t, a]
        for t, b in p.facts:
            if b is False and t[0] not in ('loop', 'looped'):
                here |= leaves(t, attr, skey)[0]     # there is none of these
        for x in (['own'] if own else []) + list(need):
            ctx.ob(x in here, con, f.where, '%s does not receive %s when %s' % (attr, x, '; '.join(
                '%s is %s' % (show(strip(t))[:80], b) for t, b in p.facts if t[0] not in ('loop', 'looped'))[:300]))
    for w, m in lossy:
        ctx.ob(False, con, w, '%s: %s' % (attr, m))
    for ev, t in terms:
        for a in (attr,) + tuple(aliases):
            o, l = leaves(t, a, skey)
            got |= o
        for m in set(l):
            if allow and allow(m):
                continue
            ctx.ob(False, con, ev.where, '%s: %s' % (attr, m))
    for x in (['own'] if own else []) + list(need):
        ctx.ob(x in got, con, f.where, '%s does not receive %s' % (attr, {
            'own': "the schema's own '%s'" % skey, 'bases': 'what the base classes declare',
            'extends': 'what the extended schemas declare', 'notready': 'what extended schemas declare whose class is not ready'}[x]))
    return f, terms
