"""P25: keys and names designate: what a session gives is what a repository of it holds under the key or the name asked."""
import ast
from ..core import rule
from ..lib import *
from .p17_contexts import fn, kw, A0, A1, A2, A3, KW, ARGS
from .p22_files import full
from .p24_helpers import nested

SELF = (A0, ('attr', A0, '__class__'))


def source(t):
    """The collection whose items are gone through, the filters and copies of it being looked through."""
    t = full(t)
    while True:
        if t[0] == 'comp' and len(t[3]) == 1 and len(t[2]) == 1 and full(t[2][0])[0] == 'item':
            t = full(t[3][0])
        elif callname(t) in ('list', 'tuple', 'iter', 'filter', 'reversed', 'sorted', 'values') and t[2]:
            t = full(t[2][-1])
        elif t[0] in ('list', 'tuple') and len(t[1]) == 1 and t[1][0][0] == 'star':
            t = full(t[1][0][1])
        else:
            return t


def conditions(p, t):
    """Conditions which hold for the item t: those of the filters it comes through, and those of the path."""
    out = list(allfacts(p))
    t = full(t)
    while t[0] == 'item':
        c = full(t[1])
        while callname(c) in ('list', 'tuple', 'iter', 'reversed', 'sorted') and c[2]:
            c = full(c[2][0])
        if c[0] != 'comp':
            break
        out += list(c[4])
        t = full(c[2][0])
    return out


def repository(t):
    """The session whose repositories t is one of."""
    t = full(t)
    if t[0] == 'item':
        s = source(t[1])
        if s[0] == 'attr' and s[2] == 'repositories':
            return full(s[1])
    return None


def finishes(p):
    """The path ends after the repositories have been gone through."""
    return any(f[0] in ('looped', 'empty') and b and source(f[1])[0] == 'attr' and source(f[1])[2] == 'repositories' for f, b in allfacts(p))


def lookups(p):
    """[(event, repository, key)] of what is asked to repositories by key."""
    out = []
    for e in p.calls('resolve_fkey'):
        t = strip(e.term)
        r = receiver(t)
        if r is not None and repository(r) is not None and t[2]:
            out.append((e, full(r), full(t[2][0])))
    return out


def holds_key(p, r, key):
    return any(b and full(f)[0] == 'cmp' and full(f)[1] == 'in' and full(full(f)[2]) == key and repository(full(f)[3]) is not None for f, b in conditions(p, r)) \
        or any(f[0] == 'caught' for f, b in allfacts(p))


def of_class(p, r, spec):
    for f, b in conditions(p, r):
        f = full(f)
        if b and callname(f) == 'issubclass' and len(f[2]) == 2 and full(f[2][0])[0] == 'attr' and full(f[2][0])[2] == 'instanceClass' and repository(full(f[2][0])[1]) is not None and spec(full(f[2][1])):
            return True
    return False


def classed(p, r):
    """The class of the repository is known to be one before it is compared."""
    for f, b in conditions(p, r):
        f = full(f)
        if f[0] == 'attr' and f[2] == 'instanceClass' and b:
            return True
        if f[0] == 'cmp' and f[1] == 'is' and not b and any(full(x)[0] == 'attr' and full(x)[2] == 'instanceClass' for x in f[2:4]) and any(x == NONE for x in f[2:4]):
            return True
        if callname(f) == 'isinstance' and b:
            return True
    return False


def resolution(ctx, f, key, klass, sessions, rest=None):
    """f gives what the first repository of the class holds under the key, and fails when none does."""
    n = 0
    for p in ctx.paths(f):
        if p.normal:
            r = full(p.returns)
            after = False
            if rest is not None and callname(r) == 'resolve_cname':
                after, tail, r = True, r[2][0] if r[2] else None, full(receiver(strip(r)))
                ctx.ob(tail is not None and rest(full(tail)), f.qual, f.where, 'what follows the first name is not looked for')
            o = receiver(strip(r)) if callname(r) == 'resolve_fkey' else None
            ok = o is not None and repository(o) is not None and len(r[2]) == 1
            ctx.ob(ok, f.qual, f.where, 'what is given is not what a repository of the session holds: %s' % show(p.returns)[:80])
            if not ok:
                continue
            n += 1
            k = full(r[2][0])
            ctx.ob(key(k), f.qual, f.where, 'another key is looked for: %s' % show(k)[:60])
            ctx.ob(holds_key(p, o, k), f.qual, f.where, 'a repository which does not hold the key is asked for it')
            ctx.ob(of_class(p, o, klass), f.qual, f.where, 'repositories of another class are asked')
            ctx.ob(classed(p, o), f.qual, f.where, 'a repository without a class makes the resolution fail')
            s = repository(o)
            ctx.ob(sessions(p, s), f.qual, f.where, 'another session is asked: %s' % show(s)[:60])
            if rest is not None and not after:
                ctx.ob(any(not b and rest(full(t)) for t, b in allfacts(p)), f.qual, f.where, 'what follows the first name is not looked for')
        else:
            ctx.ob(finishes(p), f.qual, f.where, 'it fails before all repositories are asked')
    ctx.need(1, n, 'resolutions')


def first_of(names):
    """The first name of a dotted one, as a key."""
    def test(t):
        t = full(t)
        if t[0] != 'tuple' or len(t[1]) != 1:
            return False
        x = full(t[1][0])
        return x[0] == 'sub' and names(full(x[1])) and full(x[2]) == const(0)
    return test


def rest_of(names):
    def test(t):
        t = full(t)
        while callname(t) in ('list', 'tuple') and len(t[2]) == 1:
            t = full(t[2][0])
        if t[0] in ('list', 'tuple') and len(t[1]) == 1 and t[1][0][0] == 'star':
            t = full(t[1][0][1])
        return t[0] == 'sub' and names(full(t[1])) and full(t[2])[0] == 'slice' and full(full(t[2])[1]) == const(1) and full(full(t[2])[2]) == NONE
    return test


def split_of(arg):
    return lambda t: t == arg or callname(t) == 'split' and full(receiver(strip(t))) == arg and [full(x) for x in t[2]] == [const('.')]


@rule('P25', 'resolution', 'a key is resolved by the first repository of the session which has the class asked, or one derived of it, and holds the key; when none does it fails')
def p25_resolution(ctx):
    mine = lambda p, s: s == A0
    given = lambda p, s: s in (A2, ('name', 'default_session'))
    resolution(ctx, fn(ctx, 'session:Session.resolve_fkey'), lambda k: k == A1, lambda c: c == A2, mine)
    resolution(ctx, fn(ctx, 'session:Session.resolve_cname'), first_of(split_of(A1)), lambda c: c == ('name', 'Entity'), mine, rest_of(split_of(A1)))
    resolution(ctx, fn(ctx, 'types.foreign_key:ForeignKey._resolve'), lambda k: k == A1, lambda c: c[0] == 'attr' and c[1] == A0 and c[2] == '_foreignClass'
               or callname(c) == 'get_foreignClass', given)
    resolution(ctx, fn(ctx, 'types.foreign_key:CanonicalName._resolve'), first_of(split_of(A1)), lambda c: c in (('name', 'Instance'), ('name', 'Entity')), given, rest_of(split_of(A1)))
    # the session which is given is the one which is asked
    for k in ('ForeignKey', 'CanonicalName'):
        f = fn(ctx, 'types.foreign_key:%s._resolve' % k)
        for p in ctx.paths(f):
            for e, r, key in lookups(p):
                s = repository(r)
                fs = dict((full(t), b) for t, b in allfacts(p))
                told = fs.get(A2)
                if told is None:
                    none = ('cmp', 'is', A2, NONE)
                    told = not fs[none] if none in fs else None
                ctx.ob(told is not None and (s == A2) == told, f.qual, e.where, 'the session given is not the one which is asked')


@rule('P25', 'split', 'a canonical name given as a text is split at its dots before it is looked for')
def p25_split(ctx):
    f = fn(ctx, 'types.foreign_key:CanonicalName._resolve')
    n = 0
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'assert_arg' and d.args and isinstance(d.args[0], ast.Constant) and d.args[0].value == 1:
            n += 1
            k = {x.arg: x.value.value for x in d.keywords if isinstance(x.value, ast.Constant)}
            ctx.ob(k.get('splitString') is True and k.get('strDelimiter') == '.', f.qual, f.where, 'a canonical name is not split at its dots')
            ctx.ob(len(d.args) > 1 and getattr(d.args[1], 'id', getattr(d.args[1], 'attr', '')) in ('Array', 'Tuple', 'ArrayString'), f.qual, f.where, 'a canonical name is not made a list of names')
    if not n:
        ctx.ob(any(callname(full(e.term)) == 'split' for p in ctx.paths(f) for e in p.events if e.kind == 'call'), f.qual, f.where, 'a canonical name is not split at its dots')
    f = fn(ctx, 'session:Session.resolve_fkey')
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'assert_arg':
            ctx.ob(len(d.args) > 1 and isinstance(d.args[0], ast.Constant) and d.args[0].value in (1, 'keys') and getattr(d.args[1], 'id', getattr(d.args[1], 'attr', '')) == 'Tuple', f.qual, f.where,
                   'a key is not made the tuple of its values')


@rule('P25', 'commit', 'a repository in memory holds what is committed once, under its keys and no former ones, in the place of what had the same keys; a missing key is one above all those held')
def p25_commit(ctx):
    f = fn(ctx, 'repositories.memory_repository:MemoryRepository._commit')
    cat, con = ('attr', A0, '_catalog'), ('attr', A0, '_content')
    removed = []
    n = 0
    keysof = lambda t, v: full(t)[0] == 'attr' and full(t)[2] in ('identityKeys', '_identityKeys') and full(full(t)[1]) == v \
        or callname(full(t)) == 'tuple' and len(full(t)[2]) == 1 and full(full(t)[2][0])[0] == 'attr' and full(full(t)[2][0])[2] == 'identityKeys' and full(full(full(t)[2][0])[1]) == v
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        saved = [full(e.term) for e in p.calls('_save', 'save')]
        fs = allfacts(p)
        value = A1
        for s in saved:
            value = s
        placed = []
        catalogued = []
        for i, e in enumerate(p.events):
            t = strip(e.term) if e.term else e.term
            if e.kind == 'store' and t[0] == 'sub' and full(t[1]) == cat:
                catalogued.append((i, t[2], full(e.value)))
            elif e.kind == 'store' and t[0] == 'sub' and full(t[1]) == con:
                placed.append((i, full(t[2]), full(e.value)))
            elif e.kind == 'call' and callname(t) in ('append', 'insert') and full(receiver(t)) in (con, ('list', ())):
                placed.append((i, None, full(t[2][-1])))
            elif e.kind == 'call' and callname(t) in ('__setitem__', 'setdefault', 'update') and receiver(t) is not None and full(receiver(t)) == cat:
                if callname(t) == '__setitem__':
                    catalogued.append((i, t[2][0], full(t[2][1])))
                else:
                    ctx.ob(False, f.qual, e.where, 'the catalog is not written under the keys of what is committed')
        save = [b for t, b in fs if full(t) == A2]
        ctx.ob(save == [True] and [[full(x) for x in t[2]] for t in saved] == [[A0, A1]] or save == [False] and not saved, f.qual, f.where, 'what is committed is not what is validated when it is asked')
        many = [b for t, b in fs if full(t) == ('attr', A0, '_many')]
        fresh = [i for i, e in enumerate(p.events) if e.kind == 'store' and full(e.term) == con]
        emptied = [i for i, e in enumerate(p.events) if e.kind == 'call' and callname(strip(e.term)) == 'clear' and full(receiver(strip(e.term))) == cat or e.kind == 'store' and full(e.term) == cat]
        ctx.ob(many == [not fresh] and bool(fresh) == bool(emptied), f.qual, f.where, 'what is held is lost' if many == [True] else 'the former one stays')
        for i in fresh + emptied:
            ctx.ob(all(j > i for j, a, b in catalogued) and all(j >= i for j, a, b in placed), f.qual, f.where, 'what is committed is lost')
        ctx.ob(any(t[0] in ('loop', 'looped', 'empty') and any(keysof(full(y), value) for y in subterms(t)) for t, b in fs), f.qual, f.where, 'missing keys are not looked for')
        missing = any(b and full(t)[0] == 'cmp' and full(t)[1] == 'is' and NONE in full(t)[2:4] and any(keysof(full(y), value) for y in subterms(t)) for t, b in fs)
        ctx.ob(not missing or any(receiver(strip(e.term)) is not None and full(receiver(strip(e.term))) == value for e in p.calls('_set_data', '__setitem__', 'setattr', '_set_dataValidated')), f.qual, f.where,
               'a missing key is not given')
        ctx.ob(len(catalogued) == 1 and catalogued[0][2] == value and keysof(catalogued[0][1], value), f.qual, f.where, 'what is committed is not found under its keys')
        ctx.ob(len(placed) == 1 and placed[0][2] == value, f.qual, f.where, 'what is committed is not in the content once')
        for i, k, v in placed:
            eqs = [(full(t), b) for t, b in fs if full(t)[0] == 'cmp' and full(t)[1] == 'eq' and any(keysof(x, value) for x in full(t)[2:4])
                   and any(full(y)[0] in ('item', 'sub') for x in full(t)[2:4] for y in subterms(full(x)))]
            if k is not None:
                ctx.ob(any(b for t, b in eqs) and k[0] in ('index', 'call', 'sub', 'item'), f.qual, f.where, 'what has other keys is replaced')
            else:
                ctx.ob(all(not b for t, b in eqs), f.qual, f.where, 'what has the same keys stays with it')
        # no former key
        dropped = [e for e in p.events if e.kind in ('del', 'delete') and e.term and strip(e.term)[0] == 'sub' and full(strip(e.term)[1]) == cat
                   or e.kind == 'call' and callname(strip(e.term)) in ('pop', 'clear', '__delitem__') and receiver(strip(e.term)) is not None and full(receiver(strip(e.term))) == cat]
        for e in dropped:
            t = strip(e.term)
            if callname(t) == 'clear':
                continue
            k = t[2] if t[0] == 'sub' else t[2][0]
            ctx.ob(any(b and full(x)[0] == 'cmp' and full(x)[1] == 'is' and value in [full(y) for y in full(x)[2:4]] for x, b in conditions(p, k)), f.qual, e.where, 'what has other keys is not found any more')
            removed.append(e)
            j = [i for i, x in enumerate(p.events) if x is e][0]
            ctx.ob(all(i > j for i, a, b in catalogued), f.qual, e.where, 'the keys are dropped once catalogued')
        searched = any(f2[0] in ('looped', 'empty') and b and any(y == cat for y in subterms(f2)) for f2, b in fs) \
            or any(e.kind == 'store' and full(e.term) == cat for e in p.events)
        ctx.ob(bool(dropped) or searched, f.qual, f.where, 'it is still found under the keys it had before')
        for e in p.calls('_set_data', '__setitem__', 'setattr', '_set_dataValidated'):
            t = strip(e.term)
            if receiver(t) is None or full(receiver(t)) != value:
                continue
            new = full(t[2][-1])
            key_none = any(b and full(x)[0] == 'cmp' and full(x)[1] == 'is' and NONE in full(x)[2:4] for x, b in fs)
            ctx.ob(key_none, f.qual, e.where, 'a key which is given is replaced')
            ok = new[0] == 'bin' and new[1] == 'Add' and const(1) in [full(x) for x in new[2:4]] and any(callname(full(x)) == 'max' for x in new[2:4])
            ctx.ob(ok, f.qual, e.where, 'a missing key can be one which is held: %s' % show(new)[:60])
            i = full(t[2][0])
            if ok:
                at = [full(y[2]) for y in subterms(new) if y[0] == 'sub' and full(y[1])[0] == 'attr' and full(y[1])[2] in ('identityKeys', '_identityKeys')]
                ctx.ob(bool(at) and i[0] == 'sub' and all(x == full(i[2]) for x in at), f.qual, e.where, 'a missing key is made from other keys')
                ctx.ob(any(y == con or y[0] == 'attr' and y[2] == '_content' for y in subterms(new)) or any(y == ('list', ()) for y in subterms(new)), f.qual, e.where,
                       'a missing key does not depend on what is held')
            j = [k for k, x in enumerate(p.events) if x is e][0]
            ctx.ob(all(k > j for k, a, b in catalogued), f.qual, e.where, 'it is catalogued before it has its keys')
    ctx.ob(bool(removed) or not any(('attr', A0, '_many') == full(t) and b for p in ctx.paths(f) for t, b in allfacts(p)), f.qual, f.where, 'it is still found under the keys it had before')
    ctx.need(4, n, 'ways to commit')


@rule('P25', 'catalog', 'a repository in memory holds a key exactly when it gives what is under it, and what it is created with is committed')
def p25_catalog(ctx):
    C = 'repositories.memory_repository:MemoryRepository.'
    cat = ('attr', A0, '_catalog')
    f = fn(ctx, C + '__contains__')
    for p in ctx.paths(f):
        r = full(p.returns) if p.normal else None
        ctx.ob(r is not None and r[0] == 'cmp' and r[1] == 'in' and full(r[2]) == A1 and full(r[3]) in (cat, ('call', ('attr', cat, 'keys'), (), ())), f.qual, f.where, 'a key is not looked for in the catalog')
    f = fn(ctx, C + 'resolve_fkey')
    for p in ctx.paths(f):
        if p.normal:
            r = full(p.returns)
            ctx.ob(r == ('sub', cat, A1), f.qual, f.where, 'what is given is not what is catalogued under the key: %s' % show(r)[:60])
    f = fn(ctx, C + '__init__')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        given = [e for e in p.events if e.kind == 'call' and any(full(x) == A1 for x in strip(e.term)[2]) and callname(strip(e.term)) not in ('__init__', 'isinstance')]
        for e in given:
            fs = allfacts(p)
            items = [c for c in p.calls('_commit', 'commit') if any(full(x)[0] == 'item' and any(full(y) == A1 for y in subterms(full(x))) or full(x) == A1 for x in strip(c.term)[2])]
            for c in items:
                i, j = ([k for k, x in enumerate(p.events) if x.kind == 'store' and full(x.term) == ('attr', A0, y)] for y in ('_catalog', '_content'))
                at = [k for k, x in enumerate(p.events) if x is c][0]
                ctx.ob(bool(i) and bool(j) and max(i + j) < at, f.qual, c.where, 'what is committed is lost')
                ctx.ob(callname(strip(c.term)) == 'commit' or full(strip(c.term)[2][0]) == A0, f.qual, c.where, 'another repository is committed to')
                inits = [[full(receiver(strip(x.term))), k] for k, x in enumerate(p.events) if x.kind == 'call' and callname(strip(x.term)) == '__init__' and k < at]
                opts_ = [t2 for t2 in (strip(x.term) for x in p.calls('__init__')) if full(receiver(t2)) == ('name', 'Repository')]
                meta = [b for x, b in fs if full(x) == A2]
                ctx.ob(all(A0 in [full(v) for k, v in t2[3]] and (meta == [False] or A2 in [full(v) for k, v in t2[3]]) for t2 in opts_), f.qual, c.where, 'the options of the repository are lost')
                ctx.ob(all(any(r == ('name', k) for r, q in inits) for k in ('ObjectProtocol', 'Repository')), f.qual, c.where, 'the repository is not set before it is committed to')
            t = strip(e.term)
            most = dict(t[1][3]).get('maxItems') if t[1][0] == 'call' else None
            if most is not None:
                many = [b for x, b in fs if full(x) == ('attr', A0, '_many')]
                ctx.ob(many == [full(most) == NONE] and full(most) in (NONE, const(1)), f.qual, e.where, 'a repository of one is created with several, or one of several with one')
            if t[1][0] == 'call':
                ctx.ob('items' in dict(t[1][3]) and any(y == ('attr', A0, '_instanceClass') for y in subterms(full(dict(t[1][3])['items']))), f.qual, e.where, 'what it is created with is not of its class')
            none = any(t[0] == 'empty' and b and any(full(y) == A1 for y in subterms(t)) for t, b in fs)
            n += 1
            ctx.ob(bool(items) or none, f.qual, e.where, 'what the repository is created with is not committed')
    ctx.need(1, n, 'contents given')


@rule('P25', 'binding', 'a repository is one of the session it is given, or of the default one, and knows it; it is made once for the name it is registered with')
def p25_binding(ctx):
    f = fn(ctx, 'session:Session.bind_repo')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        known = [(t, b) for t, b in allfacts(p) if full(t)[0] == 'cmp' and full(t)[1] == 'in' and full(full(t)[2]) == A1]
        ctx.ob(any(b for t, b in known) or any(callname(strip(e.term)) in ('append', 'add', 'insert') and full(receiver(strip(e.term))) == ('attr', A0, 'repositories') and any(full(x) == A1 for x in strip(e.term)[2])
               for e in p.events if e.kind == 'call'), f.qual, f.where, 'the repository is not one of the session')
        ctx.ob(any(e.kind == 'store' and full(e.term) == ('attr', A1, '_session') and full(e.value) == A0 for e in p.events), f.qual, f.where, 'the repository does not know its session')
    f = fn(ctx, 'protocols.repository:Repository.__init__')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        bound = [strip(e.term) for e in p.calls('bind_repo')]
        ctx.ob(len(bound) == 1 and [full(x) for x in bound[0][2]] == [A0], f.qual, f.where, 'the repository is not bound once to a session')
        for t in bound:
            s = full(receiver(t))
            fs = {full(x): b for x, b in allfacts(p)}
            saver = [full(e.value) for e in p.stores() if full(e.term) == ('attr', A0, '_saver')]
            told = [b if x == A1 else not b for x, b in fs.items() if x in (A1, ('cmp', 'is', A1, NONE))]
            ctx.ob(told == [True] and saver == [A1] or told == [False] and saver in ([], [('attr', A0, '_saver')]), f.qual, f.where, 'the saver given is not the one which is used')
            many = [b for x, b in fs.items() if x == ('attr', A0, '_many')]
            ctx.ob(many == [any(full(e.term) == ('attr', A0, '_content') and full(e.value) in (('list', ()), ('call', ('name', 'list'), (), ())) for e in p.stores())], f.qual, f.where, 'the content is not a list of its own')
            ctx.ob(any(x in (A2, ('cmp', 'is', A2, NONE)) for x in fs), f.qual, f.where, 'no session is no default one')
            given = fs.get(A2, None if ('cmp', 'is', A2, NONE) not in fs else not fs[('cmp', 'is', A2, NONE)])
            ctx.ob(s == A2 if given is not False else s[0] == 'attr' and s[2] == '_session' and s[1] in SELF or s == ('name', 'default_session'), f.qual, f.where, 'the repository is bound to %s' % show(s)[:60])
    f = fn(ctx, 'session:Session.get_or_create_repo')
    n, there = 0, False
    registered = lambda t: callname(full(t)) == 'get' and full(full(t)[2][0]) == A1 or full(t)[0] == 'sub' and full(full(t)[2]) == A1
    for p in ctx.paths(f):
        if p.normal:
            n += 1
            r = full(p.returns)
            if repository(r) is not None:
                ok = False
                for t, b in conditions(p, r):
                    t = full(t)
                    ok |= b and t[0] == 'cmp' and t[1] in ('eq', 'is') and any(registered(x) or full(x) == A1 for x in t[2:4]) \
                        or b and callname(t) in ('isinstance',) and any(registered(x) for x in t[2])
                there |= any(b and (full(t)[0] == 'cmp' and full(t)[1] in ('eq', 'is') and any(registered(x) for x in full(t)[2:4]) or callname(full(t)) == 'isinstance') for t, b in conditions(p, r))
                ctx.ob(repository(r) == A0 and ok, f.qual, f.where, 'another repository is given')
            else:
                made = r[0] == 'call' and registered(r[1])
                ctx.ob(made, f.qual, f.where, 'what is given is not made from the class registered under the name: %s' % show(r)[:60])
                ctx.ob(finishes(p) and any(y == A0 for x in list(r[2]) + [v for k, v in r[3]] for y in subterms(full(x))) if made else False, f.qual, f.where,
                       'a repository is made again, or for another session')
                if made:
                    known = [b if registered(t) else not b for t, b in allfacts(p) if registered(t) or full(t)[0] == 'cmp' and full(t)[1] == 'is' and NONE in [full(x) for x in full(t)[2:4]]
                             and any(registered(x) for x in full(t)[2:4])]
                    ctx.ob(True in known or callname(full(r[1])) != 'get', f.qual, f.where, 'a name which is not registered is called')
                    if 'session' in [k for k, v in r[3]]:
                        ctx.ob(False, f.qual, f.where, 'the session is taken as an item of the repository')
        else:
            ctx.ob(finishes(p), f.qual, f.where, 'it fails before the repositories are looked at')
            told = [b for t, b in allfacts(p) if registered(t) or full(t)[0] == 'cmp' and full(t)[1] == 'is' and any(registered(x) for x in full(t)[2:4]) and NONE in [full(x) for x in full(t)[2:4]]]
            ctx.ob(bool(told) or any(f2[0] == 'caught' for f2, b in allfacts(p)), f.qual, f.where, 'a name which is registered is refused')
    ctx.ob(there, f.qual, f.where, 'the repository which is there is not given')
    ctx.need(1, n, 'repositories given')


@rule('P25', 'scoped', 'a scoped session is the same one until it is removed: it is not made again with arguments, it is closed when it is removed, and its configuration is that of the next ones')
def p25_scoped(ctx):
    reg = ('attr', A0, 'registry')
    f = fn(ctx, 'session:scoped_session.__call__')
    has = lambda t: callname(full(t)) == 'has' and full(receiver(strip(full(t)))) == reg
    for p in ctx.paths(f):
        fs = {('has' if has(t) else full(t)): b for t, b in allfacts(p)}
        args = fs.get(KW)
        if not p.normal:
            ctx.ob(args is not False and fs.get('has') is True and exc_name(p.outcome[1]) == 'InvalidOperation', f.qual, f.where, 'a session is refused')
            continue
        r = full(p.returns)
        current = r[0] == 'call' and full(r[1]) == reg and not r[2] and not r[3]
        made = r[0] == 'call' and full(r[1]) == ('attr', A0, 'session_factory')
        sets = [strip(e.term) for e in p.calls('set') if full(receiver(strip(e.term))) == reg]
        if current:
            ctx.ob(args is not True, f.qual, f.where, 'the arguments given are ignored')
        elif made:
            ctx.ob(args is True and fs.get('has') is False, f.qual, f.where, 'a session is made while there is one')
            ctx.ob(len(sets) == 1 and full(sets[0][2][0]) == r, f.qual, f.where, 'the session made is not the one of the scope')
            ctx.ob(any(k in ('**', None) and full(v) == KW for k, v in r[3]), f.qual, f.where, 'the arguments given are ignored')
        else:
            ctx.ob(False, f.qual, f.where, 'what is given is not the session of the scope: %s' % show(r)[:60])
    f = fn(ctx, 'session:scoped_session.remove')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        seen = {b for t, b in allfacts(p) if has(t)}
        order = [('close' if callname(strip(e.term)) == 'close' else 'clear') for e in p.events if e.kind == 'call'
                 and (callname(strip(e.term)) == 'close' and full(receiver(strip(e.term)))[0] == 'call' and full(full(receiver(strip(e.term)))[1]) == reg
                      or callname(strip(e.term)) == 'clear' and full(receiver(strip(e.term))) == reg)]
        asked = any(e.kind == 'call' and full(e.term)[0] == 'call' and full(full(e.term)[1]) == reg for e in p.events)
        ctx.ob(order in (['close', 'clear'], ['clear']), f.qual, f.where, 'the session is not forgotten once closed: %s' % order)
        ctx.ob(not asked or order[:1] == ['close'] and True in seen, f.qual, f.where, 'a session is made to be forgotten')
        ctx.ob(True not in seen or order[:1] == ['close'], f.qual, f.where, 'the session is forgotten and not closed')
    ctx.ob(any(e for p in ctx.paths(f) for e in p.calls('close')), f.qual, f.where, 'no session is closed')
    f = fn(ctx, 'session:scoped_session.configure')
    for p in ctx.paths(f):
        c = [strip(e.term) for e in p.calls('configure') if full(receiver(strip(e.term))) == ('attr', A0, 'session_factory')]
        ctx.ob(p.normal and len(c) == 1 and any(k in ('**', None) and full(v) == KW for k, v in c[0][3]), f.qual, f.where, 'the configuration is not given to the factory')
    f = fn(ctx, 'session:scoped_session.__init__')
    for p in ctx.paths(f):
        if p.normal:
            st = {full(e.term)[2]: full(e.value) for e in p.stores() if full(e.term)[0] == 'attr' and full(e.term)[1] == A0}
            ctx.ob(st.get('session_factory') == A1, f.qual, f.where, 'the factory given is not the one which is used')
            r = st.get('registry', ('none',))
            scope = {b if full(t) == A2 else not b for t, b in allfacts(p) if full(t) == A2 or full(t) == ('cmp', 'is', A2, NONE)}
            ctx.ob(scope == {callname(r) == 'ScopedRegistry'}, f.qual, f.where, 'the sessions are not those of the scope asked')
            ctx.ob(callname(r) in ('ScopedRegistry', 'ThreadLocalRegistry') and full(r[2][0]) == A1 and (callname(r) == 'ThreadLocalRegistry' or len(r[2]) > 1 and full(r[2][1]) == A2), f.qual, f.where,
                   'the sessions of the scope are not made by the factory')
    f = fn(ctx, 'session:close_all_sessions')
    for p in ctx.paths(f):
        if p.normal:
            ctx.ob(any(t[0] == 'empty' and b for t, b in allfacts(p)) or any(e for e in p.calls('close')), f.qual, f.where, 'a session is not closed')


@rule('P25', 'maker', 'a session is made with what its maker is configured with, what is given for it coming first; the configuration is not changed by it')
def p25_maker(ctx):
    conf = ('attr', A0, 'kw')
    f = fn(ctx, 'session:session_maker.__call__')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        r = full(p.returns)
        ctx.ob(r[0] == 'call' and full(r[1]) == ('attr', A0, 'class_'), f.qual, f.where, 'what is made is not of the class asked')
        if any(t[0] == 'empty' and b and any(full(y) == conf for y in subterms(t)) for t, b in allfacts(p)):
            continue
        n += 1
        facts = [(full(t), b) for t, b in allfacts(p)]
        info = [b for t, b in facts if t[0] == 'cmp' and t[1] == 'eq' and const('info') in [full(x) for x in t[2:4]]]
        both = info == [True] and any(b and t[0] == 'cmp' and t[1] == 'in' and full(t[2]) == const('info') and full(t[3]) == KW for t, b in facts)
        mixed = [e for e in p.stores() if full(e.term)[0] == 'sub' and full(full(e.term)[2]) == const('info')]
        for e in mixed:
            v, mine = full(e.value), ('sub', KW, const('info'))
            parts = set(subterms(v)) | {y for u in p.calls('update') if full(receiver(strip(u.term))) == v for y in subterms(full(strip(u.term)[2][0]))}
            over = [u for u in p.calls('update') if full(receiver(strip(u.term))) == v]
            if over:
                ctx.ob(any(full(y) == mine for y in subterms(full(strip(over[-1].term)[2][0]))), f.qual, e.where, 'the informations given do not come before those of the maker')
            ctx.ob(both and any(full(y) == mine for y in parts) and any(any(z == conf for z in subterms(full(y))) for y in parts), f.qual, e.where, 'the informations given are not added to those of the maker')
        ctx.ob(not both or bool(mixed), f.qual, f.where, 'the informations of the maker are ignored')
        ctx.ob(r[0] == 'call' and any(k in ('**', None) for k, v in r[3]), f.qual, f.where, 'the session is not made of what it is given')
        low = [e for e in p.calls('setdefault') if full(receiver(strip(e.term))) == KW]
        merged = False
        for e in p.events:
            t = strip(e.term) if e.term else None
            if e.kind == 'call' and callname(t) in ('update', 'setdefault', 'pop', 'clear', '__setitem__'):
                o = full(receiver(t))
                bare_ = unold(receiver(t))
                fresh = bare_[0] == 'new' or callname(o) in ('copy', 'dict', 'deepcopy') or o[0] == 'dict'
                ctx.ob(o == KW or fresh, f.qual, e.where, 'the configuration of the maker is changed')
                if callname(t) == 'update' and fresh and any(full(y) == KW for y in subterms(full(t[2][0]))):
                    merged = True
            if e.kind == 'store' and t[0] == 'sub':
                o = full(t[1])
                ctx.ob(o == KW or o[0] in ('dict', 'new') or callname(o) in ('copy', 'dict'), f.qual, e.where, 'the configuration of the maker is changed')
            if e.kind == 'store' and t[0] == 'attr':
                ctx.ob(False, f.qual, e.where, 'the maker is changed')
        over = [e for e in p.stores() if strip(e.term)[0] == 'sub' and full(strip(e.term)[1]) == KW and full(full(strip(e.term)[2]))[0] == 'item']
        for e in over:
            ctx.ob(any(not b and full(t)[0] == 'cmp' and full(t)[1] == 'in' and full(full(t)[3]) == KW for t, b in allfacts(p)) or merged, f.qual, e.where, 'what is given is replaced by the configuration')
        chained = any(callname(full(v)) in ('dict', 'ChainMap') or full(v)[0] == 'dict' for k, v in r[3]) if r[0] == 'call' else False
        for e in low:
            a = [full(x) for x in strip(e.term)[2]]
            ctx.ob(len(a) == 2 and all(any(y == conf for y in subterms(x)) for x in a) and a[0] != a[1] and (a[0][0] != 'sub' or full(a[0][2]) != const(1)) and (a[1][0] != 'sub' or full(a[1][2]) != const(0)),
                   f.qual, e.where, 'an option is not given under its name')
        ctx.ob(bool(low) or bool(over) or bool(mixed) or merged or chained, f.qual, f.where, 'what the maker is configured with is ignored')
    ctx.need(2, n, 'sessions made')
    f = fn(ctx, 'session:session_maker.configure')
    for p in ctx.paths(f):
        ctx.ob(p.normal and any(callname(strip(e.term)) == 'update' and full(receiver(strip(e.term))) == conf and (full(strip(e.term)[2][0]) == KW if strip(e.term)[2] else any(full(v) == KW for k, v in strip(e.term)[3]))
                                for e in p.calls('update')) or any(e.kind == 'store' and full(e.term) == conf and {conf, KW} <= {full(y) for y in subterms(e.value)} for e in p.events), f.qual, f.where,
               'what is configured is not kept')
    f = fn(ctx, 'session:session_maker.__init__')
    names = {a.arg: i for i, a in enumerate(f.node.args.args)}
    for p in ctx.paths(f):
        if not p.normal:
            continue
        st, kept, klass = {}, None, None
        for e in p.events:
            t = full(e.term) if e.term else None
            if e.kind == 'store' and t[0] == 'sub':
                st[full(t[2])] = full(e.value)
            elif e.kind == 'store' and t == conf:
                kept = full(e.value)
                st.update(pairs(kept))
            elif e.kind == 'store' and t == ('attr', A0, 'class_'):
                klass = full(e.value)
            elif e.kind == 'call' and callname(t) == 'update':
                st.update(pairs(t))
        ctx.ob(kept is not None and (any(y == KW for y in subterms(kept)) or any(callname(full(e.term)) == 'update' and any(full(y) == KW for y in subterms(full(e.term))) for e in p.calls('update'))),
               f.qual, f.where, 'the options given are not kept')
        ctx.ob(klass is not None and any(y == ('arg', names['class_']) for y in subterms(klass)), f.qual, f.where, 'the class given is not that of the sessions')
        given = [b for t, b in allfacts(p) if full(t) == ('cmp', 'is', ('arg', names['info']), NONE)]
        for k in ('bind', 'autoflush', 'autocommit', 'expire_on_commit') + (('info',) if given == [False] else ()):
            ctx.ob(st.get(const(k)) == ('arg', names[k]), f.qual, f.where, 'the option %s is not kept' % k)


def pairs(t):
    """Keys and values said by the display of a dictionary, by dict(...) or update(...)."""
    out = {}
    if t[0] == 'dict':
        out.update((full(x[0]), full(x[1])) for x in t[1] if len(x) == 2 and isinstance(x[0], tuple))
    elif t[0] == 'call':
        out.update((const(k), full(v)) for k, v in t[3] if isinstance(k, str))
        for x in t[2]:
            out.update(pairs(full(x)))
    return out


def is_zero(t, v):
    return t[0] == 'cmp' and t[1] in ('eq', 'is') and {full(t[2]), full(t[3])} == {v, const(0)}


@rule('P25', 'keys', 'the keys of an entity are the values of its primary keys, in their order; given a key instead of its items, it is the one which its session, or the default one, resolves')
def p25_keys(ctx):
    f = fn(ctx, 'models.instances:Entity.get_identityKeys')
    pk = [('attr', x, y) for x in SELF for y in ('_primaryKeys', 'primaryKeys')]
    for p in ctx.paths(f):
        if not p.normal:
            continue
        r = full(p.returns)
        if r == ('attr', A0, '_identityKeys'):
            st = [full(e.value) for e in p.stores() if full(e.term) == r]
            ctx.ob(bool(st), f.qual, f.where, 'the keys are those of the last time they were asked')
            r = st[-1] if st else r
        while callname(r) in ('tuple', 'list') and len(r[2]) == 1:
            r = full(r[2][0])
        ctx.ob(r[0] == 'comp' and not r[4] and full(r[3][0]) in pk and full(r[2][0]) == ('sub', A0, ('item', full(r[3][0]))), f.qual, f.where, 'the keys are not the values of the primary keys in order: %s' % show(r)[:80])
    for m, own, klass in (('__new__', ('sub', ARGS, const(0)), (A0,)), ('__init__', A1, (('attr', A0, '__class__'),))):
        f = fn(ctx, 'models.instances:Entity.' + m)
        n = 0
        for p in ctx.paths(f):
            for e in p.calls('resolve_fkey'):
                n += 1
                t = strip(e.term)
                s = full(receiver(t))
                fs = [(full(x), b) for x, b in allfacts(p)]
                mapping = [b for x, b in fs if callname(x) == 'isinstance' and full(x[2][0]) == own]
                ctx.ob(False in mapping, f.qual, e.where, 'items are taken for a key')
                ctx.ob(full(t[2][0]) == own, f.qual, e.where, 'another key is resolved: %s' % show(t[2][0])[:60])
                ctx.ob((own, True) in fs or any(b and is_zero(x, own) for x, b in fs) or (('cmp', 'is', own, NONE), False) in fs, f.qual, e.where, 'no key is resolved')
                ctx.ob(len(t[2]) > 1 and full(t[2][1]) in klass, f.qual, e.where, 'an entity of another class is resolved')
                ctxsess = s[0] == 'attr' and s[2] in ('_session', 'session') and any(y == const('context') for y in subterms(s[1])) or callname(s) == 'getattr'
                ctx.ob(ctxsess or s == ('name', 'default_session'), f.qual, e.where, 'another session is asked: %s' % show(s)[:60])
                if s == ('name', 'default_session'):
                    ctx.ob(any(not b and any(y == const('context') for y in subterms(x)) for x, b in fs) or any(b and x[0] == 'cmp' and x[1] == 'is' and NONE in x[2:4] for x, b in fs), f.qual, e.where,
                           'the session of the context is not asked')
            if p.normal and not p.calls('resolve_fkey'):
                fs = [(full(x), b) for x, b in allfacts(p)]
                none = (ARGS, False) in fs or (('cmp', 'is', own, NONE), True) in fs or (own, False) in fs and any(not b and is_zero(x, own) for x, b in fs)
                ctx.ob(none or any(b and callname(x) == 'isinstance' and full(x[2][0]) == own for x, b in fs), f.qual, f.where, 'a key (0 is one) is not resolved')
            if p.normal and m == '__init__':
                given = {b if full(x) == A2 else not b for x, b in allfacts(p) if full(x) in (A2, ('cmp', 'is', A2, NONE))}
                st = [full(e.value) for e in p.stores() if full(e.term) == ('attr', A0, '_primaryKeys')]
                ctx.ob(True not in given or st == [A2], f.qual, f.where, 'the primary keys given are ignored')
                ctx.ob(False not in given or st in ([], [('attr', A0, '_primaryKeys')]), f.qual, f.where, 'the primary keys are lost')
                ctx.ob(bool(given), f.qual, f.where, 'the primary keys given are ignored')
                ctx.ob(all(any(k in ('**', None) and full(v) == KW for k, v in strip(e.term)[3]) for e in p.calls('__init__')), f.qual, f.where, 'the options are lost')
                res = [full(e.term) for e in p.calls('resolve_fkey')]
                init = [strip(e.term) for e in p.calls('__init__') if len(strip(e.term)[2]) >= 2 and full(strip(e.term)[2][0]) == A0]
                ctx.ob(bool(init) and all(full(t[2][1]) == (res[0] if res else A1) for t in init), f.qual, f.where, 'the entity is not made of what is resolved')
            if p.normal and m == '__new__':
                res = [full(e.term) for e in p.calls('resolve_fkey')]
                r = full(p.returns)
                ctx.ob(r[0] == 'call' and full(r[2][0]) == (('attr', res[0], '__class__') if res else A0) or res and callname(full(r[2][0])) == 'type', f.qual, f.where, 'the entity is not of the class of what is resolved')
        ctx.need(1, n, 'keys resolved by ' + m)


@rule('P25', 'serialized', 'an entity which is held by another one is serialized to its own keys when it is asked: the key itself, or the only one by its name')
def p25_serialized(ctx):
    f = fn(ctx, 'models.instances:Entity._serialize')
    keys = [('attr', A1, x) for x in ('identityKeys', '_identityKeys')]
    names = [('attr', A1, x) for x in ('primaryKeys', '_primaryKeys')] + [('attr', A0, '_primaryKeys')]
    opt = lambda n: lambda t: (callname(full(t)) == 'get' and full(receiver(strip(full(t)))) == KW and full(full(t)[2][0]) == const(n))
    one = lambda t: full(t)[0] == 'cmp' and full(t)[1] == 'eq' and const(1) in [full(x) for x in full(t)[2:4]]
    n = 0
    for p in ctx.paths(f):
        fs = allfacts(p)
        o = {k: next((b for t, b in fs if opt(k)(t)), None) for k in ('use_identity_keys', 'use_entity_keys', 'add_identity_keys')}
        root = next((b for t, b in fs if full(t) == A2), None)
        some = next((b for t, b in fs if full(t) == A1), None)
        if not p.normal:
            continue
        n += 1
        r = full(p.returns)
        single = next((b for t, b in fs if one(t)), None)
        for t, b in allfacts(p):
            if any(opt(k)(t) for k in o):
                ctx.ob(len(full(t)[2]) < 2 or full(full(t)[2][1]) in (const(False), NONE), f.qual, f.where, 'keys are given without being asked')
        if some and root is False:
            ctx.ob(o['use_identity_keys'] is not None and (o['use_identity_keys'] or o['use_entity_keys'] is not None), f.qual, f.where, 'the keys which are asked are not given')
        if some and root is False and o['use_identity_keys']:
            ctx.ob(r in [('sub', k, const(0)) for k in keys] if single else r in keys and single is False, f.qual, f.where, 'the keys are not those of the entity: %s' % show(r)[:60])
        elif some and root is False and o['use_entity_keys']:
            ok = r[0] == 'dict' and len(r[1]) == 1 if r[0] == 'dict' else False
            k, v = (full(x) for x in r[1][0]) if ok else (None, None)
            ref = next((b for t, b in fs if full(t)[0] == 'cmp' and full(t)[1] == 'eq' and const('$id') in [full(x) for x in full(t)[2:4]]), None)
            ctx.ob(ok and v in [('sub', x, const(0)) for x in keys] and single is True, f.qual, f.where, 'the key is not that of the entity')
            ctx.ob(ok and (k == const('$ref') if ref else k in [('sub', x, const(0)) for x in names]), f.qual, f.where, 'the key is not under its name')
        else:
            ctx.ob(callname(r) == '_serialize' and full(r[2][-1]) == A1, f.qual, f.where, 'an entity which is asked in full is not: %s' % show(r)[:60])
            ctx.ob(o['add_identity_keys'] is not None, f.qual, f.where, 'the keys which are asked are not added')
            ctx.ob(any(k in ('**', None) and full(v) == KW for k, v in r[3]), f.qual, f.where, 'the options are lost')
            if o['add_identity_keys']:
                ctx.ob(any(t[0] in ('loop', 'empty') and full(t[1]) in names for t, b in fs), f.qual, f.where, 'the keys are not added')
            if o['add_identity_keys'] and not any(t[0] == 'empty' and b for t, b in fs):
                have = next((b for t, b in fs if full(t)[0] == 'cmp' and full(t)[1] == 'is' and NONE in full(t)[2:4]), None)
                st = [(full(strip(e.term)[2]), full(e.value)) for e in p.stores() if strip(e.term)[0] == 'sub']
                ctx.ob(have is True and not st or len(st) == 1 and st[0][0][0] == 'item' and full(st[0][0][1]) in names and st[0][1] == ('sub', A1, st[0][0]), f.qual, f.where, 'the keys are not added')
    ctx.need(5, n, 'ways to serialize an entity')


def one_type(t, types):
    t = full(t)
    return t[0] == 'cmp' and t[1] == 'eq' and const(1) in [full(x) for x in t[2:4]] and any(full(y) == types for y in subterms(t))


@rule('P25', 'proxies', 'a foreign key knows the keys of its class once this one is built: it keeps the class which stands for it, and asks it when it has to')
def p25_proxies(ctx):
    f = fn(ctx, 'types.foreign_key:ForeignKey.set_foreignClass')
    n = 0
    at = ('attr', A0, '_foreignClass')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = [(full(t), b) for t, b in allfacts(p)]
        st = {full(e.term)[2]: full(e.value) for e in p.stores() if full(e.term)[0] == 'attr' and full(e.term)[1] == A0}
        if (A1, False) in fs or (('cmp', 'is', A1, NONE), True) in fs:
            ctx.ob('_foreignClass' not in st, f.qual, f.where, 'the class is lost')
            continue
        n += 1
        proxy = any(b and callname(t) == 'issubclass' and full(t[2][1]) == ('name', 'TypeProxy') for t, b in fs)
        ctx.ob(st.get('_foreignClass') == A1, f.qual, f.where, 'the class which is given is not that of the key')
        if not proxy:
            ctx.ob(any(b and callname(t) == 'issubclass' and full(t[2][0]) == A1 and full(t[2][1]) == ('name', 'Entity') for t, b in fs), f.qual, f.where, 'a class which has no keys is taken')
            ks = st.get('_foreignKeys', NONE)
            ctx.ob(ks == ('attr', A1, '_primaryKeys') or callname(ks) == 'get' and full(ks[2][0]) == const('foreignKeys') and full(ks[2][-1]) == ('attr', A1, '_primaryKeys') or ks[0] == 'sub' and full(ks[2]) == const('foreignKeys'),
                   f.qual, f.where, 'the foreign keys are not those asked, or the primary ones of the class')
            ts = st.get('_foreignKeysType', NONE)
            while callname(ts) in ('tuple', 'list') and len(ts[2]) == 1:
                ts = full(ts[2][0])
            e = full(ts[2][0]) if ts[0] == 'comp' else NONE
            ctx.ob(ts[0] == 'comp' and not ts[4] and full(ts[3][0]) == ks and callname(e) in ('_items_type', 'items_type', 'item_type') and full(e[2][-1]) == ('item', ks), f.qual, f.where,
                   'the types of the keys are not those of the items of the class')
    ctx.need(2, n, 'classes given to foreign keys')
    f = fn(ctx, 'types.foreign_key:ForeignKey.get_foreignClass')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = [(full(t), b) for t, b in allfacts(p)]
        r = unold(p.returns)
        proxy = any(b and callname(t) == 'issubclass' and full(t[2][0]) == at and full(t[2][1]) == ('name', 'TypeProxy') for t, b in fs)
        if proxy:
            n += 1
            ctx.ob(any(callname(full(e.term)) == 'set_foreignClass' and callname(full(full(e.term)[2][-1])) == 'proxy_type' and full(receiver(strip(full(full(e.term)[2][-1])))) == at for e in p.calls('set_foreignClass')),
                   f.qual, f.where, 'the keys are not those of the class once it is built')
        ctx.ob(full(r) == at, f.qual, f.where, 'what is given is not the class of the key')
        sch = ('attr', A0, '_foreignSchema')
        loads = [full(e.term) for e in p.calls('set_foreignSchema')]
        known = [b for t, b in fs if t == at][-1:] or [not b for t, b in fs if t == ('cmp', 'is', at, NONE)]
        ctx.ob(not loads or all(full(t[2][-1]) == sch for t in loads) and False in known and (sch, True) in fs, f.qual, f.where, 'the class is loaded from another schema, or again')
        ctx.ob(bool(loads) or True in known or proxy or (sch, False) in fs or (('cmp', 'is', sch, NONE), True) in fs, f.qual, f.where, 'the class is not loaded from its schema')
    ctx.need(1, n, 'classes which are built later')
    # the types of the keys are read once the class is known, each one for its key
    C = 'types.foreign_key:ForeignKey.'
    fkt = ('attr', A0, '_foreignKeysType')
    for m in ('_convert', '_check', '_serialize'):
        f = fn(ctx, C + m)
        n = 0
        for p in ctx.paths(f):
            if not p.normal:
                continue
            fs = [(full(t), b) for t, b in allfacts(p)]
            asked = [i for i, e in enumerate(p.events) if e.kind == 'call' and callname(strip(e.term)) == 'get_foreignClass']
            used = [i for i, e in enumerate(p.events) if e.kind == 'call' and any(full(y) == fkt for y in subterms(full(e.term)))]
            if used or any(full(y) == fkt for y in subterms(full(p.returns))):
                ctx.ob(bool(asked) and min(asked) < min(used + [len(p.events)]) or (A2, True) in fs and m == '_convert', f.qual, f.where, 'the types of the keys are read before the class is known')
            r = full(p.returns)
            if m == '_check':
                n += 1
                ok = [t for t, b in fs if b and callname(t) == 'all' and t[2]]
                ctx.ob(r == A1 and bool(ok) or any(t[0] in ('looped', 'empty') and b for t, b in fs) and r == A1, f.qual, f.where, 'a key is accepted unchecked')
                for t in ok:
                    c = full(t[2][0])
                    ctx.ob(c[0] == 'comp' and not c[4] and typed(full(c[2][0]), '_check', fkt, lambda v: any(full(y) == A1 for y in subterms(v))), f.qual, f.where, 'the keys are not each checked by its own type')
                continue
            if r == NONE:
                continue
            n += 1
            one = [b for t, b in fs if one_type(t, fkt)]
            if m == '_serialize':
                ctx.ob(len(one) == 1, f.qual, f.where, 'one key is not told from several')
            if r[0] == 'call' and callname(r) in ('_convert', 'convert', '_serialize', 'serialize'):
                ctx.ob(one == [True] and typed(r, callname(r), fkt, lambda v: v == A1 or m == '_convert' and (v[0] == 'sub' and full(v[2]) == const(0) or any(y[0] == 'item' for y in subterms(v)))), f.qual, f.where,
                       'the key is not made by its own type: %s' % show(r)[:60])
            else:
                while callname(r) in ('tuple', 'list') and len(r[2]) == 1:
                    r = full(r[2][0])
                e = full(r[2][0]) if r[0] == 'comp' else NONE
                ctx.ob(one == [False] and r[0] == 'comp' and not r[4] and typed(e, callname(e), fkt, lambda v: v[0] == 'item' and (v == ('item', A1) or m == '_convert')), f.qual, f.where, 'the keys are not each made by its own type: %s' % show(r)[:60])
        ctx.need(1, n, 'keys')


def typed(t, name, types, value):
    """T.name(T, value), T being one of the types."""
    if t[0] != 'call' or t[1][0] != 'attr' or t[1][2] != name or not name or len(t[2]) != 2:
        return False
    kind = full(t[1][1])
    return kind == full(t[2][0]) and (kind == ('item', types) or kind == ('sub', types, const(0))) and value(full(t[2][1])) and (any(k in ('**', None) and full(v) == KW for k, v in t[3]) or name == '_check')


@rule('P25', 'converted', 'a foreign key is made of the keys of the entity given, in the order of the foreign keys, each one of its own type; no entity is none')
def p25_converted(ctx):
    f = fn(ctx, 'types.foreign_key:ForeignKey._convert')
    fkt, fks = ('attr', A0, '_foreignKeysType'), ('attr', A0, '_foreignKeys')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = [(full(t), b) for t, b in allfacts(p)]
        none = next((b for t, b in fs if t == ('cmp', 'is', A1, NONE)), None)
        r = full(p.returns)
        ctx.ob(none is not None, f.qual, f.where, 'no key is not told')
        if none:
            ctx.ob(r == NONE, f.qual, f.where, 'no key is made one')
            continue
        if r == NONE:
            ctx.ob(any(b and t == ('cmp', 'lt', A1, const(0)) for t, b in fs), f.qual, f.where, 'a key is made none')
            continue
        n += 1
        own = [t for t, b in fs if callname(t) == 'isinstance' and len(t[2]) == 2 and full(t[2][0]) == A1]
        klass = lambda c: c == A2 or callname(c) == 'get_foreignClass' and [full(x) for x in c[2]] == [A0]
        ctx.ob(all(klass(full(t[2][1])) for t in own), f.qual, f.where, 'an entity of another class is looked for')
        ctx.ob(bool(own) or any(not b and klass(t) or b and t[0] == 'cmp' and t[1] == 'is' and klass(full(t[2])) and full(t[3]) == NONE for t, b in fs), f.qual, f.where, 'an entity is not known to be one')
        given = [b if t == A2 else not b for t, b in fs if t in (A2, ('cmp', 'is', A2, NONE))]
        for t in own:
            ctx.ob(given == [full(t[2][1]) == A2], f.qual, f.where, 'the class given is not the one which is looked for')
        for e in p.calls('deserialize', '_deserialize'):
            t = strip(e.term)
            k = dict(t[3])
            if 'split_string' in k:
                v = full(k['split_string'])
                several = v[0] == 'cmp' and (any(full(y) == fkt for y in subterms(v)))
                ctx.ob(several or v == const(False) or v == const(True) and False in [b for x, b in fs if one_type(x, fkt)], f.qual, e.where, 'a text which is one key is split')
        ctx.ob(any(t[0] == 'cmp' and t[1] == 'eq' and b and all(callname(full(x)) == 'len' for x in t[2:4]) and any(full(y) == fkt for x in t[2:4] for y in full(x)[2]) for t, b in fs), f.qual, f.where,
               'a key which is not complete, or says more, is taken')
        entity = next((b for t, b in fs if callname(t) == 'isinstance' and full(t[2][0]) == A1 and len(t[2]) == 2), None)
        if entity:
            got = [y for y in subterms(r) if y[0] == 'comp' and full(y[3][0]) == fks]
            ctx.ob(any(not y[4] and (callname(full(y[2][0])) == 'getattr' and [full(x) for x in full(y[2][0])[2][:2]] == [A1, ('item', fks)] or full(y[2][0]) == ('sub', A1, ('item', fks))) for y in got),
                   f.qual, f.where, 'the key is not made of those of the entity')
        single = next((b for t, b in fs if t[0] == 'cmp' and t[1] == 'eq' and const(1) in t[2:4] and any(full(y) == fkt for y in subterms(t))), None)
        if single:
            arg = full(r[2][1]) if r[0] == 'call' and len(r[2]) == 2 else full(r[2][0]) if r[0] == 'call' and r[2] else NONE
            ctx.ob(arg[0] == 'sub' and full(arg[2]) == const(0) or arg == A1 and not entity or entity and any(y[0] == 'item' for y in subterms(arg)), f.qual, f.where, 'the key is not the one given: %s' % show(arg)[:60])
            ctx.ob(callname(r) in ('_convert', 'convert') and any(full(y) == ('sub', fkt, const(0)) for y in subterms(r[1])), f.qual, f.where, 'the key is not of the type of the foreign one')
        else:
            c = r
            while callname(c) in ('tuple', 'list') and len(c[2]) == 1:
                c = full(c[2][0])
            ctx.ob(c[0] == 'comp' and not c[4] and callname(full(c[2][0])) in ('_convert', 'convert') and callname(full(c[3][0])) == 'zip' and full(full(c[3][0])[2][0]) == fkt, f.qual, f.where,
                   'the keys are not each of its own type')
    ctx.need(4, n, 'keys converted')


def name_of(t, o, fs):
    """t is the name of o without its prefix, or that of what has none."""
    t = full(t)
    if t[0] != 'sub' or full(t[2]) != const(-1) or callname(full(t[1])) not in ('rsplit', 'split') or [full(x) for x in full(t[1])[2]][:1] != [const(':')]:
        return False
    n = full(receiver(strip(full(t[1]))))
    field = lambda x: x == ('attr', o, 'name') or callname(x) == 'get' and full(receiver(strip(x))) == o and full(x[2][0]) in (('name', 'ATTRIBUTE_NAME_FIELD'), const('name'))
    none = [b for x, b in fs if field(full(x))]
    if n == const('<anonymous>'):
        return True not in none and bool(none)
    return field(n) and False not in none and (bool(none) or len(full(n)[2] if n[0] == 'call' else ()) > 1)


@rule('P25', 'names', 'a canonical name is looked for from the object, its own name before it, through its items in depth, and what is found is what lies at the path')
def p25_names(ctx):
    f = fn(ctx, 'protocols.object_protocol:ObjectProtocol.resolve_cname')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        asked = [strip(e.term) for e in p.calls('resolve_cname_path')]
        ctx.ob(len(asked) == 1 and (full(asked[0][2][-1]) == A1 or split_of(A1)(full(asked[0][2][-1]))), f.qual, f.where, 'another name is looked for')
        r = full(p.returns)
        if not asked:
            continue
        path = full(asked[0])
        text = next((b for t, b in allfacts(p) if callname(full(t)) in ('is_sequence', 'check', 'isinstance', 'is_string')), None)
        for t, b in allfacts(p):
            if callname(full(t)) == 'check':
                ctx.ob(any(k == 'split_string' and full(v) == const(False) for k, v in full(t)[3]) or 'Array' not in show(full(t)), f.qual, f.where, 'a text is taken for a list of names')
        ctx.ob(r == A0 and any(t[0] == 'empty' and b and full(t[1]) == path for t, b in allfacts(p)) or r[0] == 'sub' and full(r[1]) == A0 and full(r[2]) == ('item', path)
               or callname(r) == 'reduce' and any(full(x) == path for x in r[2]) and full(r[2][-1]) == A0, f.qual, f.where, 'what is given does not lie at the path: %s' % show(r)[:80])
    ctx.need(2, n, 'names resolved')
    f = fn(ctx, 'protocols.object_protocol:ObjectProtocol.resolve_cname_path')
    n = 0
    asks = lambda t: t[0] == 'call' and len(t[2]) == 4 and not t[3]
    empty = lambda t: full(t) == ('list', ())
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        first = {full(t[1]) for t, b in fs if t[0] in ('loop', 'empty', 'looped') and asks(full(t[1])) and full(full(t[1])[2][1]) == A0}
        for t in first:
            a = [full(x) for x in t[2]]
            ok = a[0][0] == 'sub' and full(a[0][2])[0] == 'slice' and full(full(a[0][2])[1]) in (NONE, const(0)) and full(full(a[0][2])[2]) == const(-1) and empty(a[2]) and empty(a[3])
            ctx.ob(ok, f.qual, f.where, 'the search does not begin at the object, by the names before the last one: %s' % show(t)[:80])
            if not ok:
                continue
            names = full(a[0][1])
            mine = names[0] == 'bin' and names[1] == 'Add' and full(names[2])[0] == 'list' and len(full(names[2])[1]) == 1 or names[0] == 'list'
            ctx.ob(mine and any(y == A1 for y in subterms(names)), f.qual, f.where, 'the name which is given is not looked for: %s' % show(names)[:80])
            own = full(full(names[2])[1][0]) if mine and names[0] == 'bin' else full(names[1][0]) if mine and names[1] else NONE
            ctx.ob(name_of(own, A0, fs), f.qual, f.where, 'the name of the object does not come first: %s' % show(own)[:80])
            d, c, at = (('sub', ('item', t), const(i)) for i in range(3))
            last = ('sub', names, const(-1))
            has = [b for x, b in fs if x[0] == 'cmp' and x[1] == 'in' and full(x[2]) == last and full(x[3]) == d]
            second = {full(x[1]) for x, b in fs if x[0] in ('loop', 'empty', 'looped') and asks(full(x[1])) and full(x[1]) != t}
            for u in second:
                w = [full(x) for x in u[2]]
                back = w[2][0] == 'sub' and full(w[2][1]) == c and full(w[2][2])[0] == 'slice' and full(full(w[2][2])[2]) == const(-1) and full(full(w[2][2])[1]) in (NONE, const(0))
                ctx.ob(w[0] == names and w[1] == d and back and w[3] == at, f.qual, f.where, 'the search does not go on from what is found: %s' % show(u)[:100])
                ctx.ob(has == [False], f.qual, f.where, 'the last name is not looked for in the attributes of what is found')
            if not p.normal:
                ctx.ob(not any(x[0] == 'loop' and x[1] in second for x, b in fs) and True not in has, f.qual, f.where, 'what is found is refused')
                continue
            n += 1
            r = full(p.returns)
            ended = [full(strip(e.term)[2][0]) for e in p.calls('append') if full(receiver(strip(e.term))) == at]
            if True in has:
                ctx.ob(r == at and ended == [last] or r[0] == 'bin' and r[1] == 'Add' and full(r[2]) == at and full(r[3]) == ('list', (last,)), f.qual, f.where, 'the path of an attribute does not lead to it')
            else:
                ctx.ob(r in [('sub', ('item', u), const(2)) for u in second] and not ended, f.qual, f.where, 'what is given is not a path which was found: %s' % show(r)[:80])
        ctx.ob(bool(first), f.qual, f.where, 'the object is not searched')
    ctx.need(2, n, 'paths found')
    ctx.ob(any(not p.normal and exc_name(p.outcome[1]) for p in ctx.paths(f)), f.qual, f.where, 'a name which is not found is not told')
    g = nested(ctx, 'protocols.object_protocol:ObjectProtocol.resolve_cname_path.<locals>._resolve_cname_path')
    if g is None:
        raise Exception('the search of canonical names is not found')
    kinds_ = set()
    check = lambda v: lambda t: callname(full(t)) in ('check', 'isinstance') and full(full(t)[2][0]) == v
    listed_ = lambda v: lambda t: callname(full(t)) in ('is_sequence', 'isinstance', 'check') and full(full(t)[2][0]) == v
    for p in ctx.paths(g):
        if not p.normal:
            continue
        fs = [(full(t), b) for t, b in allfacts(p)]
        eqs = [(t, b) for t, b in fs if t[0] == 'cmp' and t[1] == 'eq']
        whole = [b for t, b in eqs if A0 in [full(y) for y in t[2:4]]]
        start = [b for t, b in eqs if any(full(y)[0] == 'sub' and full(full(y)[1]) == A0 and full(full(y)[2])[0] == 'slice' for y in t[2:4])]
        obj = [b for t, b in fs if callname(t) == 'check' and full(t[2][0]) == A1]
        named = [b for t, b in fs if t == A0]
        found = [e for e in p.events if e.kind == 'yield' and full(e.term)[0] == 'tuple']
        for t, b in eqs:
            x = [full(y) for y in t[2:4] if full(y)[0] == 'bin' and full(full(y)[2]) == A2]
            ctx.ob(len(x) == 1 and full(x[0][3])[0] == 'list' and len(full(x[0][3])[1]) == 1 and name_of(full(full(x[0][3])[1][0]), A1, fs), g.qual, g.where, 'what is compared is not the name of what is searched: %s' % show(t)[:80])
            for y in (full(y) for y in t[2:4]):
                if y[0] == 'sub' and full(y[1]) == A0 and full(y[2])[0] == 'slice' and x:
                    ctx.ob(full(full(y[2])[1]) in (NONE, const(0)) and full(full(y[2])[2]) == ('call', ('name', 'len'), (x[0],), ()), g.qual, g.where, 'what is compared is not the beginning of the name')
        ctx.ob(len(found) == (1 if named == [False] else 0) + (1 if True in whole else 0), g.qual, g.where, 'what has the name is not found once')
        for e in found:
            t = full(e.term)
            ctx.ob([full(y) for y in t[1]] == [A1, A0, A3], g.qual, e.where, 'what is found does not lie at the path')
        ctx.ob(True not in whole or obj == [True] and True in start, g.qual, g.where, 'what is not an object is found')
        into = set()
        for e in p.events:
            if e.kind != 'call' or callname(strip(e.term)) != g.name.split('.')[-1]:
                continue
            t = full(e.term)
            a = [full(x) for x in t[2]]
            if len(a) != 4:
                ctx.ob(False, g.qual, e.where, 'the search in depth misses an argument')
                continue
            v, path = a[1], a[3]
            step = full(path[3]) if path[0] == 'bin' and path[1] == 'Add' and full(path[2]) == A3 else None
            step = full(step[1][0]) if step is not None and step[0] == 'list' and len(step[1]) == 1 else None
            ok = a[0] == A0 and step is not None and (v == ('sub', A1, step) or v[0] == 'item' and full(v[1]) == A1 and step[0] == 'index' and full(step[1]) == A1)
            ctx.ob(ok, g.qual, e.where, 'the path followed is not that of what is searched: %s' % show(e.term)[:100])
            inarray = step is not None and step[0] == 'index'
            into.add(inarray)
            kinds_.add('array' if inarray else 'object')
            ctx.ob(a[2] == A2 if inarray else a[2][0] == 'bin' and full(a[2][2]) == A2, g.qual, e.where, 'the names above are lost')
            if inarray:
                ctx.ob(any(b and listed_(A1)(x) for x, b in fs), g.qual, e.where, 'what is not a list is gone through')
            else:
                ctx.ob(obj == [True] and True in start, g.qual, e.where, 'what has another name is searched')
                ctx.ob(not any(b is False and (check(v)(x) or listed_(v)(x)) for x, b in fs) or any(b and (check(v)(x) or listed_(v)(x)) for x, b in fs), g.qual, e.where, 'what has no items is searched')
            gives = [x for x in p.events if x.kind.startswith('yield') and (full(x.term) == ('item', t) or full(x.term) == t)]
            none = any(x[0] == 'empty' and full(x[1]) == t for x, b in fs)
            ctx.ob(none or bool(gives), g.qual, e.where, 'what is found inside is lost')
        if obj == [True] and True in start and any(x[0] == 'loop' and full(x[1]) == A1 for x, b in fs):
            kept = [v for x, b in fs if callname(x) in ('check', 'is_sequence') and not b and x[2] for v in [full(x[2][0])] if v[0] == 'sub' and full(v[1]) == A1]
            ctx.ob(False in into or len(kept) >= 2, g.qual, g.where, 'an item is not searched')
        elif obj == [True] and True in start:
            ctx.ob(any(x[0] == 'empty' and full(x[1]) == A1 for x, b in fs), g.qual, g.where, 'the items are not searched')
        if any(b and callname(t) == 'is_sequence' and full(t[2][0]) == A1 for t, b in fs):
            ctx.ob(True in into or any(x[0] == 'empty' and any(full(y) == A1 for y in subterms(x)) for x, b in fs), g.qual, g.where, 'the items of a list are not searched')
    ctx.ob(kinds_ == {'array', 'object'}, g.qual, g.where, 'the items of %s are not searched' % ' and '.join(sorted({'array', 'object'} - kinds_)))
    for m in ('__call__', 'resolve'):
        f = fn(ctx, 'protocols.resolver:Resolver.' + m)
        for p in ctx.paths(f):
            r = full(p.returns) if p.normal else NONE
            ok = callname(r) == '_resolve' and len(r[2]) == 2 and any(k in ('**', None) and full(v) == KW for k, v in r[3])
            ctx.ob(ok, f.qual, f.where, 'what is resolved is not given')
            if not ok:
                continue
            asked = [b for t, b in allfacts(p) if full(t) == A2]
            v = full(r[2][1])
            conv = callname(v) == '_convert' and [full(x) for x in v[2]] == [A0, A1] and any(k in ('**', None) and full(x) == KW for k, x in v[3])
            ctx.ob(full(r[2][0]) == A0 and (conv and asked == [True] or v == A1 and asked == [False]), f.qual, f.where, 'what is resolved is not what is given, converted when it is asked: %s' % show(v)[:60])
