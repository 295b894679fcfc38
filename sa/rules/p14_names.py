"""P14: names and namespaces."""
import ast

from ..core import rule
from ..lib import *
from .p13_addresses import STORE, same_any

A0, A1, A2, A3 = ('arg', 0), ('arg', 1), ('arg', 2), ('arg', 3)
NSM = 'NamespaceManager.%s'
REG = ('ChainMap(A0._registry, A0._builder_ns)', 'ChainMap(A0._registry, NamespaceManager._builder_ns)')
STATE = ('_local', '_registry', '_current_ns', '_current_ns_uri', '_builder_ns')


def ifelse(p, pat):
    """Truth of a condition on a path (None: not looked at)."""
    for x, b in allfacts(p):
        if match(pat, x) is not None:
            return b


def picked(t):
    """(collection, which) of sorted(X)[i], max(X)..: which in last, first (of the sorting)."""
    t = strip(t)
    if t[0] == 'sub':
        ok, i = const_value(t[2])
        s = strip(t[1])
        if ok and callname(s) == 'sorted' and i in (0, -1):
            rev = dict(s[3]).get('reverse') == TRUE
            return s[2][0], ('last' if rev == (i == 0) else 'first'), dict(s[3]).get('key')
    if callname(t) in ('max', 'min') and t[2]:
        return t[2][0], 'last' if callname(t) == 'max' else 'first', dict(t[3]).get('key')
    return None, None, None


def enclosing(ctx, f, p, coll, name, whole, where):
    """Every element is under a condition telling that it encloses what is asked: returns the kinds of conditions met."""
    kinds = set()
    alts = contents(p, coll)
    for el, gens, conds, ev in alts:
        kinds.add(whole(el, conds))
    return kinds, alts


@rule('P14', 'names', 'A dotted name is in the namespace whose name is the longest of its prefixes by whole components: declared ones first.')
def p14_names(ctx):
    f = ctx.func(NSM % '_find_ns_by_cname')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = strip(p.returns)
        ctx.ob(r[0] == 'tuple' and len(r[1]) == 2, f.qual, f.where, 'gives %s' % show(r)[:80])
        if r[0] != 'tuple':
            continue
        cn, u = r[1]
        if cn == NONE:
            ctx.ob(u == NONE and not any(b and same_cond(x) for x, b in allfacts(p) if x[0] != 'loop'), f.qual, f.where, 'a name in a namespace is in none')
            looked = any(x[0] in ('looped', 'empty') and b and any(same_any(STORE)(y) for y in subterms(x)) for x, b in allfacts(p))
            ctx.ob(looked, f.qual, f.where, 'the registered documents are not looked at')
            continue
        coll, which, key = picked(p.returns[1][0] if p.returns[0] == 'tuple' else cn)
        if coll is None:
            # a document
            it = [x for x in subterms(cn) if x[0] == 'item']
            ok = callname(cn) == '_uri_to_cname' and it and same_any(STORE)(strip(it[0][1])) and u == it[0]
            ctx.ob(bool(ok), f.qual, f.where, 'a name is in %s' % show(r)[:80])
            own = any(b is False and callname(x) in ('sorted', 'list', 'max') for x, b in allfacts(p)) or any(not b and 'ChainMap' in show(x, -9) for x, b in allfacts(p))
            ctx.ob(own, f.qual, f.where, 'a document goes before what is declared')
            conds = [(x, b) for x, b in allfacts(p) if b and cn in list(subterms(x)) and x[0] not in ('loop', 'looped')]
            ctx.ob(any(whole_name(x, cn) for x, b in conds), f.qual, f.where, 'a name is in a document whose name is not of its components')
            continue
        ok = which == 'last' and (key is None or key == ('name', 'len') or 'len' in show(key, -9))
        ctx.ob(ok, f.qual, f.where, 'a name is not in the closest namespace')
        ctx.ob(u[0] == 'sub' and strip(u[2]) == cn and any(match(x, u[1]) is not None for x in REG), f.qual, f.where, 'the address of a namespace is %s' % show(u)[:80])
        kinds = set()
        for el, gens, conds, ev in contents(p, coll):
            ctx.ob(any(match(x, g) is not None for g in gens for x in REG), f.qual, f.where, 'the namespaces are those of %s' % show(gens)[:80])
            ks = [whole_name(x, el[0]) for x, b in conds if b and whole_name(x, el[0])]
            ctx.ob(bool(ks), f.qual, f.where, 'a name is in a namespace whose name is not of its components')
            other = [x for x, b in conds if not whole_name(x, el[0]) and x != el[0]]
            ctx.ob(not other, f.qual, f.where, 'a name is in a namespace only if %s' % ([show(x)[:60] for x in other],))
            kinds |= set(ks)
        ctx.ob('both' in kinds or {'eq', 'in'} <= kinds, f.qual, f.where, 'a name is not in a namespace of its components')
        alts = contents(p, coll)
        if alts:
            candidates(ctx, f, alts, under(alts[0][0][0]), name_spec(False), lambda e: name_valid(e) and e['root'], 'a name is in the namespaces which enclose it')
    docs = [p for p in ctx.paths(f) if p.normal and p.returns[0] == 'tuple' and callname(strip(p.returns)[1][0]) == '_uri_to_cname']
    if docs:
        c = strip(docs[0].returns)[1][0]
        candidates(ctx, f, [((), (), [x for x in allfacts(p) if x[0] not in ('loop', 'looped')], None) for p in docs], under(c), name_spec(False),
                   lambda e: name_valid(e) and e['root'], 'a name is in the documents which enclose it')
    ctx.need(1, len(docs), 'documents enclosing a name')
    ctx.need(3, n, 'ways of finding the namespace of a name')


def candidates(ctx, f, alts, atoms, spec, valid, message):
    """The alternatives of a collection hold what the spec tells: for each truth of the atoms."""
    envs = [assign(conds, atoms) for el, gens, conds, ev in alts]
    for e in completions({}, list(atoms), valid):
        got = any(all(e[k] == v for k, v in env.items()) for env in envs)
        if got != spec(e):
            ctx.ob(False, f.qual, f.where, '%s (%s: %s)' % (message, ', '.join(('' if v else 'not ') + k for k, v in sorted(e.items())), 'taken' if got else 'not taken'))
            return
    ctx.ob(bool(envs), f.qual, f.where, message)


def under(c, eq=A1):
    """Atoms of: the name c encloses A1."""
    return {'same': lambda x: is_eq(x, A1, c), 'in': lambda x: whole_name(x, c) == 'in', 'both': lambda x: whole_name(x, c) == 'both', 'root': c}


def name_spec(root):
    return lambda e: e['both'] or e['same'] or e['in'] or root and e['root'] is False


def name_valid(e):
    return not (e['same'] and e['in']) and e['both'] == (e['same'] or e['in']) and not (e['same'] and not e['root'] and False)


def same_cond(x):
    return callname(x) in ('startswith', 'endswith') or x[0] in ('eq', 'cmp', 'compare')


def whole_name(x, c):
    """Kind of the condition that a namespace c encloses A1."""
    x, c = strip(x), strip(c)
    if callname(x) == 'startswith' and len(x[2]) == 1 and strip(receiver(x)) == A1:
        return 'in' if match(('bin', 'Add', c, const('.')), x[2][0]) is not None or dotted(x[2][0], c) else None
    if callname(x) == 'startswith' and dotted(receiver(x), A1) and len(x[2]) == 1 and dotted(x[2][0], c):
        return 'both'
    if is_eq(x, A1, c):
        return 'eq'
    return None


def boundary(x, u):
    """The condition tells that what follows the address u in A1 begins a part."""
    for e in (match('a_ == b_', x), match('a_ in b_', x)):
        if e is not None:
            a, b = strip(e['a_']), strip(e['b_'])
            for a, b in ((a, b), (b, a)):
                if a[0] == 'sub' and set(consts(b)) and set(consts(b)) <= {'#', '/', ('#', '/'), ('/', '#'), '#/', '/#'}:
                    after = strip(a[1]) == A1 and any(strip(y) == ('call', ('name', 'len'), (u,), ()) for y in subterms(a[2]))
                    last = strip(a[1]) == u and '-1' in show(a[2], -9)
                    if after or last and consts(b) == ['#']:
                        return True
    if callname(x) == 'endswith' and strip(receiver(x)) == u and consts(x[2][0]) == ['#']:
        return True
    if callname(x) == 'startswith' and len(x[2]) == 1 and strip(receiver(x))[0] == 'sub' and strip(strip(receiver(x))[1]) == A1:
        return set(consts(x[2][0])) <= {'#', '/'} and any(strip(y) == ('call', ('name', 'len'), (u,), ()) for y in subterms(receiver(x)))
    return False


def _both(e):
    a, b = strip(e['a_']), strip(e['b_'])
    return (a, b), (b, a)


def consts(t):
    return [const_value(y)[1] for y in subterms(t) if y[0] == 'const']


def dotted(t, c):
    t = strip(t)
    return t == ('bin', 'Add', strip(c), const('.')) or t[0] == 'fstr' and "'.'" in show(t, -9) and strip(c) in list(subterms(t))


def is_eq(x, a, b):
    return any(match('a_ == b_', x) is not None and {strip(v) for v in (match('a_ == b_', x) or {}).values()} == {strip(a), strip(b)} for _ in (0,))


@rule('P14', 'uris', 'An address is in the namespace whose address is the longest which encloses it by whole parts: declared ones first.')
def p14_uris(ctx):
    f = ctx.func(NSM % '_find_ns_by_uri')
    n = declared = docs = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = strip(p.returns)
        ctx.ob(r[0] == 'tuple' and len(r[1]) == 2, f.qual, f.where, 'gives %s' % show(r)[:80])
        if r[0] != 'tuple':
            continue
        cn, u = r[1]
        instore = [b for x, b in allfacts(p) for s in STORE if match('ANY in ' + s, x) is not None]
        if cn == NONE or callname(cn) == '_uri_to_cname':
            own = any(not b and (callname(x) in ('sorted', 'list', 'max', 'len') or x[0] in ('new', 'comp', 'looped')) for x, b in allfacts(p)) or \
                any(b and x[0] == 'empty' for x, b in allfacts(p)) or any(not b and 'ChainMap' in show(x, -9) for x, b in allfacts(p))
            ctx.ob(own, f.qual, f.where, 'a document goes before what is declared')
            docs += cn != NONE
        if cn == NONE:
            ctx.ob(u == NONE and instore[:1] == [False], f.qual, f.where, 'an address in a namespace is in none')
            continue
        if callname(cn) == '_uri_to_cname':
            ctx.ob(strip(cn[2][0]) == u and instore[:1] == [True], f.qual, f.where, 'an address is in %s' % show(r)[:80])
            frag = ifelse(p, "'#' in A1")
            ctx.ob(u == A1 and frag is False or match("A1.split('#')[0]", u) is not None or match('urldefrag(A1)[0]', u) is not None, f.qual, f.where,
                   'the document of an address is %s' % show(u)[:80])
            continue
        t, idx = cn, None
        if t[0] == 'sub' and const_value(t[2])[0] and picked(t)[0] is None:
            idx, t = const_value(t[2])[1], t[1]
        coll, which, key = picked(t)
        ctx.ob(coll is not None and which == 'last', f.qual, f.where, 'an address is not in the closest namespace: %s' % show(cn)[:80])
        if coll is None:
            continue
        ctx.ob(u[0] == 'sub' and strip(u[2]) == cn and any(match(x, u[1]) is not None for x in REG), f.qual, f.where, 'the address of a namespace is %s' % show(u)[:80])
        kinds = set()
        for el, gens, conds, ev in contents(p, coll):
            e = el[0]
            gs = [g for g in gens if any(match(x, g) is not None for x in REG)]
            ctx.ob(bool(gs), f.qual, f.where, 'the namespaces are those of %s' % show(gens)[:80])
            if not gs:
                continue
            name = ('item', gs[0])
            uri = ('sub', gs[0], name)
            if e[0] == 'tuple':
                first = strip(e[1][0])
                ctx.ob(first == ('call', ('name', 'len'), (uri,), ()) and idx is not None and strip(e[1][idx]) == name, f.qual, f.where,
                       'an address is in the namespace which is last by %s' % show(first)[:60])
            else:
                ctx.ob(key is not None and 'len' in show(key, -9), f.qual, f.where, 'an address is not in the namespace with the longest address')
            eq = any(b and is_eq(x, A1, uri) for x, b in conds)
            st = any(b and callname(x) == 'startswith' and strip(receiver(x)) == A1 and uri in list(subterms(x)) for x, b in conds)
            bound = any(b and boundary(x, uri) for x, b in conds)
            whole = any(b and callname(x) == 'startswith' and "'#'" in show(x, -9) for x, b in conds)
            ctx.ob(eq or st and bound or whole, f.qual, f.where, 'an address is in a namespace whose address is not of its parts')
            kinds |= {'eq'} if eq else set()
            kinds |= {'in'} if st or whole else set()
        ctx.ob({'eq', 'in'} <= kinds or 'in' in kinds, f.qual, f.where, 'an address is not in a namespace which encloses it')
        declared += 1
        alts = [a for a in contents(p, coll) if a[1]]
        g = next((g for a in alts for g in a[1] if any(match(x, g) is not None for x in REG)), None)
        if g is None:
            continue
        u_ = ('sub', g, ('item', g))
        after = lambda x, c: (match('a_ == b_', x) is not None and any(
            v[0] == 'sub' and v[1] == A1 and const_value(w) == (True, c) for v, w in _both(match('a_ == b_', x)))) or (
            callname(x) == 'startswith' and strip(receiver(x))[0] == 'sub' and strip(receiver(x))[1] == A1 and const_value(x[2][0]) == (True, c))
        atoms = {'same': lambda x: is_eq(x, A1, u_), 'starts': lambda x: callname(x) == 'startswith' and strip(receiver(x)) == A1 and strip(x[2][0]) == u_,
                 'ends': lambda x: match('a_ == b_', x) is not None and any(
                     v[0] == 'sub' and v[1] == u_ and const_value(w) == (True, '#') for v, w in _both(match('a_ == b_', x))) or
                 callname(x) == 'endswith' and strip(receiver(x)) == u_ and const_value(x[2][0]) == (True, '#'),
                 'hash': lambda x: match("'#' in x_", x) is not None and strip(match("'#' in x_", x)['x_']) == u_,
                 'then #': lambda x: after(x, '#'), 'then /': lambda x: after(x, '/')}
        simple = all(any(callable(a) and a(x) for a in atoms.values()) for el, gens, conds, ev in alts for x, b in conds)
        if simple:
            candidates(ctx, f, alts, atoms, lambda e: e['same'] or e['starts'] and (e['ends'] or e['then /' if e['hash'] else 'then #']),
                       lambda e: not (e['same'] and not e['starts']) and not (e['ends'] and not e['hash']) and not (e['then #'] and e['then /']) and
                       not (e['same'] and (e['then #'] or e['then /'])) and not (e['hash'] and e['then #']), 'an address is in the namespaces which enclose it')
    ctx.need(1, declared, 'declared namespaces enclosing an address')
    ctx.need(1, docs, 'documents of an address')
    ctx.need(3, n, 'ways of finding the namespace of an address')


@rule('P14', 'declared', 'Declaring a namespace or changing the current one shows at once, to the managers made from this one also; nothing else changes them.')
def p14_declared(ctx):
    c = next(c for m in ctx.repo.modules.values() for c in m.classes.values() if c.name == 'NamespaceManager')
    # nothing remembered of what names are
    n = 0
    for f in c.methods.values():
        decs = [ast.unparse(d) for d in f.node.decorator_list]
        reads = any(isinstance(x, ast.Attribute) and x.attr in STATE + ('_doc_store', '_find_ns_by_uri', '_find_ns_by_cname', 'resolve_uri') for x in own_nodes(f))
        n += reads
        ctx.ob(not reads or not any('cache' in d for d in decs), f.qual, f.where, 'what a name was is remembered')
        for x in own_nodes(f):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Call) and 'cache' in (called_name(x.func) or ''):
                ctx.ob(False, f.qual, f.where, 'what a name was is remembered: %s' % ast.unparse(x)[:60])
    ctx.need(6, n, 'methods reading the namespaces')
    f = c.methods['__init__']
    for p in ctx.paths(f):
        if not p.normal:
            continue
        loc = [e for e in p.stores() if match('A0._local', e.term) is not None]
        ctx.ob(bool(loc) and strip(loc[-1].value) != ('kwargs',) and any(x == ('kwargs',) for x in subterms(strip(loc[-1].value))), f.qual, f.where,
               'the namespaces given are not those of the manager')
        reg = [e for e in p.stores() if match('A0._registry', e.term) is not None]
        ok = False
        for e in reg:
            v = strip(unold(e.value))
            ok = callname(v) in ('ChainMap', 'ReadOnlyChainMap') and len(v[2]) >= 2 and ('kwargs',) in list(subterms(strip(v[2][0]))) | {strip(v[2][0])} \
                if False else callname(v) in ('ChainMap', 'ReadOnlyChainMap') and len(v[2]) >= 2 and v[2][-1] in (('star', ('args',)), ('args',)) and \
                v[2][0] != v[2][-1]
        ctx.ob(ok, f.qual, f.where, 'the namespaces of the parents are not seen after its own')
        dflt = [e for e in p.events if e.kind == 'mutate' and callname(e.value) == 'setdefault' and e.value[2] == (const(''), ('attr', A0, '_current_ns_uri'))] or \
            any(x == ('attr', A0, '_current_ns_uri') for e in p.stores() for x in subterms(e.value) if strip(unold(e.term)) != ('attr', A0, '_current_ns_uri'))
        ctx.ob(bool(dflt), f.qual, f.where, 'there is no current namespace from the start')
        first = [i for i, e in enumerate(p.events) if e in loc]
        ctx.ob(not reg or not loc or p.events.index(loc[-1]) < p.events.index(reg[-1]) or ('attr', A0, '_local') not in list(subterms(reg[-1].value)), f.qual, f.where,
               'the namespaces of the manager are those of another')
    for a, b in (('currentNs', '_current_ns'), ('currentNsUri', '_current_ns_uri')):
        for p in ctx.paths(c.methods[a]):
            if p.normal:
                ctx.ob(strip(p.returns) == ('attr', A0, b), c.methods[a].qual, c.methods[a].where, 'the current namespace is %s' % show(p.returns)[:80])
    # what writes
    allowed = {'__init__': {'_local', '_registry'}, 'add': {'_local'}, 'set_current': {'_local', '_current_ns', '_current_ns_uri'}, 'register_ns': {'_builder_ns'}}
    for f in functions(ctx.repo):
        if f.key not in ctx.baseline or not any(isinstance(x, ast.Attribute) and x.attr in STATE[:2] + STATE[2:] for x in own_nodes(f)):
            continue
        if not (f.cls is not None and f.cls is c) and not any(isinstance(x, ast.Attribute) and x.attr in ('_builder_ns', '_current_ns', '_current_ns_uri') for x in own_nodes(f)):
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind not in ('store', 'del', 'mutate'):
                    continue
                t = strip(unold(e.term))
                got = [x[2] for x in subterms(t) if x[0] == 'attr' and x[2] in STATE]
                b = t
                while b[0] in ('sub', 'attr') and not (b[0] == 'attr' and b[2] in STATE):
                    b = strip(unold(b[1]))
                if b[0] != 'attr':
                    got = []
                for a in got[:1]:
                    ctx.ob(a in allowed.get(f.name, ()), f.qual, e.where, 'the namespaces are changed by %s' % show(t)[:80])
    # add
    def added(e):
        """the declaration"""
        t = strip(unold(e.term))
        return e.kind == 'store' and t[0] == 'sub' and match('A0._local', strip(unold(t[1]))) is not None
    f = c.methods['add']
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        evs = [e for e in p.events if added(e)]
        ctx.ob(len(evs) == 1, f.qual, f.where, 'a namespace is not declared once')
        for e in evs:
            k, v = strip(unold(e.term))[2], strip(e.value)
            given = ifelse(p, 'A2 is None')
            if given is None:
                given = {True: False, False: True}.get(ifelse(p, 'A2'))
            own = ifelse(p, "A1.split('#')[0]")
            if own is None:
                own = ifelse(p, 'urldefrag(A1)[0]')
            ctx.ob(given is not None and (k == A2 if not given else callname(k) == '_uri_to_cname' and k[2][:1] == (v,)), f.qual, e.where, 'declared as %s' % show(k)[:80])
            if own is False:
                sp = [x for x in subterms(v) if callname(x) in ('split', 'partition', 'urldefrag')]
                ctx.ob(all('[0]' in show(v, -9) and consts(x) in (['#'], ['']) or callname(x) == 'urldefrag' or consts(x[2][0]) == ['#'] for x in sp) and
                       v[0] == 'bin' and v[1] == 'Add' and not any(x[0] == 'sub' and const_value(x[2])[0] and const_value(x[2])[1] not in ('', 0) for x in subterms(v)),
                       f.qual, e.where, 'the address declared is %s' % show(v)[:80])
            ctx.ob(own is not None and (v == A1 if own else v[0] == 'bin' and v[3] == A1 and any(x == const('') for x in subterms(v[2])) or
                   not own and A1 in list(subterms(v)) and '_registry' in show(v, -9) + show(v, -9).replace('_current_ns_uri', '_registry')),
                   f.qual, e.where, 'the address declared is %s' % show(v)[:80])
    ctx.need(2, n, 'ways of declaring a namespace')
    ctx.ob([ast.unparse(d) for d in f.node.args.defaults] == ['None'], f.qual, f.where, 'a namespace has a name without being given one')
    f = c.methods['set_current']
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        cur = [e for e in p.stores() if match('A0._current_ns', e.term) is not None]
        uri = [e for e in p.stores() if match('A0._current_ns_uri', e.term) is not None]
        loc = [e for e in p.events if added(e)]
        ctx.ob(len(cur) == 1 and len(uri) == 1 and len(loc) == 1 and strip(unold(loc[0].term))[2] == const(''), f.qual, f.where, 'the current namespace is not changed as a whole')
        if not (cur and uri and loc):
            continue
        cn = strip(cur[0].value)
        coll, which, key = picked(cur[0].value)
        ctx.ob(coll is not None and which == 'last', f.qual, f.where, 'the current namespace is %s' % show(cn)[:80])
        for e in (uri[0], loc[0]):
            v = strip(unold(e.value))
            ctx.ob(v[0] == 'sub' and match('A0._registry', strip(unold(v[1]))) is not None and strip(unold(v[2])) == strip(unold(cn)), f.qual, e.where,
                   'the current address is %s' % show(v)[:80])
        kinds = set()
        for el, gens, conds, ev in contents(p, coll) if coll is not None else ():
            ks = [whole_name(x, el[0]) for x, b in conds if b and whole_name(x, el[0])]
            root_ = any(not b and strip(x) == strip(el[0]) for x, b in conds)
            ctx.ob(bool(ks) or root_, f.qual, f.where, 'the current namespace may not be one of the components of its name')
            kinds |= set(ks)
        ctx.ob('both' in kinds or {'eq', 'in'} <= kinds, f.qual, f.where, 'the current namespace is not the closest')
        alts = contents(p, coll)
        if alts:
            candidates(ctx, f, alts, under(alts[0][0][0]), name_spec(True), name_valid, 'the current namespace is the closest which encloses the name')
            g = alts[0][1]
            ctx.ob(bool(g) and not any(callname(x) == 'values' for y in g for x in subterms(y)), f.qual, f.where, 'the current namespace is among %s' % show(g)[:80])
    ctx.need(1, n, 'ways of changing the current namespace')
    f = c.methods['register_ns']
    n = 0
    for p in ctx.paths(f):
        known = [(x, b) for x, b in allfacts(p) if x[0] == 'cmp' and x[1] == 'in' and '_builder_ns' in show(x[3])]
        sets = [e for e in p.events if e.kind in ('store', 'mutate') and '_builder_ns' in show(e.term, -9)]
        if p.normal:
            n += bool(sets)
            ctx.ob(any(not b for x, b in known) == bool(sets) or any(callname(e.value) == 'setdefault' for e in sets), f.qual, f.where,
                   'a namespace is %s' % ('registered again' if sets else 'not registered'))
        for e in p.events:
            if e.kind == 'store' and strip(unold(e.term))[0] == 'sub':
                k, v = strip(unold(e.term))[2], strip(e.value)
                h = ifelse(p, "'#' in A0")
                ctx.ob(v == A0 and h is False or match("A0.split('#')[0]", v) is not None or match('urldefrag(A0)[0]', v) is not None or match("A0.partition('#')[0]", v) is not None,
                       f.qual, e.where, 'registered with %s' % show(v)[:80])
                given = ifelse(p, 'A1')
                ctx.ob((k == A1) == (given is True) and (given is True or callname(k) == '_uri_to_cname' and strip(k[2][0]) == v), f.qual, e.where,
                       'registered as %s' % show(k)[:80])


@rule('P14', 'relative', 'A name is looked up in the manager with the current namespace; leading dots climb from it; an address in the current document is local.')
def p14_relative(ctx):
    f = ctx.func(NSM % 'get_id_cname')
    CN = 'A0._get_id_cname(A1, A0._current_ns)'
    n, kinds = 0, set()
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = strip(p.returns)
        rel, cur = ifelse(p, 'A2'), ifelse(p, 'A0._current_ns')
        whole = [b for x, b in allfacts(p) if whole_of(x, CN)]
        if rel is False or cur is False or rel and cur and not any(whole):
            ctx.ob(match(CN, r) is not None, f.qual, f.where, 'the name of an address is %s' % show(r)[:80])
            ctx.ob(rel is not True or cur is not True or len(whole) >= 1, f.qual, f.where, 'what is in the current namespace is not told relatively')
        else:
            ctx.ob(rel is True and any(whole), f.qual, f.where, 'what is out of the current namespace is told relatively')
            ok = match('A0._current_ns', r) is not None or any(match('len(A0._current_ns)', x) is not None for x in subterms(r)) or callname(r) in ('removeprefix',)
            ctx.ob(ok, f.qual, f.where, 'the relative name of an address is %s' % show(r)[:80])
            cut = [x for x in subterms(r) if x[0] == 'sub' and match(CN, x[1]) is not None]
            REST = CN + '[len(A0._current_ns):]'
            if r == ('attr', A0, '_current_ns'):
                ctx.ob(any(match(REST, y) is not None for x, b in allfacts(p) for y in subterms(x)) and not any(
                    not b and match(REST + ".split('.')[0]", x) is not None for x, b in allfacts(p)), f.qual, f.where, 'a relative name is that of the current namespace')
            elif callname(r) == 'join':
                ctx.ob(const_value(receiver(r)) == (True, '.') and match(REST + ".split('.')[1:]", r[2][0]) is not None and not any(
                    b and match(REST + ".split('.')[0]", x) is not None for x, b in allfacts(p)), f.qual, f.where, 'the relative name of an address is %s' % show(r)[-80:])
            both = [(x, b) for x, b in allfacts(p) if whole_of(x, CN)]
            kinds |= {callname(x) or 'eq' for x, b in both if b}
    ctx.ob('eq' in kinds and 'startswith' in kinds, f.qual, f.where, 'what is in the current namespace is not told relatively')
    ctx.need(3, n, 'ways of naming an address')
    a = f.node.args
    ctx.ob([ast.unparse(d) for d in a.defaults] == ['False'], f.qual, f.where, 'names are relative without being asked')
    f = ctx.func(NSM % 'get_cname_id')
    n = 0
    deeper = False
    for p in ctx.paths(f):
        if not p.normal:
            continue
        dots = ifelse(p, "A1.startswith('.')")
        r = strip(p.returns)
        look = [x for x in subterms(r) if callname(x) == '_get_cname_id']
        n += 1
        ctx.ob(bool(look) and dots is not None, f.qual, f.where, 'the address of a name is %s' % show(r)[:80])
        for x in look:
            nm = strip(x[2][0])
            ctx.ob(len(x[2]) == 2 and match('A0._current_ns', x[2][1]) is not None, f.qual, f.where, 'a name is not looked up from the current namespace')
            if dots is False:
                ctx.ob(nm == A1, f.qual, f.where, 'the name looked up is %s' % show(nm)[:80])
            elif dots:
                s = show(nm, -9)
                up = sum(1 for e in p.events if e.kind == 'mutate' and callname(e.value) == 'pop' and not e.value[2])
                cut = sum(1 for y in subterms(nm) if match('ANY[1:]', y) is not None)
                more = sum(1 for y, b in allfacts(p) if b and (match("ANY[0] == '.'", y) is not None or callname(y) == 'startswith' and consts(y[2][0]) == ['.']) and match("A1.startswith('.')", y) is None)
                ctx.ob("_current_ns" in s and A1 in list(subterms(nm)) and 'join' in s, f.qual, f.where, 'a relative name is %s' % s[:80])
                loop = any(isinstance(x, (ast.For, ast.While)) for x in own_nodes(f))
                ctx.ob(not loop or (up > 0) == (cut > 1) == (more > 0) and cut > 0, f.qual, f.where, 'a relative name climbs %s for %d dot(s) removed' % (
                    'no namespace' if not up else 'a namespace', cut))
        local = [(x, b) for x, b in allfacts(p) if callname(x) == 'startswith' and look and strip(receiver(x)) == look[0]]
        nou = any(not b and '_current_ns_uri' in show(x, -9) for x, b in allfacts(p) if x[0] != 'call')
        ctx.ob((r not in look) == any(b for x, b in local) and (bool(local) or nou), f.qual, f.where, 'an address in the current document is not told without it')
        for x, b in local:
            a = strip(x[2][0])
            ctx.ob(match("A0._current_ns_uri.split('#')[0] + '#'", a) is not None or match("A0._current_ns_uri.partition('#')[0] + '#'", a) is not None or
                   match("urldefrag(A0._current_ns_uri)[0] + '#'", a) is not None, f.qual, f.where, 'the current document is %s' % show(a)[:80])
        if dots:
            for x in look:
                j = strip(x[2][0])
                ctx.ob(callname(j) == 'join' and const_value(receiver(j)) == (True, '.') and ('call', ('attr', ('attr', A0, '_current_ns'), 'split'), (const('.'),), ()) in
                       {strip(unold(y)) for y in subterms(j)} and not any(y[0] == 'bin' and y[1] != 'Add' for y in subterms(j)) and
                       all(match('ANY[1:]', y) is not None or strip(y[1]) != A1 and y[2][0] != 'slice' for y in subterms(j) if y[0] == 'sub' and y[2][0] == 'slice'),
                       f.qual, f.where, 'a relative name is %s' % show(j)[:80])
            deeper = deeper or any(e.kind == 'mutate' and callname(e.value) == 'pop' for e in p.events) or not any(isinstance(x, ast.While) for x in own_nodes(f)) and \
                '[:' in ast.unparse(f.node)
        if r not in look:
            # local form: only under the address of the current document
            st = [b for x, b in allfacts(p) if callname(x) == 'startswith' and look and strip(receiver(x)) == look[0] and '_current_ns_uri' in show(x[2][0], -9)]
            ctx.ob(st[:1] == [True] and r[0] == 'sub' and strip(r[1]) == look[0] and '_current_ns_uri' in show(r[2], -9), f.qual, f.where, 'the local form of an address is %s' % show(r)[:80])
            hashed = [x for x, b in allfacts(p) if callname(x) == 'startswith' and look and strip(receiver(x)) == look[0]]
            ctx.ob(all("'#'" in show(strip(x[2][0])[3], -9) if strip(x[2][0])[0] == 'bin' else "'#'" in show(x[2][0], -9) for x in hashed), f.qual, f.where,
                   'an address of another document is made local')
    ctx.ob(deeper, f.qual, f.where, 'no dot climbs')
    # as many as there are: after a dot which climbs, the next character is looked at
    pops = [p for p in ctx.paths(f) if p.normal and any(e.kind == 'mutate' and callname(e.value) == 'pop' for e in p.events)]
    ctx.ob(not pops or any(not b and (match("ANY[0] == '.'", y) is not None or callname(y) == 'startswith' and consts(y[2][0]) == ['.']) for p in pops for y, b in allfacts(p))
           or any(x[0] == 'call' and callname(x) == 'range' for p in pops for y, _ in allfacts(p) for x in subterms(y)), f.qual, f.where, 'only one dot climbs')
    ctx.need(2, n, 'ways of finding the address of a name')


def whole_of(x, CN):
    x = strip(x)
    if callname(x) == 'startswith' and match(CN, receiver(x)) is not None and len(x[2]) == 1:
        return dotted(x[2][0], ('attr', A0, '_current_ns'))
    return match('%s == A0._current_ns' % CN, x) is not None or match('A0._current_ns == %s' % CN, x) is not None


@rule('P14', 'found', 'The address of a name is the one found in the document of its namespace; the name of an address is that of its namespace and fragment.')
def p14_found(ctx):
    f = ctx.func(NSM % '_get_id_cname')
    NS = 'A0._find_ns_by_uri(A1)'
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = strip(p.returns)
        ns, uri = ifelse(p, NS + '[0]'), ifelse(p, NS + '[1]')
        fr = [x for x in subterms(r) if callname(x) == '_fragment_to_cname']
        named = any(match(NS + '[0]', x) is not None for x in subterms(r))
        inside = ifelse(p, 'A1.startswith(%s[1])' % NS)
        FR = 'A1[slice_(len(%s[1]), None, None)]' % NS
        rest = [b for x, b in allfacts(p) if x == A1 or x[0] == 'sub' and x[1] == A1 and 'len' in show(x[2], -9)]
        if fr:
            a = strip(fr[0][2][0])
            cut = any(x[0] == 'sub' and x[1] == A1 and any(match('len(%s[1])' % NS, y) is not None for y in subterms(x[2])) for x in subterms(a))
            ctx.ob(cut == (inside is True), f.qual, f.where, 'the fragment named is %s' % show(a)[:80])
            ctx.ob(named == (ns is True) or ns is None and named, f.qual, f.where, 'the name of an address is %s' % show(r)[:100])
            if r[0] == 'fstr':
                ctx.ob(consts(('t',) + tuple(r[1:])) in (['.'], [], ["."]) or "'.'" in show(r, -9), f.qual, f.where, 'the name of an address is %s' % show(r)[:80])
            ctx.ob(a != A1 and (not any(callname(x) == 'strip' for x in subterms(a)) or ['#'] in [consts(x[2][0]) for x in subterms(a) if callname(x) == 'strip']), f.qual, f.where,
                   'the fragment named is %s' % show(a)[:80])
            ctx.ob(rest[:1] != [False], f.qual, f.where, 'what has no fragment is named with one')
        else:
            ctx.ob(named and r != NONE and rest[:1] == [False], f.qual, f.where, 'the name of an address is %s' % show(r)[:100])
    ctx.need(3, n, 'ways of naming an address')
    f = ctx.func(NSM % '_get_cname_id')
    NS = 'A0._find_ns_by_cname(A1)'
    n = m = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        r = strip(p.returns)
        n += 1
        sr = [x for x in subterms(r) if callname(x) == 'search']
        known = ifelse(p, '%s[1] in UriResolver._doc_store' % NS)
        if sr and r[0] != 'call':
            m += 1
            ctx.ob(callname(sr[0][2][0]) == 'resolve_uri' and match(NS + '[1]', sr[0][2][0][2][0]) is not None and known is True, f.qual, f.where,
                   'what a name designates is looked for in %s' % show(sr[0][2][0])[:80])
            q = strip(sr[0][2][1]) if len(sr[0][2]) > 1 else NONE
            inside = ifelse(p, NS + '[0]')
            REST = 'A1[len(%s[0]):]' % NS
            rest = [x for x in subterms(q) if match(REST, x) is not None]
            sp = [x for x in subterms(q) if callname(x) == 'split']
            ctx.ob(A1 in list(subterms(q)) and inside is not None and bool(rest) == inside, f.qual, f.where, 'what a name designates is looked for by %s' % show(q)[:80])
            ctx.ob(all(consts(x[2][0]) == ['.'] for x in sp) and '/*/' in consts(q) and set(map(str, consts(q))) <= {'/*/', '', '/', '.', '1', '0', 'None'}, f.qual, f.where,
                   'what a name designates is looked for by %s' % consts(q))
            lead = [b for x, b in allfacts(p) if x[0] == 'sub' and callname(x[1]) == 'split' and const_value(x[2]) == (True, 0)]
            one = [x for x in subterms(q) if x[0] == 'sub' and x[2][0] == 'slice' and callname(x[1]) == 'split']
            ctx.ob(not one or lead[:1] == [False] and all(match('ANY[1:]', x) is not None for x in one), f.qual, f.where, 'a component of the name is not looked for')
            ctx.ob(bool(one) or lead[:1] != [False], f.qual, f.where, 'the name is looked for with no component')
            ctx.ob(dict(sr[0][3]).get('yielded') == TRUE, f.qual, f.where, 'what a name designates is not told with its place')
            ctx.ob(not any(x[0] == 'bin' and x[1] != 'Add' for x in subterms(q)) and not any(x[0] == 'bin' and x[1] != 'Add' for x in subterms(r)), f.qual, f.where,
                   'the address of what is found is %s' % show(r)[:80])
            it = [x for x in subterms(r) if x[0] == 'sub' and strip(x[1])[0] == 'item']
            ctx.ob(any(const_value(x[2]) == (True, 0) for x in it) or r[0] != 'bin' or not it, f.qual, f.where, 'the address of what is found is that of %s' % show(r)[-60:])
            ctx.ob(any(match(NS + '[1]', x) is not None for x in subterms(r)) and any(x[0] == 'item' for x in subterms(r)), f.qual, f.where,
                   'the address of what is found is %s' % show(r)[:80])
            h = ifelse(p, "'#' in %s[1]" % NS)
            seps = [const_value(x)[1] for x in subterms(r) if x[0] == 'const' and const_value(x)[1] in ('#/', '/', '#')]
            lead = [x for x in seps[:1]]
            ctx.ob(h is None or lead == (['/'] if h else ['#/']), f.qual, f.where, 'the address of what is found is joined by %s' % lead)
    ctx.need(2, n, 'ways of finding the address of a name')
    ctx.need(1, m, 'names found in a document')


@rule('P14', 'clean', 'Names made from others have only letters, digits and underscores (dots between), whatever these are.')
def p14_clean(ctx):
    f = ctx.func('clean_js_name')
    rx = None
    for s in f.module.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == 'CLEAN_JS_NAME_REGEX' for x in s.targets):
            rx = next((a.value for a in s.value.args if isinstance(a, ast.Constant)), None)
    for p in ctx.paths(f):
        r = strip(p.returns)
        subs = [x for x in subterms(r) if callname(x) == 'sub']
        pat = rx
        for x in subs:
            k = 0
            if match('CLEAN_JS_NAME_REGEX', receiver(x)) is None:
                pat, k = const_value(x[2][0])[1], 1
            rep = const_value(x[2][k])[1]
            ctx.ob(rep in ('', '_'), f.qual, f.where, 'what is not allowed is replaced by %r' % (rep,))
        ctx.ob(bool(subs) and pat is not None, f.qual, f.where, 'what is not allowed is not removed')
        if pat:
            import re
            bad = [c for c in map(chr, range(32, 0x250)) if not (c.isascii() and (c.isalnum() or c in '._-')) and not re.fullmatch(pat, c)]
            ctx.ob(not bad, f.qual, f.where, 'names keep %r' % ''.join(bad[:10]))
            gone = [c for c in map(chr, range(32, 0x250)) if c.isascii() and (c.isalnum() or c == '_') and re.fullmatch(pat, c)]
            ctx.ob(not gone, f.qual, f.where, 'names lose %r' % ''.join(gone[:10]))
        dash = [x for x in subterms(r) if callname(x) == 'replace' and [const_value(y)[1] for y in x[2][:2]] == ['-', '_']]
        ctx.ob(bool(dash), f.qual, f.where, 'names keep dashes')
        ns = [x for x in subterms(r) if x[0] == 'sub' and callname(x[1]) in ('split', 'rsplit', 'rpartition') and const_value(x[2])[1] == -1]
        ctx.ob(bool(ns) and all(consts(x[1][2][0]) == [':'] for x in ns if x[1][2]), f.qual, f.where, 'names keep their prefix')
    f = ctx.func('clean_def_name')
    for p in ctx.paths(f):
        ctx.ob(match('inflection.camelize(clean_js_name(A0))', p.returns) is not None, f.qual, f.where, 'the name of a definition is %s' % show(p.returns)[:80])
    f = ctx.func('clean_for_uri')
    for p in ctx.paths(f):
        r = strip(p.returns)
        ctx.ob(match("A0.split(':')[-1].replace('_', '-')", r) is not None or match("A0.rsplit(':', 1)[-1].replace('_', '-')", r) is not None or
               match("A0.rpartition(':')[2].replace('_', '-')", r) is not None, f.qual, f.where, 'the address of a name is %s' % show(r)[:80])
    f = ctx.func(NSM % '_fragment_to_cname')
    for p in ctx.paths(f):
        r = strip(p.returns)
        ctx.ob(callname(r) == 'join' and const_value(receiver(r)) == (True, '.') and any(callname(x) == 'clean_js_name' for x in subterms(r)), f.qual, f.where,
               'the name of a fragment is %s' % show(r)[:80])


@rule('P14', 'scope', 'An address without a document is that of the current namespace; other addresses stay what they are.')
def p14_scope(ctx):
    f = ctx.func('scope')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        n += 1
        r = strip(p.returns)
        frag = ifelse(p, "'#' in A0")
        doc = ifelse(p, "A0.split('#')[0]")
        if frag is False:
            ctx.ob(r == A0, f.qual, f.where, 'an address without fragment becomes %s' % show(r)[:80])
            continue
        ctx.ob(frag is True and doc is not None or r == A0 and doc, f.qual, f.where, 'the parts of an address are not looked at')
        parts = [x for x in subterms(r) if x[0] == 'sub' and x[1] in (('call', ('attr', A0, 'split'), (const('#'),), ()), ('call', ('attr', A1, 'split'), (const('#'),), ()))]
        heads = {strip(x[1])[1][1] for x in parts if const_value(x[2])[1] == 0}
        tails = {strip(x[1])[1][1] for x in parts if const_value(x[2])[1] == 1}
        ctx.ob(r == A0 and doc is True or heads == {A0 if doc else A1} and tails == {A0} and const('#') in list(subterms(r)) | {0} if False else
               r == A0 and doc is True or heads == {A0 if doc else A1} and tails == {A0} and (const('#') in list(subterms(r)) or "'#'" in show(r, -9)),
               f.qual, f.where, 'an address becomes %s' % show(r)[:80])
    ctx.need(3, n, 'ways of scoping an address')
    ids = next(c for m in ctx.repo.modules.values() if m.name.endswith('types.uri') for c in m.classes.values() if c.name == 'Id')
    idc = ids.methods['_convert']
    n = 0
    for p in ctx.paths(idc):
        if not p.normal:
            continue
        n += 1
        r = strip(p.returns)
        some = ifelse(p, 'A1')
        if some is False:
            ctx.ob(r == A1, idc.qual, idc.where, 'no address becomes %s' % show(r)[:80])
            continue
        ctx.ob(callname(r) == 'scope' and len(r[2]) == 2 and r[2][1][0] == 'attr' and r[2][1][2] == 'currentNsUri' and 'find_ns_mgr' in show(r[2][1], -9), idc.qual, idc.where,
               'an address becomes %s' % show(r)[:80])
        if callname(r) != 'scope':
            continue
        x = strip(r[2][0])
        name = [b for y, b in allfacts(p) if callname(y) in ('search', 'match', 'fullmatch') and y[2][-1:] == (A1,)]
        base = ('call', ('attr', strip(r[2][1])[1], 'get_cname_id'), (A1,), ()) if name[:1] == [True] else A1
        h = [b for y, b in allfacts(p) if match("'#' in x_", y) is not None and strip(match("'#' in x_", y)['x_']) == base]
        ctx.ob(bool(name) and bool(h) and x == (base if h[0] else ('bin', 'Add', base, const('#'))), idc.qual, idc.where, 'an address becomes that of %s' % show(x)[:80])
    ctx.need(3, n, 'ways of converting an address')
    ser = ids.methods['_serialize']
    n = 0
    for p in ctx.paths(ser):
        if not p.normal:
            continue
        n += 1
        r = strip(p.returns)
        can = [b for y, b in allfacts(p) if 'canonical' in show(y, -9)]
        M = [x for x in subterms(r) if callname(x) == 'find_ns_mgr']
        if can[:1] == [True]:
            ctx.ob(callname(r) == 'get_id_cname' and r[2][:1] == (A1,), ser.qual, ser.where, 'a canonical name is %s' % show(r)[:80])
        else:
            st = [b for y, b in allfacts(p) if callname(y) == 'startswith' and strip(receiver(y)) == A1 and 'currentNsUri' in show(y, -9) and "'#'" in show(strip(y[2][0])[-1], -9)]
            ctx.ob(can[:1] == [False] and (r == A1 and st[:1] == [False] or st[:1] == [True] and r[0] == 'sub' and r[1] == A1 and 'currentNsUri' in show(r[2], -9)),
                   ser.qual, ser.where, 'an address is told as %s' % show(r)[:80])
    ctx.need(3, n, 'ways of telling an address')
    f = ctx.func('find_ns_mgr')
    for p in ctx.paths(f):
        r = strip(p.returns)
        ok = callname(r) == 'next' and len(r[2]) == 2 and r[2][1] == ('name', 'default_ns_manager')
        inst = [x for x in subterms(r) if callname(x) == 'isinstance' and x[2][-1] == ('name', 'NamespaceManager')]
        alt = r == ('name', 'default_ns_manager') or callname(r) == 'find_instance' or r[0] == 'item'
        ctx.ob(ok and bool(inst) and any(x == ('attr', A0, 'maps') or callname(x) == 'maps' for x in subterms(r)) or alt, f.qual, f.where,
               'the manager of a context is %s' % show(r)[:80])
