"""P13: addresses: which part of which registered document an address designates."""
import ast

from ..core import rule
from ..lib import *

A0, A1, A2, A3 = ('arg', 0), ('arg', 1), ('arg', 2), ('arg', 3)
STORE = ['UriResolver._doc_store', 'UriResolver.get_doc_store()']
DOC = 'urldefrag(A%d)[0]'
EMPTY = [y for x in (('list', ()), ('tuple', ())) for y in (x, ('call', ('name', 'enumerate'), (x,), ()))]
READERS = ('resolve_doc', 'resolve_fragment', 'resolve_uri', 'UriResolver._resolve', 'UriResolver.get_doc_store', 'UriResolver.register_doc',
           'UriResolver.unregister_doc', 'UriResolver.create', 'UriResolver.__init__', 'scope', 'relative_url')


def looked(i):
    out = []
    for s in STORE:
        out += ['%s.get(%s)' % (s, DOC % i), '%s.get(%s, None)' % (s, DOC % i), '%s[%s]' % (s, DOC % i)]
    return out


def known(i):
    out = ['!%s is None' % x for x in looked(i)[:2] + looked(i)[3:5]]
    for s in STORE:
        out += ['%s in %s' % (DOC % i, s), '%s in %s.keys()' % (DOC % i, s)]
    return out


def same_any(pats):
    return lambda t: any(match(x, t) is not None for x in pats)


def is_request(e):
    """a request"""
    return e.kind == 'call' and ('requests' in show(e.term[1], -9).split('.')[:1] or callname(e.term) in ('urlopen', 'resolve_remote', 'urlretrieve'))


def registers(e):
    """a registration"""
    return e.kind == 'call' and callname(e.term) == 'register_doc' or e.kind == 'store' and strip(e.term)[0] == 'sub' and same_any(STORE)(strip(e.term)[1])


def key_chain(t):
    """(item, [(old, new)..], is an int) of the key a part of an address becomes."""
    t = strip(t)
    ints = False
    if callname(t) == 'int' and len(t[2]) == 1:
        ints, t = True, strip(t[2][0])
    reps = []
    while callname(t) == 'replace' and len(t[2]) == 2:
        reps.insert(0, tuple(const_value(x)[1] for x in t[2]))
        t = strip(receiver(t))
    return t, reps, ints


@rule('P13', 'pointer', 'The fragment of an address is followed as a decoded json pointer, whatever is not there is refused.')
def p13_pointer(ctx):
    f = ctx.func('resolve_fragment')
    n = indexes = 0
    for p in ctx.paths(f, implicit=True, loop2=True):
        fs = allfacts(p)
        if p.outcome[0] == 'exc':
            t = p.outcome[1]
            leak = isinstance(t, tuple) and root(strip(t)) == A0
            ctx.ob(not leak, f.qual, f.where, 'what is not in the document is refused with %s' % (show(t)[:80] if isinstance(t, tuple) else t))
            continue
        if p.outcome[0] == 'raise':
            t = p.outcome[1]
            again = isinstance(t, tuple) and strip(t)[0] == 'exception'
            ctx.ob(exc_name(t) == 'InvalidValue' and not again, f.qual, f.where, 'what is not in the document is refused with %s' % (
                show(t)[:80] if isinstance(t, tuple) else t))
            continue
        if any(x[0] == 'loop' and b and strip(x[1]) in EMPTY for x, b in fs):
            no = any(not b and A1 in list(subterms(x)) for x, b in fs)
            ctx.ob(no, f.qual, f.where, 'a fragment is not followed')
            continue
        n += 1
        t, keys = strip(p.returns), []
        while t[0] == 'sub':
            keys.insert(0, (t[1], t[2]))
            t = strip(t[1])
        ctx.ob(t == A0, f.qual, f.where, 'what an address designates is %s' % show(t)[:80])
        if t != A0:
            continue
        some = any(x[0] == 'loop' and b for x, b in fs)
        none = [x for x, b in fs if not b and A1 in list(subterms(x))]
        none += [x for x, b in fs if b and x[0] == 'empty']
        ctx.ob(bool(keys) == some, f.qual, f.where, 'a part of the fragment is not followed')
        ctx.ob(bool(keys) or bool(none), f.qual, f.where, 'a fragment is not followed')
        for d, k in keys:
            d = strip(d)
            indexes += callname(strip(k)) == 'int'
            it, reps, ints = key_chain(k)
            if it[0] == 'sub' and strip(it[2]) in (const(1), const('1')) and strip(it[1])[0] == 'item':
                it = strip(it[1])
            ctx.ob(reps == [('~1', '/'), ('~0', '~')], f.qual, f.where, 'the escapes of a part are read by %s' % (reps,))
            src = strip(it[1]) if it[0] == 'item' else None
            if src is not None and callname(src) == 'enumerate':
                src = strip(src[2][0])
            ok = False
            if src is not None and callname(src) == 'split' and src[2] and const_value(src[2][0])[1] == '/' and len(src[2]) == 1:
                # decoded first, split then, nothing but the leading slash removed
                s, un, lead = strip(receiver(src)), 0, 0
                ok = True
                while s != A1:
                    if callname(s) == 'unquote' and len(s[2]) == 1:
                        un, s = un + 1, strip(s[2][0])
                    elif callname(s) == 'lstrip' and s[2] and set(const_value(s[2][0])[1] or '') <= {'/', '#'}:
                        s, lead = strip(receiver(s)), 1
                    elif s[0] == 'sub' and show(s[2]) == 'slice(1, None, None)' or callname(s) == 'removeprefix':
                        s, lead = strip(s[1] if s[0] == 'sub' else receiver(s)), 1
                    else:
                        ok = False
                        break
                ok = ok and un == 1 and (lead == 1 or any(callname(x) == 'startswith' for x, b in fs))
            ctx.ob(ok, f.qual, f.where, 'the parts of the fragment are %s' % show(it, -9)[:120])
            seq = [b for x, b in fs if callname(x) == 'is_sequence' and x[2][:1] and strip(x[2][0]) == d or
                   callname(x) == 'isinstance' and strip(x[2][0]) == d and 'list' in show(x[2][1]).lower() + ('list' if 'Sequence' in show(x[2][1]) else '')]
            ctx.ob(bool(seq) and seq[0] == ints, f.qual, f.where, 'a part is %s an index in what is %s a sequence' % (
                '' if ints else 'not', 'or not' if not seq else '' if seq[0] else 'not'))
            if ints:
                part = strip(k)[2][0]
                cond = [x for x, b in fs if x[0] not in ('loop', 'looped', 'empty') and callname(x) != 'is_sequence' and (
                    callname(x) in ('isdigit', 'isdecimal', 'match', 'fullmatch') and b and strip(part) in list(subterms(x)) or
                    x[0] in ('cmp', 'compare', 'bin') and strip(k) in list(subterms(x)))]
                ctx.ob(bool(cond), f.qual, f.where, 'an index may be counted from the end')
    ctx.need(2, n, 'ways of following a fragment')
    ctx.need(1, indexes, 'followed indexes')


@rule('P13', 'lookup', 'An address is that of the document registered at it now, or refused; nothing is fetched unless asked.')
def p13_lookup(ctx):
    def is_doc(i):
        ps = [parse_pattern(x) for x in looked(i)]

        def same(t):
            return any(match(q, t) is not None for q in ps)
        return same

    d0 = is_doc(0)
    behave(ctx, 'resolve_doc', {'known': known(0), 'remote': ['A1', '!A1 is None', 'A1 is True']},
           lambda e: {'ret': lambda t, p: d0(t), 'never': [is_request, registers]} if e['known'] else
           {'ret': lambda t, p: any(is_request_term(x) for x in subterms(t)), 'must': [is_request, registers]} if e['remote'] else
           {'raises': ['InvalidValue'], 'never': [is_request, registers]}, 'the document of an address')
    for name in ('resolve_doc', 'resolve_uri', 'UriResolver._resolve'):
        f = ctx.func(name)
        a = f.node.args
        ds = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)})
        d = ds.get('remote')
        ctx.ob(isinstance(d, ast.Constant) and not d.value, f.qual, f.where, 'remote access is asked without being told')
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind == 'call' and callname(e.term) == 'register_doc':
                    ar = list(e.term[2]) + [None, None]
                    kw_ = dict(e.term[3])
                    doc, uri = kw_.get('doc', ar[0]), kw_.get('uri_id', ar[1])
                    ctx.ob(doc is not None and uri is not None and any(is_request_term(x) for x in subterms(strip(doc))) and
                           not any(is_request_term(x) for x in subterms(strip(uri))), f.qual, e.where, 'what is fetched is registered as %s' % show(e.term)[:100])
    d1 = is_doc(1)

    def value(t, p):
        t = strip(t)
        frag = [b for x, b in allfacts(p) if match('urldefrag(A1)[1]', x) is not None]
        if callname(t) == 'resolve_fragment' and len(t[2]) == 2:
            return (d1(strip(t[2][0])) or any(is_request_term(x) for x in subterms(t[2][0]))) and match('urldefrag(A1)[1]', t[2][1]) is not None
        return (d1(t) or any(is_request_term(x) for x in subterms(t))) and frag[:1] == [False]
    behave(ctx, 'UriResolver._resolve', {'known': known(1), 'remote': ['A2', '!A2 is None', 'A2 is True']},
           lambda e: {'ret': value, 'never': [is_request, registers]} if e['known'] else {'ret': value, 'must': [is_request]} if e['remote'] else
           {'raises': ['InvalidValue'], 'never': [is_request, registers]}, 'what an address designates',
           skip=lambda p: any(x[0] == 'caught' for x, b in allfacts(p)) and exc_name(p.outcome[1]) == 'InvalidValue')

    def uri_value(t, p):
        t = strip(t)
        given = [b for x, b in allfacts(p) if match('A1 is None', x) is not None]
        if callname(t) != 'resolve_fragment' or len(t[2]) != 2 or match('urldefrag(A0)[1]', t[2][1]) is None:
            return False
        d = strip(t[2][0])
        if given[:1] == [False]:
            return d == A1
        return given[:1] == [True] and callname(d) == 'resolve_doc' and match(DOC % 0, d[2][0]) is not None and (
            d[2][1:] == (A2,) or dict(d[3]).get('remote') == A2)
    f = ctx.func('resolve_uri')
    n = 0
    for p in ctx.paths(f, implicit=True):
        if p.normal:
            n += 1
            ctx.ob(uri_value(p.returns, p), f.qual, f.where, 'an address designates %s' % show(p.returns, -9)[:120])
        elif p.outcome[0] == 'raise':
            ctx.ob(exc_name(p.outcome[1]) == 'InvalidValue' or strip(p.outcome[1])[0] == 'exception', f.qual, f.where, 'refused with %s' % show(p.outcome[1])[:80])
    ctx.need(2, n, 'ways of resolving an address')


def is_request_term(x):
    return x[0] == 'call' and 'requests' in show(x[1], -9).split('.')[:1]


@rule('P13', 'now', 'What is registered is looked up at each resolution: nothing is remembered.')
def p13_now(ctx):
    n = 0
    m = ctx.func('resolve_doc').module
    for f in functions(ctx.repo):
        if f.module is not m:
            continue
        decs = [ast.unparse(d) for d in f.node.decorator_list]
        n += 1
        for d in decs:
            ctx.ob(not ('cache' in d or 'memo' in d), f.qual, f.where, 'what it gave before is given again')
        ctx.ob(True, f.qual, f.where, 'nothing is remembered')
    # nobody else keeps what resolve_* gave: wrapped at module level
    for mod in ctx.repo.modules.values():
        for s in ast.walk(mod.tree):
            if isinstance(s, ast.Call) and 'cache' in (called_name(s.func) or called_name(s) or '') and any(
                    isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, 'id', None) or getattr(x, 'attr', None)) in (
                        'resolve_doc', 'resolve_uri', 'resolve_fragment', '_resolve') for a in s.args for x in ast.walk(a)):
                ctx.ob(False, mod.path, mod.path, 'what an address designated before is remembered: %s' % ast.unparse(s)[:80])
    ctx.need(8, n, 'functions of the resolver')


@rule('P13', 'store', 'Documents are registered at their address, unregistered only when asked, by these operations alone.')
def p13_store(ctx):
    def reg(e):
        """a registration of the document at the address"""
        t = strip(e.term)
        if e.kind == 'store' and t[0] == 'sub':
            return same_any(STORE)(strip(t[1])) and strip(t[2]) == A1 and strip(e.value) == A0
        return e.kind in ('mutate', 'call') and False
    behave(ctx, 'UriResolver.register_doc', {}, lambda e: {'must': [reg]}, 'registering a document')
    k = 0
    for p in ctx.paths('UriResolver.register_doc'):
        for fct in [fs for e in p.events if reg(e) for fs in e.facts if fs[0][0] not in ('caught',)]:
            ctx.ob(False, 'UriResolver.register_doc', '', 'a document is registered only when %s' % show(fct[0])[:80])
        k += 1

    def unreg(e):
        """an unregistration of the address"""
        t = strip(e.term)
        if e.kind == 'del':
            return t[0] == 'sub' and same_any(STORE)(strip(t[1])) and strip(t[2]) == A0
        v = strip(e.value) if e.kind == 'mutate' else t if e.kind == 'call' else None
        return v is not None and callname(v) == 'pop' and same_any(STORE)(strip(unold(receiver(v)))) and v[2][:1] == (A0,)
    behave(ctx, 'UriResolver.unregister_doc', {'known': ['A0 in ' + s for s in STORE] + ['A0 in %s.keys()' % s for s in STORE]},
           lambda e: {'must': [unreg]}, 'unregistering a document', valid=None, skip=lambda p: any(x[0] == 'caught' for x, b in allfacts(p)) or
           any(match('A0 in ' + s, x) is not None and not b for x, b in allfacts(p) for s in STORE))
    behave(ctx, 'UriResolver.get_doc_store', {}, lambda e: {'ret': STORE}, 'the store')
    # who writes it
    allowed = ('UriResolver.register_doc', 'UriResolver.unregister_doc', 'UriResolver.__init__')
    n = 0
    for f in functions(ctx.repo):
        src = [x for x in own_nodes(f) if isinstance(x, ast.Attribute) and x.attr in ('_doc_store', 'get_doc_store')]
        if not src or f.key not in ctx.baseline:
            continue
        n += 1
        if f.qual in allowed:
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind not in ('store', 'del', 'mutate'):
                    continue
                t = strip(unold(e.term))
                if e.kind == 'mutate':
                    r = strip(unold(receiver(e.value))) if receiver(e.value) else t
                else:
                    r = strip(unold(t[1])) if t[0] in ('sub',) else t
                bad = same_any(STORE)(r)
                ctx.ob(not bad, f.qual, e.where, 'the registered documents are changed by %s' % show(strip(e.term))[:80])
            ctx.ob(True, f.qual, f.where, 'writes no registration')
    ctx.need(5, n, 'functions reading the registered documents')
    # resolving writes nothing
    for name in ('resolve_doc', 'resolve_fragment', 'resolve_uri', 'UriResolver._resolve', 'scope'):
        f = ctx.func(name)
        for p in ctx.paths(f, loop2=name == 'resolve_fragment'):
            for e in p.events:
                if e.kind in ('store', 'del', 'mutate'):
                    t = strip(e.term)
                    ctx.ob(t[0] in ('local', 'new') or root(t)[0] in ('new', 'name') and not same_any(STORE)(t) and False, f.qual, e.where,
                           'resolving changes %s' % show(t)[:80])
            ctx.ob(True, f.qual, f.where, 'changes nothing')
    # callers hand over the document and its address
    k = 0
    for f in functions(ctx.repo):
        if f.key not in ctx.baseline or not any(called_name(x) == 'register_doc' for x in own_nodes(f)):
            continue
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind != 'call' or callname(e.term) != 'register_doc':
                    continue
                k += 1
                ar = list(e.term[2]) + [v for n_, v in e.term[3]]
                ok = len(ar) == 2
                if ok and not e.term[3]:
                    d, u = show(strip(ar[0]), -9), show(strip(ar[1]), -9)
                    ok = ('id' in u or 'uri' in u or 'urldefrag' in u or 'title' in u or "'$id'" in u) and strip(ar[0]) != strip(ar[1])
                ctx.ob(ok, f.qual, e.where, 'registered as %s' % show(e.term)[:100])
    ctx.need(3, k, 'registrations')
    f = ctx.func('Document.load')
    behave(ctx, f, {'id': ['A0.doc_id', '!A0.doc_id is None']}, lambda e: {'must': ['UriResolver.register_doc(A0.content, A0.doc_id)']} if e['id'] else
           {'never': [registers]}, 'a loaded document')


@rule('P13', 'load', 'A loaded schema is registered at the address it tells (its title without one), the one read from a file at least under its name.')
def p13_load(ctx):
    f = ctx.func('load_schema')
    ID = ('_id_of(A0)', "A0.get('$id', A0.get('id'))", "A0.get('$id')", "A0.get('id')")
    n = 0

    def has_id(x):
        return any(match(q, y) is not None for y in subterms(strip(x)) for q in ID)

    titles = 0
    for p in ctx.paths(f):
        if not p.normal:
            if p.outcome[0] == 'raise':
                tt = [b for x, b in allfacts(p) if match("'title' in A0", x) is not None or match("A0.get('title')", x) is not None]
                ctx.ob(any(has_id(x) and not b for x, b in allfacts(p)) and (tt[:1] != [True] or any(not b and "['title']" in show(x, -9) for x, b in allfacts(p))) or not any(x for x, b in allfacts(p) if has_id(x)), f.qual, f.where,
                       'a schema which can be named is refused')
            continue
        n += 1
        titles += any("'title'" in show(e.term, -9) for e in p.events if e.kind == 'call' and callname(e.term) == 'register_doc')
        ids = [b for x, b in allfacts(p) if has_id(x)]
        ev = [e for e in p.events if e.kind == 'call' and callname(e.term) == 'register_doc' or registers(e)]
        ctx.ob(len(ev) >= 1, f.qual, f.where, 'a loaded schema is not registered')
        for e in ev:
            if e.kind == 'call':
                ar = list(e.term[2]) + [dict(e.term[3]).get(k) for k in ('doc', 'uri_id') if k in dict(e.term[3])]
                d, u = ar[0], ar[1]
            else:
                d, u = e.value, e.term[2]
            ctx.ob(strip(unold(d)) == A0, f.qual, e.where, 'what is registered is %s' % show(d)[:80])
            told = has_id(u)
            titled = any(x == const('title') for x in subterms(strip(u)))
            no = any(not b for b in ids)
            ctx.ob(told or titled and no, f.qual, e.where, 'a schema is registered at %s' % show(u)[:80])
        r = strip(p.returns)
        ctx.ob(r[0] == 'tuple' and len(r[1]) == 2 and strip(unold(r[1][1])) == A0, f.qual, f.where, 'gives %s' % show(r)[:80])
        given = [b for x, b in allfacts(p) if match('A1 is None', x) is not None]
        key = [strip(e.term)[2] for e in p.stores() if strip(e.term)[0] == 'sub' and strip(unold(strip(e.term)[1])) == A1]
        regs = [strip(e.term[2][1]) for e in ev if e.kind == 'call' and len(e.term[2]) > 1]
        ctx.ob(not key or not regs or key[0] == regs[0], f.qual, f.where, 'the store given is filled at another address')
        ctx.ob(not regs or not has_id(regs[0]) or any(callname(x) in ('rstrip', 'split', 'urldefrag', 'strip', 'partition') for x in subterms(regs[0])), f.qual,
               f.where, 'a schema is registered at an address with a fragment')
        wr = [e for e in p.events if e.kind == 'store' and strip(e.term)[0] == 'sub' and strip(unold(strip(e.term)[1])) == A1]
        ctx.ob(given[:1] != [False] or any(strip(unold(e.value)) == A0 for e in wr), f.qual, f.where, 'the store given is not filled')
    ctx.need(2, n, 'ways of loading a schema')
    ctx.need(1, titles, 'schemas registered under their title')
    g = ctx.func('_id_of')
    for p in ctx.paths(g):
        t = strip(p.returns)
        first = any(match("A0.get('$id')", x) is not None or match("'$id' in A0", x) is not None for x, b in allfacts(p))
        ok = match("A0.get('$id', A0.get('id'))", t) is not None or first and any(match(q, t) is not None for q in ID[2:] + ("A0['$id']", "A0['id']"))
        ctx.ob(ok, g.qual, g.where, 'the address of a schema is %s' % show(t)[:80])
    f = ctx.func('load_schema_file')
    n = 0
    for p in ctx.paths(f, may_raise=('load_schema',)):
        if any(x[0] == 'caught' for x, b in allfacts(p)):
            ctx.ob(not p.normal, f.qual, f.where, 'a schema which cannot be loaded is not told')
            continue
        if not p.normal:
            continue
        n += 1
        sets = [e for e in p.events if e.kind in ('store', 'mutate') and "'$id'" in show(e.term if e.kind == 'store' else e.value)]
        for e in sets:
            no = any(not b and (callname(x) == '_id_of' or match("ANY.get('$id', ANY.get('id'))", x) is not None) for x, b in e.facts)
            ctx.ob(no, f.qual, e.where, 'a schema which tells its address is given another one')
        yes = any(b and callname(strip(x)) == '_id_of' for x, b in allfacts(p))
        ctx.ob(yes or bool(sets), f.qual, f.where, 'a schema without address is not named after its file')
        ctx.ob(callname(p.returns) == 'load_schema', f.qual, f.where, 'gives %s' % show(p.returns)[:80])
    ctx.need(2, n, 'ways of loading a schema file')


@rule('P13', 'modules', 'Every schema file of a module is loaded; one which cannot be does not prevent the others.')
def p13_modules(ctx):
    f = ctx.func('load_module_schemas')
    n = 0
    for p in ctx.paths(f, may_raise=('load_schema_file',)):
        fs = allfacts(p)
        if not p.normal:
            ctx.ob(not any(x[0] == 'caught' for x, b in fs) and not (isinstance(p.outcome[1], tuple) and 'load_schema_file' in show(p.outcome[1], -9)),
                   f.qual, f.where, 'one schema which cannot be loaded prevents the others')
            continue
        n += 1
        loop = [x[1] for x, b in fs if x[0] in ('loop', 'looped') and b and callname(x[1]) in ('list_files', 'sorted', 'glob', 'rglob')]
        none = [x for x, b in fs if callname(x) == 'exists' and not b]
        empty = [x for x, b in fs if x[0] == 'empty' and b and 'list_files' in show(x, -9)]
        ctx.ob(bool(loop or none or empty), f.qual, f.where, 'the schemas of a module are not looked for')
        given = [b for x, b in fs if match('A1 is None', x) is not None]
        S = A1 if given[:1] == [False] else None
        ok_store = lambda t: strip(unold(t)) == S if S else same_any(STORE)(strip(unold(t)))
        ctx.ob(bool(given) and ok_store(p.returns), f.qual, f.where, 'gives %s' % show(p.returns)[:80])
        for g in loop:
            fl = g if callname(g) == 'list_files' else next((x for x in subterms(g) if callname(x) == 'list_files'), g)
            ctx.ob('json' in show(fl, -9) and 'register' in show(fl[2][0] if fl[2] else fl, -9) and (callname(fl) != 'list_files' or dict(fl[3]).get('recursive') in (
                TRUE, const(1)) or len(fl[2]) > 3), f.qual, f.where, 'the files are %s' % show(fl)[:100])
            ld = [e for e in p.events if e.kind == 'call' and callname(e.term) == 'load_schema_file']
            ctx.ob(any(e.term[2][:1] == (('item', g),) and len(e.term[2]) > 1 and ok_store(e.term[2][1]) for e in ld), f.qual, f.where, 'a schema of a module is not loaded')
    ctx.need(2, n, 'ways of loading the schemas of a module')


@rule('P13', 'resolver', 'The resolver of a schema finds the registered documents and its own, and registers nothing of a schema which is not.')
def p13_resolver(ctx):
    f = ctx.func('UriResolver.create')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        t = strip(p.returns)
        fs = allfacts(p)
        uri = [b for x, b in fs if x == A0]
        U = A0 if uri[:1] == [True] else None
        n += 1
        if callname(t) not in ('UriResolver', 'cls'):
            ctx.ob(False, f.qual, f.where, 'gives %s' % show(t)[:80])
            continue
        kw_ = dict(t[3])
        ar = list(t[2]) + [NONE] * 2
        base, doc = kw_.get('base_uri', ar[0]), kw_.get('referrer', ar[1])
        ctx.ob(bool(uri) and (uri[0] or 'DEFAULT_MS_URI' in show(base, -9)), f.qual, f.where, 'without an address, the base is %s' % show(base)[:80])
        store = kw_.get('store') or (ar[2] if len(ar) > 2 else None)
        inn = [(x, b) for x, b in fs if x[0] in ('in', 'cmp', 'compare') and any(same_any(STORE)(y) for y in subterms(x)) or
               any(match('ANY in ' + s, x) is not None for s in STORE)]
        isreg = inn[0][1] if inn else None
        ctx.ob(isreg is not None, f.qual, f.where, 'whether the document is registered is not looked at')
        ctx.ob(U is None or U in list(subterms(strip(base))), f.qual, f.where, 'the base of the resolver is %s' % show(base)[:80])
        if isreg:
            ctx.ob(any(match('%s[ANY]' % s, strip(doc)) is not None or match('%s.get(ANY)' % s, strip(doc)) is not None for s in STORE), f.qual, f.where,
                   'the document of a registered address is %s' % show(doc)[:80])
        else:
            given = [b for x, b in fs if match('A1 is None', x) is not None]
            want = A1 if given[:1] == [False] else None
            ok = strip(doc) == A1 if want else callname(doc) == 'resolve_uri'
            ctx.ob(bool(given) and ok, f.qual, f.where, 'the document of an unregistered address is %s' % show(doc)[:80])
            ok = store is not None and callname(store) in ('UriDict', 'copy', 'deepcopy') and any(same_any(STORE)(y) for y in subterms(strip(store)))
            ctx.ob(ok, f.qual, f.where, 'the documents known by a resolver of its own are %s' % (show(store)[:80] if store else 'the registered ones themselves'))
    ctx.need(3, n, 'ways of making a resolver')
    f = ctx.func('UriResolver.__init__')
    for p in ctx.paths(f):
        sets = [e for e in p.stores() if strip(e.term)[0] == 'sub' and strip(e.term)[2] == A1 and strip(e.value) == A2]
        ctx.ob(bool(sets) or any(e.kind == 'call' and callname(e.term) == '__init__' for e in p.events), f.qual, f.where, 'the document of a resolver is not known by it')
        st = [e for e in p.stores() if match('A0.store', e.term) is not None]
        given = [b for x, b in allfacts(p) if x == A3 or match('A3 is None', x) is not None]
        sup = any(e.kind == 'call' and callname(e.term) == '__init__' for e in p.events)
        ctx.ob(bool(st) or sup, f.qual, f.where, 'a resolver knows no document')
        for e in st:
            v = strip(e.value)
            ctx.ob(bool(given) and (v == A3 and given[0] or same_any(STORE)(v) and not given[0]), f.qual, f.where, 'a resolver knows %s' % show(v)[:80])
        attrs = {strip(e.term)[2] for e in p.stores() if strip(e.term)[0] == 'attr' and strip(e.term)[1] == A0}
        want = {'referrer', 'cache_remote', 'handlers', '_scopes_stack', 'store', '_urljoin_cache', '_remote_cache'}
        ctx.ob(sup or want <= attrs, f.qual, f.where, 'a resolver has no %s' % ', '.join(sorted(want - attrs)))
        scs = [strip(e.value) for e in p.stores() if match('A0._scopes_stack', e.term) is not None]
        ctx.ob(sup or all(v == ('list', (A1,)) for v in scs), f.qual, f.where, 'the scope of a resolver is not its base')
        for at, i, made in (('_urljoin_cache', 6, 'urljoin'), ('_remote_cache', 7, 'resolve_from_url')):
            for e in p.stores():
                if match('A0.' + at, e.term) is not None:
                    g = [b for x, b in allfacts(p) if match('A%d is None' % i, x) is not None]
                    v = strip(e.value)
                    ctx.ob(v == ('arg', i) and g[:1] == [False] or g[:1] == [True] and made in show(v, -9), f.qual, f.where, 'goes by %s' % show(v)[:80])


@rule('P13', 'uridict', 'Addresses are the same whatever their case and form: every access of the store goes by the normalised address.')
def p13_uridict(ctx):
    c = next(c for m in ctx.repo.modules.values() for c in m.classes.values() if c.name == '_KeyModifierMapping')
    u = next(c for m in ctx.repo.modules.values() for c in m.classes.values() if c.name == 'UriDict')
    ctx.ob(any(getattr(b, 'name', b) == '_KeyModifierMapping' or show_base(b) == '_KeyModifierMapping' for b in u.node.bases), 'UriDict', u.key, 'addresses are not normalised')
    MOD = ('ANY.key_modifier(A1)',)
    n = 0
    for name, pat in (('__getitem__', 'A0._dict[K]'), ('__setitem__', None), ('__delitem__', None), ('__contains__', 'K in A0._dict')):
        for cls in (c, u):
            f = cls.methods.get(name)
            if f is None:
                if cls is c:
                    ctx.ob(False, '%s.%s' % (c.name, name), c.key, 'goes by no normalised key')
                continue
            for p in ctx.paths(f):
                if not p.normal:
                    continue
                n += 1
                if name == '__getitem__':
                    ok = any(match('A0._dict[ANY.key_modifier(A1)]', p.returns) is not None for _ in (0,))
                elif name == '__contains__':
                    ok = match('ANY.key_modifier(A1) in A0._dict', strip(p.returns)) is not None
                    if not ok:
                        rows = [(x, b, v) for fs, v in truths(p) for x, b in fs]
                        ok = bool(rows) and all(match('ANY.key_modifier(A1) in A0._dict', x) is not None and b == v for x, b, v in rows)
                elif name == '__setitem__':
                    ok = any(e.kind == 'store' and match('A0._dict[ANY.key_modifier(A1)]', e.term) is not None and strip(e.value) == A2 for e in p.events)
                    ok = ok and not any(e.kind == 'store' and match('A0._dict[A1]', e.term) is not None for e in p.events)
                else:
                    ok = any(e.kind == 'del' and match('A0._dict[ANY.key_modifier(A1)]', e.term) is not None for e in p.events) or any(
                        e.kind == 'mutate' and match('A0._dict.pop(ANY.key_modifier(A1), ...)', e.value) is not None for e in p.events)
                ctx.ob(ok, f.qual, f.where, 'goes by a key which is not normalised')
    for name in ('get', 'pop', 'setdefault', 'update', 'keys', 'items', 'values', '__eq__'):
        for cls in (c, u):
            ctx.ob(name not in cls.methods or name == '__eq__', '%s.%s' % (cls.name, name), cls.key, 'is redefined', None)
    f = c.methods['__init__']
    for p in ctx.paths(f):
        if any(x[0] == 'loop' and b for x, b in allfacts(p)):
            n += 1
            ok = False
            for e in p.events:
                if e.kind == 'store' and strip(e.term)[0] == 'sub':
                    ok = ok or callname(strip(e.term)[2]) == 'key_modifier'
            for e in p.stores():
                if match('A0._dict', e.term) is not None:
                    ok = ok or any(callname(x) == 'key_modifier' for x in subterms(e.value))
            ctx.ob(ok, f.qual, f.where, 'what it starts with is not normalised')
    for f, what in ((c.methods['__iter__'], 'A0._dict'), (c.methods['__len__'], 'A0._dict')):
        for p in ctx.paths(f):
            ctx.ob(any(match(what, x) is not None for x in subterms(strip(p.returns))), f.qual, f.where, 'gives %s' % show(p.returns)[:80])
    k = u.methods.get('key_modifier')
    ctx.ob(k is not None, 'UriDict.key_modifier', u.key, 'addresses are not normalised')
    for p in ctx.paths(k) if k else ():
        names = [callname(x) for x in subterms(strip(p.returns)) if x[0] == 'call']
        ctx.ob(('lower' in names or 'casefold' in names) and 'geturl' in names and ('urlsplit' in names or 'urlparse' in names) and A1 in list(subterms(strip(p.returns))),
               k.qual, k.where, 'an address is normalised to %s' % show(p.returns)[:80])
    st = module_class_value(ctx, 'UriResolver', '_doc_store')
    ctx.ob(st is not None and isinstance(st, ast.Call) and called_name(st) == 'UriDict', 'UriResolver._doc_store', '', 'the registered documents are in %s' % (
        ast.unparse(st) if st is not None else 'nothing'))
    ctx.need(5, n, 'accesses of a mapping of addresses')


def show_base(b):
    return b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None


def module_class_value(ctx, cls, attr):
    c = next((c for m in ctx.repo.modules.values() for c in m.classes.values() if c.name == cls), None)
    for s in c.node.body if c else ():
        if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == attr for x in s.targets):
            return s.value
