"""P24: the helpers on collections, texts and paths lose nothing and change nothing they are given."""
import ast
from ..core import rule
from ..lib import *
from .p17_contexts import fn, kw, A0, A1, A2, A3, KW, ARGS
from .p22_files import full
from .p23_types import kinds, truth, last, classes

U, S = 'utils.utils:', 'utils.str_utils:'


def isa(*names):
    """isinstance(first argument, one of names) or the helper which says it."""
    def test(t):
        t = full(t)
        return callname(t) == 'isinstance' and len(t[2]) == 2 and full(t[2][0]) == A0 and set(classes(t[2][1])) <= set(names)
    return test


def either(*tests):
    return lambda t: any(x(t) for x in tests)


def said(name):
    return lambda t: callname(full(t)) == name and full(t)[2][:1] == (A0,)


def nested(ctx, key):
    fs = [f for f in ctx.repo.all_functions(nested=True) if f.key == 'ngoschema.' + key]
    return fs[0] if fs else None


STRING, MAPPING, SEQ, DEQUE, WEAK, SET = isa('str', 'basestring', 'string_types', 'text_type', 'bytes'), isa('Mapping', 'MutableMapping'), isa('Sequence'), isa('deque'), isa('WeakSet'), \
    isa('Set', 'AbstractSet', 'set', 'frozenset')


@rule('P24', 'kinds', 'a text is not a sequence; a mapping, a sequence or a set is a collection; a value which is not a list is made one of, nothing stays nothing')
def p24_kinds(ctx):
    for name, atoms, spec in (
            ('is_string', {'s': STRING}, lambda e: e['s']),
            ('is_mapping', {'m': MAPPING}, lambda e: e['m']),
            ('is_sequence', {'q': SEQ, 's': STRING, 'd': DEQUE, 'w': WEAK}, lambda e: e['q'] and not e['s'] or e['d'] or e['w']),
            ('is_collection', {'m': either(MAPPING, said('is_mapping')), 'q': said('is_sequence'), 'c': SET}, lambda e: e['m'] or e['q'] or e['c'])):
        f = fn(ctx, U + name)
        bool_table(ctx, ctx.paths(f), atoms, spec, f.qual, 'the kind of a value')
    behave(ctx, fn(ctx, U + 'to_list'), {'none': 'A0 is None', 'q': said('is_sequence'), 'l': isa('list')}, lambda e: {
        'ret': 'A1' if e['none'] else 'A0' if e['q'] and e['l'] else 'list(A0)' if e['q'] else lambda t, p: full(t) == ('list', (A0,)), 'raises': False}, 'a list of a value',
        valid=lambda e: not (e['l'] and not e['q']) and not (e['none'] and e['q']))
    L = lambda t: callname(full(t)) == 'to_list' and full(t)[2][:1] == (A0,)
    none = lambda t: full(t)[0] == 'cmp' and full(t)[1] == 'is' and L(full(t)[2]) and full(t)[3] == const(None)
    one = lambda t: full(t)[0] == 'cmp' and full(t)[1] == 'eq' and callname(full(full(t)[2])) == 'len' and full(t)[3] == const(1)
    more = lambda t: full(t)[0] == 'cmp' and full(t)[1] == 'lt' and full(t)[2] == const(1) and callname(full(full(t)[3])) == 'len'
    behave(ctx, fn(ctx, U + 'to_none_single_list'), {'none': none, 'one': one, 'more': more}, lambda e: {
        'ret': 'None' if e['none'] else (lambda t, p: full(t)[0] == 'sub' and L(full(t)[1]) and full(full(t)[2]) == const(0)) if e['one'] else
        (lambda t, p: L(t)) if e['more'] else 'None'}, 'what stands for a list', valid=lambda e: not (e['one'] and e['more']))
    behave(ctx, fn(ctx, S + 'get_unicode'), {'s': isa('str')}, lambda e: {'ret': 'A0', 'raises': False} if e['s'] else {
        'ret': lambda t, p: callname(full(t)) in ('str', 'decode', 'text_type') and any(full(x) == A0 for x in subterms(full(t))) and any(full(x) == A1 for x in subterms(full(t)))}, 'a text')


@rule('P24', 'nested', 'every leaf of a nested dictionary is given once with its path, the separator asked being used at every level; a path is split at its dots and brackets, in its order; '
      'the descendant of an object is what each key of the path gives in turn, nothing when one is missing')
def p24_nested(ctx):
    f = fn(ctx, U + 'nested_dict_iter')
    rec = lambda t: callname(full(t)) == 'nested_dict_iter'
    seen = set()
    for p in ctx.paths(f):
        ctx.ob(p.normal, f.qual, f.where, 'a nested dictionary is refused')
        fs = [(full(t), b) for t, b in allfacts(p)]
        maps = [b for t, b in fs if callname(t) in ('isinstance', 'is_mapping') and (callname(t) == 'is_mapping' or last(t[2][1]) in ('Mapping', 'dict', 'MutableMapping'))]
        for e in p.events:
            t = full(e.term)
            if e.kind == 'call' and rec(t):
                sep = full(t[2][1]) if len(t[2]) > 1 else full(kw(t, 'separator') or const(None))
                ctx.ob(sep == A1, f.qual, e.where, 'the separator asked is not used below')
                x = full(t[2][0])
                ctx.ob(x[0] == 'sub' and full(x[1]) == A0, f.qual, e.where, 'what is gone through is %s' % show(x)[:80])
            if e.kind != 'yield':
                continue
            if t[0] != 'tuple' or len(t[1]) != 2:
                ctx.ob(False, f.qual, e.where, 'what is given is not a name and a value: %s' % show(t)[:80])
                continue
            k, v = full(t[1][0]), full(t[1][1])
            inner = [x for x in subterms(v) if rec(x)]
            key = ('item', A0)
            if inner:
                ctx.ob(True in maps, f.qual, e.where, 'what may not be a dictionary is gone through')
                flat, want = list(k[1]) if k[0] == 'fstr' else [], None
                parts = [full(x) for x in (flat if flat else subterms(k))]
                ok = key in parts and A1 in parts and any(any(rec(y) for y in subterms(x)) for x in parts)
                if flat:
                    i, j = parts.index(key) if key in parts else 9, parts.index(A1) if A1 in parts else 9
                    ok = ok and len(parts) == 3 and i < j < 2 + 1 and j == 1
                ctx.ob(ok, f.qual, e.where, 'the path of a leaf is %s' % show(k)[:100])
                ctx.ob(v[0] == 'sub' and full(v[2]) == const(1) or v[0] in ('item', 'val') or v[0] == 'sub', f.qual, e.where, 'the value of a leaf is %s' % show(v)[:80])
                if v[0] == 'sub' and k[0] == 'fstr':
                    lastp = full(k[1][-1])
                    ctx.ob(lastp[0] == 'sub' and full(lastp[2]) == const(0) and full(v[2]) == const(1), f.qual, e.where, 'names and values are mixed: %s' % show(t)[:80])
                seen.add('inner')
            else:
                ctx.ob(False in maps, f.qual, e.where, 'a dictionary is given as a leaf')
                ctx.ob(k == key and v in (('sub', A0, key), ('val', A0)), f.qual, e.where, 'a leaf is given as %s' % show(t)[:80])
                seen.add('leaf')
        if any(t[0] == 'loop' and t[1] == A0 and b for t, b in fs) and not any(t[0] == 'empty' and b for t, b in fs):
            ctx.ob(any(e.kind == 'yield' for e in p.events), f.qual, f.where, 'a leaf is lost')
    ctx.ob(seen == {'inner', 'leaf'}, f.qual, f.where, 'leaves are not all given')
    f = fn(ctx, U + 'split_path')
    DOT = ('call', ('attr', A0, 'split'), (const('.'),), ())
    n = set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        adds = [full(e.value)[2][0] for e in p.events if e.kind == 'mutate' and callname(full(e.value)) == 'append']
        for x in map(full, adds):
            num = [b for t, b in fs if callname(t) in ('isdigit', 'isdecimal', 'is_integer')]
            src = [y for y in subterms(x) if y[0] == 'item']
            ctx.ob(any(y == ('item', DOT) for y in src) and any(callname(y) == 'split' and full(y[2][0]) == const('[') for y in subterms(x)), f.qual, f.where,
                   'a part of the path is %s' % show(x)[:100])
            if callname(x) == 'int':
                ctx.ob(True in num, f.qual, f.where, 'what may not be a number is taken for one')
                n.add('index')
            else:
                ctx.ob(True not in num, f.qual, f.where, 'a number between brackets is not an index')
                n.add('name')
            pos = [b for t, b in fs if t[0] == 'index']
            ctx.ob(callname(x) != 'int' or True in pos, f.qual, f.where, 'a name which is a number is taken for an index')
            ctx.ob(any(callname(y) in ('strip', 'rstrip') and full(y[2][0]) in (const('[]'), const(']')) for y in subterms(x)), f.qual, f.where, 'a part of the path keeps its brackets')
        for e in p.events:
            if e.kind == 'mutate' and callname(full(e.value)) == 'append':
                ctx.ob(p.normal and e.term == p.returns, f.qual, f.where, 'the parts found are not those given')
        if any(t[0] == 'looped' for t, b in fs) and not any(t[0] == 'empty' for t, b in fs):
            ctx.ob(len(adds) == 1, f.qual, f.where, 'a part of the path is lost or doubled')
    ctx.ob(n == {'index', 'name'}, f.qual, f.where, 'paths do not give names and indexes: %s' % n)
    f = fn(ctx, U + 'get_descendant')
    n = set()
    for p in ctx.paths(f, implicit=True):
        fs = [(full(t), b) for t, b in allfacts(p)]
        if not p.normal:
            continue
        t = full(p.returns)
        text = [b for x, b in fs if callname(x) == 'is_string' and x[2][0] == A1 or callname(x) == 'isinstance' and full(x[2][0]) == A1]
        ctx.ob(bool(text), f.qual, f.where, 'a path is not told from its keys')
        keys = ('call', ('name', 'split_path'), (A1,), ()) if text and text[0] else A1
        child = ('sub', A0, ('sub', keys, const(0)))
        caught = any(x[0] == 'caught' for x, b in fs)
        more = [b for x, b in fs if x[0] == 'cmp' and x[1] == 'lt' and full(x[2]) == const(1) and callname(full(x[3])) == 'len']
        if callname(t) == 'get_descendant':
            rest = full(t[2][1]) if len(t[2]) > 1 else None
            ok = full(t[2][0]) == child and rest and rest[0] == 'sub' and full(rest[1]) == keys and full(rest[2]) == ('slice', const(1), const(None), const(None))
            ctx.ob(bool(ok), f.qual, f.where, 'the rest of the path is looked for as %s' % show(t)[:100])
            ctx.ob(True in more or not more, f.qual, f.where, 'the path goes on after its last key')
            n.add('more')
        elif caught:
            ctx.ob(t == const(None), f.qual, f.where, 'what is missing is %s' % show(t)[:80])
            n.add('missing')
        else:
            none = any(x[0] == 'cmp' and x[1] == 'is' and full(x[2]) == child and b for x, b in fs)
            ctx.ob(t == child or t == const(None) and none, f.qual, f.where, 'the descendant is %s' % show(t)[:80])
            ctx.ob(none or False in more, f.qual, f.where, 'the path is not followed to its end')
            n.add('last')
    ctx.ob({'more', 'missing', 'last'} <= n, f.qual, f.where, 'descendants are not found at every level')


@rule('P24', 'through', 'going through a collection applies the function to each of its keys or indexes, and to those of the mappings and lists it holds, one level deeper; a filtered collection is a copy '
      'which keeps the keys to keep and not those to exclude, at every level when asked')
def p24_through(ctx):
    f = fn(ctx, U + 'apply_through_collection')
    n = {'call': 0, 'rec': 0, 'kinds': set()}
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        some = truth(fs, A0)
        is_map = [b for t, b in fs if callname(t) in ('is_mapping', 'isinstance') and full(t[2][0]) == A0]
        looped = any(t[0] == 'looped' and b for t, b in fs)
        calls = [full(e.term) for e in p.events if e.kind == 'call' and full(full(e.term)[1]) == A1]
        recs = [full(e.term) for e in p.events if e.kind == 'call' and callname(full(e.term)) == 'apply_through_collection']
        if some is False:
            ctx.ob(not calls and not recs, f.qual, f.where, 'a function is applied to nothing')
            continue
        if looped:
            ctx.ob(len(calls) == 1, f.qual, f.where, 'the function is not applied once to each item')
        for c in calls:
            n['call'] += 1
            k = full(c[2][1]) if len(c[2]) > 1 else None
            ctx.ob(full(c[2][0]) == A0 and k is not None and k[0] == ('item' if True in is_map else 'index'), f.qual, f.where, 'the function is applied to %s' % show(c)[:80])
            ctx.ob(full(kw(c, 'level') or const(None)) == A3 and any(v == KW for _, v in c[3]), f.qual, f.where, 'the level or the options are not given to the function')
        for t, b in allfacts(p):
            if t[0] == 'loop' and True in is_map:
                ctx.ob(any(x[0] in ('list', 'comp', 'new') or callname(x) in ('list', 'tuple', 'sorted', 'set', 'frozenset', 'dict', 'copy', 'deepcopy', 'fromkeys') for x in subterms(t[1])), f.qual, f.where,
                       'the keys of a mapping are gone through while the function may change them: %s' % show(t[1])[:80])
        deep = truth(fs, A2)
        held = [(t, b) for t, b in fs if callname(t) in ('is_mapping', 'isinstance') and full(t[2][0]) != A0]
        for c in recs:
            n['rec'] += 1
            v = full(c[2][0])
            own = v == const(None) or v[0] == 'sub' and full(v[1]) == A0 or callname(v) == 'get' and full(v[1][1]) == A0
            ctx.ob(own, f.qual, f.where, 'what is gone through is %s' % show(v)[:80])
            if v[0] == 'sub' or callname(v) == 'get':
                k = full(v[2]) if v[0] == 'sub' else full(v[2][0])
                ctx.ob(k[0] == ('item' if True in is_map else 'index') and (True in is_map or v[0] == 'sub'), f.qual, f.where, 'what is gone through is %s' % show(v)[:80])
                lim = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'lt' and full(t[2]) == k]
                ctx.ob(v[0] != 'sub' or True in is_map or lim == [True], f.qual, f.where, 'an item is looked for which the function may have removed')
            ctx.ob(any(b for t, b in held), f.qual, f.where, 'what may not be a collection is gone through')
            lv = full(kw(c, 'level') or (c[2][3] if len(c[2]) > 3 else const(None)))
            ctx.ob(lv in (('bin', 'Add', A3, const(1)), ('bin', 'Add', const(1), A3)), f.qual, f.where, 'the level below is %s' % show(lv)[:60])
            ctx.ob(full(c[2][1]) == A1 and any(x == KW for _, x in c[3]), f.qual, f.where, 'another function, or not its options, is applied below')
            r = full(c[2][2]) if len(c[2]) > 2 else full(kw(c, 'recursive') or const(True))
            ctx.ob(r in (A2, const(True)) and deep is True, f.qual, f.where, 'what is held is gone through although it is not asked')
            for t, b in held:
                if b:
                    n['kinds'] |= {'Mapping'} if callname(t) == 'is_mapping' else set(classes(t[2][1]))
        if looped and deep and any(b for t, b in held):
            ctx.ob(bool(recs), f.qual, f.where, 'what is held is not gone through')
    ctx.ob({'Mapping', 'list'} <= n['kinds'] or {'dict', 'list'} <= n['kinds'], f.qual, f.where, 'the mappings and the lists which are held are not gone through')
    ctx.need(4, n['call'], 'applications of the function')
    f = fn(ctx, U + 'filter_collection')
    copied = lambda x: any(callname(y) in ('deepcopy',) for y in subterms(full(x)))
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = [(full(t), b) for t, b in allfacts(p)]
        only, but = truth(fs, A1), truth(fs, A2)
        t = full(p.returns)
        if only or but:
            n += 1
            ctx.ob(copied(t), f.qual, f.where, 'a filtered collection is not a copy: %s' % show(t)[:80])
        else:
            ctx.ob(t == A0 or copied(t) and any(full(x) == A0 for x in subterms(t)), f.qual, f.where, 'a collection which is not filtered becomes %s' % show(t)[:80])
        for e in p.events:
            if e.kind in ('mutate', 'store', 'del'):
                x = full(e.term)
                ctx.ob(copied(x) or x[0] in ('new',), f.qual, e.where, 'the collection given is changed: %s' % show(x)[:80])
                c = full(e.value) if isinstance(e.value, tuple) else None
                if e.kind == 'mutate' and callname(c) in ('pop', '__delitem__') or e.kind == 'del':
                    n += 1
                    key = full(c[2][0]) if c else full(x[2])
                    at = [(y, b) for y, b in fs if y[0] == 'cmp' and any(full(z) == key for z in subterms(y)) and any(callname(z) == 'set' or full(z) in (A1, A2) for z in subterms(y))]
                    ctx.ob(bool(at), f.qual, e.where, 'a key is removed which is not looked for')
    ctx.need(6, n, 'paths which filter')
    g = nested(ctx, U + 'filter_collection.<locals>._filter_keys')
    if g is not None:
        gone = set()
        for p in ctx.paths(g):
            fs = [(full(t), b) for t, b in allfacts(p)]
            pops = [e for e in p.events if e.kind in ('mutate', 'del') and (e.kind == 'del' or callname(full(e.value)) == 'pop')]
            recs = [full(e.term) for e in p.events if e.kind == 'call' and (callname(full(e.term)) == '_filter_keys' or full(e.term)[1][0] == 'closure')]
            same = [(t, b) for t, b in fs if t[0] == 'cmp' and t[1] in ('eq', 'is') and any(full(x) == A2 for x in t[2:]) and any(full(x)[0] == 'cmp' and full(x)[1] == 'in' for x in t[2:])]
            keep = truth(fs, A2)
            inn = [(t, b) for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and full(t[3]) == A1]
            verdict = same[-1][1] if same else (inn[-1][1] == keep if inn and keep is not None else None)
            ismap = [b for t, b in fs if callname(t) in ('is_mapping', 'isinstance') and full(t[2][0]) == A0]
            isseq = [b for t, b in fs if callname(t) in ('is_sequence',) and full(t[2][0]) == A0]
            ctx.ob(bool(ismap), g.qual, g.where, 'a mapping is not told from a sequence')
            deep = [b for t, b in fs if t in (('name', 'recursive'), ('arg', 3)) or t[0] == 'free']
            looped = any(t[0] == 'looped' and b for t, b in fs)
            if verdict is not None:
                ctx.ob(bool(pops) == (not verdict), g.qual, g.where, 'a key is %s' % ('removed which is to be kept' if pops else 'kept which is to be removed'))
                ctx.ob(True in ismap, g.qual, g.where, 'the keys of what may not be a mapping are looked at')
                gone.add(bool(pops))
                if verdict and deep:
                    ctx.ob(bool(recs) == deep[-1], g.qual, g.where, 'what is held is %s' % ('filtered although it is not asked' if recs else 'not filtered although it is asked'))
                    gone.add(('deep', deep[-1]))
            elif looped and True in ismap:
                ctx.ob(False, g.qual, g.where, 'the keys of a mapping are not looked at')
            if looped and True not in ismap and isseq:
                ctx.ob(isseq[-1] is True and len(recs) == 1, g.qual, g.where, 'the items of a sequence are not filtered')
                gone.add('sequence')
            for c in recs:
                keep_ = full(c[2][2]) if len(c[2]) >= 3 else full(kw(c, 'keep') or const(True))
                ctx.ob(len(c[2]) >= 2 and full(c[2][1]) == A1 and keep_ == A2, g.qual, g.where, 'other keys are kept below: %s' % show(c)[:80])
                x = full(c[2][0])
                ctx.ob(x[0] in ('sub', 'item', 'val') and any(full(y) == A0 for y in subterms(x)), g.qual, g.where, 'what is filtered below is %s' % show(x)[:60])
        for w, what in ((True, 'keys are removed'), (False, 'keys are kept'), (('deep', True), 'what is held is filtered when asked'), ('sequence', 'the items of a sequence are filtered')):
            ctx.ob(w in gone, g.qual, g.where, 'no path: %s' % what)
        keeps = set()
        for p in ctx.paths(f, inline=()):
            fs = [(full(t), b) for t, b in allfacts(p)]
            asked = [a for a in (A1, A2) if truth(fs, a)]
            if len(asked) != 1 or truth(fs, A2 if asked[0] == A1 else A1) is None:
                continue
            ins = []
            for t, b in fs:
                c = next((x for x in t[2:] if x in (TRUE, FALSE)), None) if t[0] == 'cmp' and t[1] in ('eq', 'is') else None
                if c is not None:
                    t, b = next(full(x) for x in t[2:] if x != c), (c == TRUE) == b
                if t[0] == 'cmp' and t[1] == 'in' and any(full(y)[0] == 'item' for y in subterms(full(t[2]))):
                    ins.append((t, b))
            seen = [(any(full(y) == asked[0] for y in subterms(full(t[3]))), b) for t, b in ins]
            pops = [e for e in p.events if e.kind == 'del' or e.kind == 'mutate' and callname(full(e.value)) == 'pop']
            if seen:
                ctx.ob(all(x for x, b in seen), f.qual, f.where, 'keys to keep or to exclude are not those looked at')
                if len(seen) == 1:
                    ctx.ob(bool(pops) == (seen[0][1] is (asked[0] == A2)), f.qual, f.where, 'keys to keep and keys to exclude are mixed')
                    keeps.add((asked[0], seen[0][1]))
        ctx.ob(len(keeps) == 4, f.qual, f.where, 'keys to keep, or keys to exclude, are not looked at')


def helpers(ctx, f):
    """The nodes of the functions of its module which the function names."""
    names, done = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}, []
    for g in functions(ctx.repo):
        if g.cls is None and g.name in names and g.key.split(':')[0] == f.key.split(':')[0] and g.key != f.key:
            done.append(g.node)
    return done


def default_of(f, name):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    if name not in names + [x.arg for x in a.kwonlyargs]:
        return None
    try:
        return ('value', ast.literal_eval(d[name])) if name in d else ('none', None)
    except ValueError:
        return None


@rule('P24', 'defaults', 'what is not asked is the usual: names are separated by dots, one occurrence is replaced, what is held is gone through but not filtered, parts of texts are stripped, brackets are round')
def p24_defaults(ctx):
    for key, name, want in ((U + 'nested_dict_iter', 'separator', '.'), (S + 'rreplace', 'occurrence', 1), (U + 'apply_through_collection', 'recursive', True), (U + 'apply_through_collection', 'level', 0),
                            (U + 'filter_collection', 'recursive', False), (U + 'filter_collection', 'only', ()), (U + 'filter_collection', 'but', ()), (S + 'split_string', 'delimiters', ' '),
                            (S + 'split_string', 'strip', True), (S + 'get_unicode', 'encoding', 'utf-8'), (U + 'Bracket.find_brackets', 'bracket', '('), (U + 'Bracket.find_closing_bracket', 'bracket', '('),
                            (U + 'Bracket.find_nested_brackets', 'bracket', '('), (U + 'to_list', 'default', None), (U + 'threadsafe_counter', 'init_value', 1)):
        f = fn(ctx, key)
        d = default_of(f, name)
        if d is not None:
            same = d[0] == 'value' and (d[1] == want and type(d[1]) is type(want) or not want and not d[1] and want != 0)
            ctx.ob(same, f.qual, f.where, 'without %s, %r stands for it' % (name, d[1]))


def within_finally(f):
    """Every yield of the function is in a try which ends in all cases."""
    out = []

    def visit(n, covered):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                out.append(covered)
            cov = covered
            if isinstance(c, ast.Try) and c.finalbody:
                for s in c.body:
                    visit(ast.Module([s], []), True)
                for s in c.handlers + c.orelse + c.finalbody:
                    visit(ast.Module([s], []), covered)
                continue
            visit(c, cov)
    visit(ast.Module(f.node.body, []), False)
    return out


@rule('P24', 'restored', 'the class of an instance seen as one of its parents, and the working directory, are what they were once left, whatever happens inside; an instance is only seen as one of its parents')
def p24_restored(ctx):
    f = fn(ctx, U + 'casted_as')
    CLS = ('attr', A0, '__class__')
    for p in ctx.paths(f):
        ev = [e for e in p.events if e.kind in ('store', 'yield')]
        if p.outcome[0] == 'raise':
            ctx.ob(not ev, f.qual, f.where, 'an instance which is refused is changed')
            ctx.ob(any(full(t)[0] == 'cmp' and full(t)[1] == 'in' and full(full(t)[2]) == A1 and not b for t, b in allfacts(p)), f.qual, f.where, 'a parent is refused')
            continue
        ok = [e.kind for e in ev] == ['store', 'yield', 'store'] and all(full(e.term) == CLS for e in ev if e.kind == 'store')
        ctx.ob(ok, f.qual, f.where, 'the class of the instance is not changed then restored')
        if ok:
            ctx.ob(full(ev[0].value) == A1 and full(ev[1].term) == A0, f.qual, f.where, 'the instance is not seen as the class asked')
            v = strip(ev[2].value)
            ctx.ob(full(v) == CLS and v[0] == 'old' or full(v) == ('call', ('name', 'type'), (A0,), ()), f.qual, f.where, 'the class which is restored is %s' % show(v)[:60])
            chk = [b for e in p.events for t, b in e.facts if full(t)[0] == 'cmp' and full(t)[1] == 'in' and full(full(t)[2]) == A1]
            ctx.ob(True in chk or any(True for q in ctx.paths(f) if q.outcome[0] == 'raise'), f.qual, f.where, 'an instance is seen as what may not be its parent')
    ctx.ob(any(q.outcome[0] == 'raise' for q in ctx.paths(f)), f.qual, f.where, 'an instance is seen as what may not be its parent')
    ys = within_finally(f)
    ctx.ob(bool(ys) and all(ys), f.qual, f.where, 'the class of the instance is not restored when what is done fails')
    f = fn(ctx, U + 'working_directory')
    for p in ctx.paths(f):
        ev = [(e.kind, full(e.term)) for e in p.events if e.kind == 'yield' or e.kind == 'call' and callname(full(e.term)) in ('chdir', 'cwd', 'getcwd')]
        names = [k if k == 'yield' else 'cwd' if callname(t) in ('cwd', 'getcwd') else 'chdir' for k, t in ev]
        ctx.ob(names == ['cwd', 'chdir', 'yield', 'chdir'], f.qual, f.where, 'the working directory is not changed then restored: %s' % ', '.join(names))
        if names == ['cwd', 'chdir', 'yield', 'chdir']:
            ctx.ob(full(ev[1][1][2][0]) == A0, f.qual, f.where, 'another directory is gone to')
            ctx.ob(callname(full(ev[3][1][2][0])) in ('cwd', 'getcwd'), f.qual, f.where, 'another directory is come back to')
    ys = within_finally(f)
    ctx.ob(bool(ys) and all(ys), f.qual, f.where, 'the working directory is not restored when what is done fails')
    f = fn(ctx, U + 'class_casted_as')
    PARENT = lambda t: full(t)[0] == 'cmp' and full(t)[1] == 'in' and full(full(t)[2]) == A1 and full(full(t)[3]) == ('attr', A0, '__mro__') or callname(full(t)) == 'issubclass'
    behave(ctx, f, {'parent': PARENT}, lambda e: {'raises': False, 'ret': lambda t, p: callname(full(t)) == 'type' and len(full(t)[2]) == 3 and full(full(t)[2][1]) == ('tuple', (A1,))
                                                  and full(full(t)[2][0]) == ('attr', A0, '__name__')} if e['parent'] else {'raises': 'AttributeError'}, 'a class seen as its parent')
    for p in ctx.paths(f):
        if not p.normal or len(full(p.returns)[2]) < 3:
            continue
        d = full(full(p.returns)[2][2])
        mros = lambda x, a: x[0] == 'comp' and len(x[3]) == 1 and full(x[3][0]) == ('attr', a, '__mro__') and full(x[2][0]) == ('attr', ('item', ('attr', a, '__mro__')), '__dict__')
        own = [x for x in subterms(d) if mros(x, A0)]
        ctx.ob(bool(own), f.qual, f.where, 'what the class has is lost')
        for x in own:
            c = x[4][0] if len(x[4]) == 1 else None
            ok = c and full(c[0])[0] == 'cmp' and full(c[0])[1] == 'in' and full(full(c[0])[2]) == ('item', ('attr', A0, '__mro__')) and full(full(c[0])[3]) == ('attr', A1, '__mro__') and c[1] is False
            ctx.ob(bool(ok), f.qual, f.where, 'what the class has of its own is not told from what its parent has')
        ups = [full(e.value) for e in p.events if e.kind == 'mutate' and callname(full(e.value)) == 'update']
        pub = [x for u in ups for x in subterms(u) if x[0] == 'comp' and x[1] == 'dict']
        ctx.ob(any(any(mros(y, A1) and not y[4] for y in subterms(x)) for x in pub), f.qual, f.where, 'what the parent has in public is not that of the class')
        for x in pub:
            c = x[4][0] if len(x[4]) == 1 else None
            ctx.ob(bool(c) and callname(full(c[0])) == 'startswith' and full(c[0])[2] == (const('_'),) and c[1] is False, f.qual, f.where, 'what the parent has in private replaces that of the class')


@rule('P24', 'texts', 'each of the texts to replace becomes what it is to be replaced by, and nothing else changes; a text is split at every delimiter; the last occurrences only are replaced from the right; '
      'a short text stays as it is, a long one is cut where asked; a message is the same each time it is written and does not change what it is made of')
def p24_texts(ctx):
    f = fn(ctx, S + 'multiple_replace')
    for p in ctx.paths(f):
        t = full(p.returns) if p.normal else None
        some = truth([(full(x), b) for x, b in allfacts(p)], A1)
        if some is False:
            ctx.ob(t == A0, f.qual, f.where, 'a text is changed although nothing is to be replaced')
        elif t is not None:
            ctx.ob(t[0] == 'call' and any(full(x) == A0 for x in t[2]) and any(full(x) == A1 for x in subterms(t)) or callname(t) == 'sub', f.qual, f.where, 'a text becomes %s' % show(t)[:80])
            ctx.ob(some is True, f.qual, f.where, 'nothing to replace is not told from something')
    f = fn(ctx, S + '_multiple_replacer')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            c = full(e.term) if e.kind == 'call' else None
            if callname(c) == 'compile':
                n += 1
                x = full(c[2][0])
                ok = callname(x) == 'join' and full(x[1][1]) == const('|') and full(x[2][0])[0] == 'comp' and callname(full(full(x[2][0])[2][0])) == 'escape' and not full(x[2][0])[4]
                ctx.ob(ok, f.qual, e.where, 'what is looked for is %s' % show(x)[:80])
    ctx.need(1, n, 'patterns of the texts to replace')
    lam = [x for x in ast.walk(f.node) if isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f.node] + helpers(ctx, f)
    subs = [x for n2 in lam for x in ast.walk(n2) if isinstance(x, ast.Subscript) or isinstance(x, ast.Call) and getattr(x.func, 'attr', '') == 'get']
    ctx.ob(any(isinstance(y, ast.Call) and getattr(y.func, 'attr', '') == 'group' and (not y.args or getattr(y.args[0], 'value', 1) == 0) for x in subs for y in ast.walk(x)), f.qual, f.where,
           'a text is not replaced by what stands for the whole of it')
    ctx.ob(any(isinstance(y, ast.Call) and getattr(y.func, 'attr', '') == 'sub' for n2 in lam for y in ast.walk(n2)), f.qual, f.where, 'nothing is replaced')
    f = fn(ctx, S + 'split_string')
    n = set()
    for p in ctx.paths(f):
        if not p.normal:
            continue
        t = full(p.returns)
        some = truth([(full(x), b) for x, b in allfacts(p)], A1)
        if some is False:
            ctx.ob(t == ('list', (A0,)), f.qual, f.where, 'a text without delimiter becomes %s' % show(t)[:80])
            n.add('none')
            continue
        for x in flat_alts(p.returns):
            x = full(x)
            ok = x[0] == 'comp' and len(x[3]) == 1 and not x[4] and callname(full(x[3][0])) == 'split' and any(full(y) == A0 for y in full(x[3][0])[2])
            el = full(x[2][0]) if ok else None
            ctx.ob(ok and (el == ('item', full(x[3][0])) or el == ('call', ('attr', ('item', full(x[3][0])), 'strip'), (), ()) or el[0] == 'alts' and all(
                full(y) == ('item', full(x[3][0])) or callname(full(y)) == 'strip' for y in el[1:] if isinstance(y, tuple))), f.qual, f.where, 'a text is split into %s' % show(x)[:100])
            if ok:
                r = full(full(x[3][0])[2][0])
                ctx.ob(any(full(y) == A1 for y in subterms(r)) and any(callname(y) == 'join' and full(y[1][1]) == const('|') for y in subterms(r)) or callname(r) == 'escape', f.qual, f.where,
                       'a text is split at %s' % show(r)[:80])
                n.add('split')
    ctx.ob(n == {'none', 'split'}, f.qual, f.where, 'texts are not split')
    # the characters which mean something else in a pattern stand for themselves
    bodies = [f.node] + helpers(ctx, f)
    if not any(isinstance(x, ast.Attribute) and x.attr == 'escape' for b in bodies for x in ast.walk(b)):
        given = {t.id: s.value.value for b in bodies + [f.module.tree] for s in ast.walk(b) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) for t in s.targets
                 if isinstance(t, ast.Name) and isinstance(s.value.value, str)}
        sets = [x.comparators[0] for b in bodies for x in ast.walk(b) if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn))]
        sets = [x.value if isinstance(x, ast.Constant) else given.get(x.id) if isinstance(x, ast.Name) else None for x in sets]
        for s in sets:
            if isinstance(s, str):
                miss = [c for c in '.^$*+?[\\|()' if c not in s]
                ctx.ob(not miss, f.qual, f.where, 'the delimiters %s are taken as patterns' % ' '.join(miss))
        ctx.ob(any(isinstance(s, str) for s in sets), f.qual, f.where, 'delimiters are taken as patterns')
    behave(ctx, fn(ctx, S + 'rreplace'), {}, lambda e: {'ret': 'A2.join(A0.rsplit(A1, A3))', 'raises': False}, 'replacing from the right')
    behave(ctx, fn(ctx, S + 'inline'), {}, lambda e: {'ret': [lambda t, p: callname(full(t)) == 'join' and full(full(t)[1][1]) == const('\\n') and callname(full(full(t)[2][0])) == 'split' and
                                                             full(full(full(t)[2][0])[2][0]) == const('\n') and full(full(full(t)[2][0])[1][1]) == A0,
                                                             lambda t, p: callname(full(t)) == 'replace' and full(t)[2] == (const('\n'), const('\\n'))]}, 'a text on a line')
    behave(ctx, fn(ctx, S + 'shorten'), {'long': 'A1 < len(A2(A0))'}, lambda e: {
        'ret': lambda t, p: full(t)[0] in ('bin', 'fstr') and any(x == ('sub', ('call', A2, (A0,), ()), ('slice', const(None), A1, const(None))) for x in subterms(full(t)))} if e['long'] else
        {'ret': 'A2(A0)'}, 'a shortened text')
    f = fn(ctx, S + 'lazy_format.__str__')
    ARGS_, KWS = ('attr', A0, 'args'), ('attr', A0, 'kwargs')
    n = set()
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind in ('store', 'mutate', 'del'):
                x = full(e.term)
                base = full(x[1]) if x[0] == 'sub' else x
                ctx.ob(base not in (ARGS_, KWS) and not (base[0] == 'attr' and full(base[1]) == A0), f.qual, e.where, 'a message changes what it is made of: %s' % show(x)[:60])
                if e.kind == 'store' and x[0] == 'sub':
                    v = full(e.value)
                    ctx.ob(callname(v) in ('log_format', 'pformat') and full(v[2][0])[0] == 'sub' and full(full(v[2][0])[2]) == full(x[2]), f.qual, e.where, 'what is written is %s' % show(v)[:80])
                    n.add('kwargs' if any(full(y) == KWS for y in subterms(x)) else 'args')
        if p.normal:
            t = full(p.returns)
            ok = callname(t) == 'format' and full(t[1][1]) == ('attr', A0, 'fmt') and any(full(y) == ARGS_ for y in subterms(t)) and any(full(y) == KWS for y in subterms(t))
            ctx.ob(ok, f.qual, f.where, 'a message is written as %s' % show(t)[:80])
    ctx.ob(n == {'args', 'kwargs'}, f.qual, f.where, 'what is to be formatted is not, among arguments and keywords')


@rule('P24', 'brackets', 'the brackets of a text are found with what they hold: each closing one goes with the last one which is open; a bracket is in another when both its ends are; those which are '
      'found inside another are given under it, in their order')
def p24_brackets(ctx):
    f = fn(ctx, U + 'Bracket.get_brackets')
    kinds_ = set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        if p.normal:
            t = full(p.returns)
            ctx.ob(any(x[0] == 'cmp' and x[1] == 'in' and full(x[2]) == A0 and full(x[3]) == t and b for x, b in fs), f.qual, f.where, 'brackets of another kind are given: %s' % show(t))
            kinds_.add(show(t))
        elif p.outcome[0] == 'raise':
            kinds_.add('refused')
            ctx.ob(exc_name(p.outcome[1]) == 'InvalidValue' and not any(x[0] == 'cmp' and x[1] == 'in' and b for x, b in fs), f.qual, f.where, 'a bracket is refused with %s' % exc_name(p.outcome[1]))
    ctx.ob(kinds_ == {"'()'", "'[]'", "'{}'", "'<>'", 'refused'}, f.qual, f.where, 'the kinds of brackets are %s' % ', '.join(sorted(kinds_)))
    f2 = fn(ctx, U + 'Bracket.is_in')
    P = "A%d._pos[%d]"
    lt = lambda a, b: '%s < %s' % (a, b)
    bool_table(ctx, ctx.paths(f2), {'left': lt(P % (1, 0), P % (0, 0)), 'right': lt(P % (0, 1), P % (1, 1))}, lambda e: e['left'] and e['right'], f2.qual, 'a bracket in another')
    behave(ctx, fn(ctx, U + 'Bracket.content'), {}, lambda e: {'ret': lambda t, p: full(t)[0] == 'sub' and full(full(t)[1]) == ('attr', A0, '_context') and full(full(t)[2])[0] == 'slice' and
                                                              full(full(full(t)[2])[1]) == ('bin', 'Add', ('sub', ('attr', A0, '_pos'), const(0)), const(1)) and
                                                              full(full(full(t)[2])[2]) == ('sub', ('attr', A0, '_pos'), const(1))}, 'the content of a bracket')
    GB = ('call', ('attr', ('name', 'Bracket'), 'get_brackets'), (A1,), ())
    which = lambda t, i: full(t)[0] == 'cmp' and full(t)[1] == 'eq' and {full(x) for x in full(t)[2:]} >= {('sub', GB, const(i))}
    for name in ('find_brackets', 'find_closing_bracket'):
        f = fn(ctx, U + 'Bracket.' + name)
        n = set()
        for p in ctx.paths(f):
            fs = allfacts(p)
            o, c = [b for t, b in fs if which(t, 0)], [b for t, b in fs if which(t, 1)]
            pushes = [e for e in p.events if e.kind == 'mutate' and callname(full(e.value)) == 'append' and full(full(e.value)[2][0])[0] == 'index']
            pops = [e for e in p.events if e.kind == 'mutate' and callname(full(e.value)) == 'pop']
            found = [e for e in p.events if e.kind == 'mutate' and callname(full(e.value)) == 'append' and e not in pushes]
            n |= {('open', o[-1])} if o else set()
            n |= {('close', c[-1])} if c else set()
            ctx.ob(all(x.term == y.term for x in pushes for y in pops), f.qual, f.where, 'the brackets which are closed are not those open')
            if o:
                ctx.ob(bool(pushes) == o[-1], f.qual, f.where, 'an opening bracket is not kept, or something else is')
            if c:
                ctx.ob(bool(pops) == c[-1], f.qual, f.where, 'a closing bracket does not close the last one open')
            for e in pops:
                ctx.ob(not full(e.value)[2] or full(e.value)[2] == (const(-1),), f.qual, e.where, 'a closing bracket closes another one than the last')
            if name == 'find_brackets' and c:
                ctx.ob(len(found) == bool(c[-1]), f.qual, f.where, 'a bracket is lost')
                for e in found:
                    b = full(full(e.value)[2][0])
                    pos = full(kw(b, 'pos') or (b[2][1] if len(b[2]) > 1 else const(None))) if b[0] == 'call' else None
                    c_ = full(kw(b, 'context') or (b[2][0] if b[0] == 'call' and b[2] else const(None))) if b[0] == 'call' else None
                    k_ = full(kw(b, 'bracket') or (b[2][2] if len(b[2]) > 2 else const('('))) if b[0] == 'call' else None
                    ctx.ob(c_ == A0 and k_ in (A1, ('sub', GB, const(0))), f.qual, e.where, 'a bracket is found in another text, or of another kind')
                    ctx.ob(p.normal and p.returns == e.term and all(e.term != x.term for x in pops), f.qual, e.where, 'the brackets found are not those given')
                    ok = pos and pos[0] == 'tuple' and len(pos[1]) == 2 and callname(full(pos[1][0])) == 'pop' and full(pos[1][1])[0] == 'index'
                    ctx.ob(bool(ok), f.qual, e.where, 'the place of a bracket is %s' % (pos and show(pos)[:60]))
                    n.add('found')
            if name != 'find_brackets' and p.normal and p.returns != const(None) and full(p.returns)[0] == 'tuple':
                t = full(p.returns)
                ok = len(t[1]) == 2 and full(t[1][0])[0] == 'tuple' and len(full(t[1][0])[1]) == 2 and full(t[1][1])[0] == 'sub' and full(full(t[1][1])[1]) == A0
                ctx.ob(ok and True in c, f.qual, f.where, 'what is found is %s' % show(t)[:80])
                if ok:
                    a, z = map(full, full(t[1][0])[1])
                    sl = full(full(t[1][1])[2])
                    ctx.ob(full(sl[1]) == ('bin', 'Add', a, const(1)) and full(sl[2]) == z, f.qual, f.where, 'what is in the brackets is %s' % show(t[1][1])[:80])
                    open_ = [b for x, b in fs if x[0] == 'new' or full(x) == ('list', ())]
                    ctx.ob(False in open_, f.qual, f.where, 'the bracket which is closed may not be the first one')
                n.add('found')
        ctx.ob({'found', ('open', True), ('open', False), ('close', True), ('close', False)} <= n, f.qual, f.where, 'brackets are not found')
    f = fn(ctx, U + 'Bracket.find_nested_brackets')
    inner = [g for g in ctx.repo.all_functions(nested=True) if g.key.startswith('ngoschema.' + U + 'Bracket.find_nested_brackets.<locals>')]
    texts = [ast.dump(x) for g in [f] for x in ast.walk(g.node) if isinstance(x, ast.Call) and getattr(x.func, 'attr', '') == 'find_brackets']
    ctx.ob(bool(texts), f.qual, f.where, 'brackets are not looked for')
    # what a function called for each level gives is used, unless it changes the level in place
    names = {x.name for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef)}
    returning = {x.name for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and any(isinstance(y, ast.Return) and y.value is not None for y in own_nodes(x))}
    for x in ast.walk(f.node):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in returning:
            ctx.ob(False, f.qual, f.where, 'what %s gives is lost: the brackets inside others are not in order' % x.value.func.id)
    ctx.ob(True, f.qual, f.where, 'levels of brackets')


def own_nodes(fnode):
    todo = list(fnode.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


@rule('P24', 'order', 'what depends on others comes after them, each once, a dependency on itself being ignored and a cycle refused; pages hold every item once, in order, and are not empty; '
      'the greatest common class is the first one all have')
def p24_order(ctx):
    f = fn(ctx, U + 'topological_sort')
    n = set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        ys = [full(e.term) for e in p.events if e.kind == 'yield']
        if truth(fs, A0) is False:
            ctx.ob(p.normal and not ys, f.qual, f.where, 'nothing is sorted into something')
            continue
        for y in ys:
            c = next((x for x in subterms(y) if x[0] == 'comp' and x[1] != 'dict' or x[0] == 'comp'), None)
            ok = c is not None and len(c[3]) == 1 and len(c[4]) == 1 and full(c[2][0]) == ('item', full(c[3][0]))
            ctx.ob(bool(ok), f.qual, f.where, 'what comes first is %s' % show(y)[:100])
            if ok:
                cond = full(c[4][0][0]) if isinstance(c[4][0], tuple) and len(c[4][0]) == 2 and isinstance(c[4][0][1], bool) else None
                ctx.ob(cond is not None and cond in (('sub', full(c[3][0]), ('item', full(c[3][0]))), ('val', full(c[3][0]))) and c[4][0][1] is False, f.qual, f.where,
                       'what comes first may depend on what is left')
            n.add('yield')
        first = [x for t, b in fs for x in subterms(t) if x[0] == 'comp' and x[1] == 'dict' and A0 in [full(z) for z in x[3]]]
        for x in first[:1]:
            v = full(x[2][1]) if len(x[2]) > 1 else None
            ok = v is not None and (v[0] == 'bin' and v[1] == 'Sub' and ('set', (('item', A0),)) == full(v[3]) or callname(v) in ('difference', 'set') and ('item', A0) in [full(z) for z in subterms(v)])
            ctx.ob(bool(ok), f.qual, f.where, 'a dependency on itself is %s' % (v and show(v)[:80]))
            n.add('self')
        for e in p.events:
            if e.kind == 'yield':
                ctx.ob(any(full(t) == full(e.term) and b for t, b in e.facts) or any(full(t) == full(e.term) and b for t, b in allfacts(p)), f.qual, e.where, 'nothing may be given as what comes next')
            c = full(e.value) if e.kind == 'mutate' and isinstance(e.value, tuple) else None
            if callname(c) == 'update' and c[2]:
                x = full(c[2][0])
                ok = x[0] == 'comp' and x[1] == 'dict' and len(x[2]) == 2 and full(x[2][1]) in (('call', ('name', 'set'), (), ()), ('set', ())) and not x[4]
                ctx.ob(ok, f.qual, e.where, 'what is only depended on is %s' % show(x)[:80])
                if ok:
                    it = full(x[3][0])
                    minus = it[0] == 'bin' and it[1] == 'Sub' or callname(it) == 'difference'
                    union = [y for y in subterms(it) if callname(y) == 'values'] and any(y[0] == 'attr' and y[2] in ('union', 'update', 'or_') for y in subterms(it))
                    keyed = any(callname(y) == 'keys' or callname(y) == 'set' for y in subterms(it))
                    ctx.ob(minus and bool(union) and keyed, f.qual, e.where, 'what is only depended on is looked for in %s' % show(it)[:80])
                n.add('extra')
        rest = [x for e in p.events for x in subterms(full(e.term)) if x[0] == 'comp' and x[1] == 'dict' and x[4] and A0 not in [full(z) for z in x[3]]] + \
            [x for t, b in fs for x in subterms(t) if x[0] == 'comp' and x[1] == 'dict' and x[4]]
        for x in rest:
            cd = x[4][0]
            if isinstance(cd, tuple) and len(cd) == 2 and isinstance(cd[1], bool):
                t = full(cd[0])
                if t[0] == 'cmp' and t[1] == 'in':
                    ctx.ob(cd[1] is False and full(t[2]) == ('item', full(x[3][0])), f.qual, f.where, 'what has come is kept and what has not is lost')
                    v = full(x[2][1]) if len(x[2]) > 1 else None
                    ctx.ob(v is not None and (v[0] == 'bin' and v[1] == 'Sub' or callname(v) == 'difference'), f.qual, f.where, 'what has come is still depended on: %s' % (v and show(v)[:60]))
                    n.add('rest')
        left = [b for t, b in fs if t[0] == 'comp' and t[1] == 'dict']
        if p.outcome[0] == 'raise':
            ctx.ob(True in left, f.qual, f.where, 'what has no cycle is refused')
            n.add('cycle')
        elif p.normal and left:
            ctx.ob(left[-1] is False, f.qual, f.where, 'a cycle is not refused')
    for w, what in (('yield', 'what depends on nothing comes first'), ('self', 'a dependency on itself is ignored'), ('extra', 'what is only depended on comes too'), ('rest', 'what is left comes next'),
                    ('cycle', 'a cycle is refused')):
        ctx.ob(w in n, f.qual, f.where, 'not done: %s' % what)
    f = fn(ctx, U + 'grouper')
    n = set()
    for p in ctx.paths(f):
        fs = allfacts(p)
        ev = [e for e in p.events if e.kind == 'yield' or e.kind == 'mutate' and callname(full(e.value)) == 'append']
        ys = [e for e in ev if e.kind == 'yield']
        whole = [b for t, b in fs if full(t)[0] == 'cmp' and full(t)[1] in ('eq', 'lt') and any(callname(full(x)) == 'len' for x in full(t)[2:]) and any(full(x) == A0 for x in full(t)[2:])]
        if any(full(t) == ('empty', A1) and b for t, b in fs):
            ctx.ob(not ys, f.qual, f.where, 'a page is given of nothing')
            n.add('empty')
            continue
        if not [e for e in ev if e.kind == 'mutate']:
            continue
        ctx.ob(all(full(full(e.value)[2][0]) == ('item', A1) for e in ev if e.kind == 'mutate'), f.qual, f.where, 'something else than an item is put in a page')
        ctx.ob(len(ys) >= 1, f.qual, f.where, 'a page is lost')
        ctx.ob(len(ys) <= 1, f.qual, f.where, 'a page may be given which is empty, or given twice')
        ctx.ob(bool(whole), f.qual, f.where, 'the size of pages is not looked at')
        if whole:
            for e in ys:
                over = [t for t, b in e.facts if t[0] == 'looped' and b]
                ctx.ob(bool(over) != whole[-1], f.qual, e.where, 'a page is given which is not whole, or the last one is not given')
        n.add(('whole', whole[-1] if whole else None))
    ctx.ob({'empty', ('whole', True), ('whole', False)} <= n, f.qual, f.where, 'whole and last pages are not both given')
    f = fn(ctx, U + 'gcs')
    found = 0
    for p in ctx.paths(f):
        if p.normal and full(p.returns) != const(None):
            t = full(p.returns)
            found += 1
            al = [(full(x), b) for x, b in allfacts(p) if callname(full(x)) in ('all', 'any')]
            of = [full(full(x[2][0])[2][0]) for x, b in al if full(x[2][0])[0] == 'comp']
            ctx.ob(all(y[0] == 'cmp' and y[1] == 'in' and full(y[2]) == t or callname(y) == 'issubclass' for y in of), f.qual, f.where, 'classes are not compared with those all have')
            ctx.ob(t[0] == 'item' and any(callname(x) == 'all' and b for x, b in al), f.qual, f.where, 'a class is given which all may not have: %s' % show(t)[:60])
    ctx.need(1, found, 'paths which give a common class')
