"""P21: a registry gives for a name what was registered last under it."""
import ast

from ..core import rule
from ..lib import *
from ..model import ClassInfo
from .p17_contexts import A0, A1, A2, ARGS, KW, fn, kw
from .p22_files import full

U = 'utils.utils:'
REG = ('attr', A0, '_registry')
PARENTS = ('attr', A0, '_parent_registries')
DICT = ('attr', A0, '_dict')


def plain(t, table):
    """t goes through all names of the table."""
    t = full(t)
    if t == table:
        return True
    return t[0] == 'call' and (callname(t) in ('iter', 'list', 'tuple', 'iterkeys', 'sorted') and len(t[2]) == 1 and plain(t[2][0], table) or
                               callname(t) in ('keys', '__iter__', 'iterkeys') and t[1][0] == 'attr' and plain(t[1][1], table))


def reads(t, table, key):
    """t is the value of the table under key; a default may be given to it."""
    t = full(t)
    if t[0] == 'sub':
        return full(t[1]) == table and full(t[2]) == key
    return callname(t) in ('get', '__getitem__') and t[1][0] == 'attr' and full(t[1][1]) == table and bool(t[2]) and full(t[2][0]) == key


def member(t, table, key):
    t = full(t)
    return t[0] == 'cmp' and t[1] == 'in' and full(t[2]) == key and plain(t[3], table) or \
        callname(t) in ('__contains__', 'has_key') and t[1][0] == 'attr' and full(t[1][1]) == table and full(t[2][0]) == key


def answers(ctx, key, good, message):
    f, n = fn(ctx, U + key), 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        n += 1
        ctx.ob(good(full(p.returns), p), f.qual, f.where, message + ': ' + show(full(p.returns))[:100])
        ctx.ob(not any(e.kind in ('store', 'del') and root(e.term) == A0 for e in p.events), f.qual, f.where, 'reading it changes it')
    ctx.need(1, n, 'paths of %s' % key)


@rule('P21', 'registered', 'what is registered in a registry is kept under its name, in it and in all its parents; what is unregistered is removed of all of them; '
      'each registry has a table of its own')
def registered(ctx):
    for name in ('register', 'unregister'):
        f, n = fn(ctx, U + 'Registry.' + name), 0
        for p in ctx.paths(f):
            if p.outcome[0] != 'return':
                continue
            own = [e for e in p.events if full(e.term) == ('sub', REG, A1) and e.kind == ('store' if name == 'register' else 'del')]
            own += [e for e in p.events if e.kind == 'call' and name == 'unregister' and callname(e.term) == 'pop' and full(full(e.term)[1][1]) == REG and full(full(e.term)[2][0]) == A1]
            ctx.ob(len(own) == 1 and (name != 'register' or full(own[0].value) == A2), f.qual, f.where, 'the name is not %sed in the registry' % name)
            up = [full(e.term) for e in p.events if e.kind == 'call' and callname(e.term) == name]
            for e in p.events:
                # the parents may also be written to directly
                t = full(e.term)
                if e.kind in ('store', 'del') and t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == '_registry' and t[1][1] != A0:
                    up.append(('call', ('attr', ('name', 'Registry'), name), (t[1][1], t[2]) + ((full(e.value),) if e.kind == 'store' else ()), ()))
            entered = [t for t, b in allfacts(p) if t[0] in ('looped', 'loop', 'empty') and full(t[1]) == PARENTS]
            ctx.ob(bool(entered) and not any(t[0] == 'loop' for t in entered if not any(x[0] == 'looped' for x in entered)), f.qual, f.where, 'the parents are not all told of it')
            for t in up:
                n += 1
                args = [full(a) for a in t[2]]
                ctx.ob(bool(args) and args[0][0] == 'item' and full(args[0][1]) == PARENTS and args[1:2] == [A1] and (name != 'register' or args[2:3] == [A2]), f.qual, f.where,
                       'the parents are not told of the same name%s' % (' and value' if name == 'register' else ''))
            ctx.ob(bool(up) or any(t[0] == 'empty' for t in entered), f.qual, f.where, 'the parents are not told of it')
        ctx.need(1, n, 'parents told')
    f = fn(ctx, U + 'Registry.__init__')
    for p in ctx.paths(f):
        st = {full(e.term): full(e.value) for e in p.events if e.kind == 'store'}
        ctx.ob(st.get(PARENTS) in (ARGS, ('call', ('name', 'list'), (ARGS,), ()), ('call', ('name', 'tuple'), (ARGS,), ())), f.qual, f.where, 'the parents are not those given')
        v = st.get(REG, (None,))
        ctx.ob(v[0] in ('new', 'dict') or v[0] == 'call' and callname(v) in ('OrderedDict', 'dict', 'odict'), f.qual, f.where, 'the table is not a new one')


@rule('P21', 'asked', 'a registry answers of its own table: the value under the name asked, whether there is one, all names, how many')
def asked(ctx):
    answers(ctx, 'Registry.__getitem__', lambda t, p: t[0] == 'sub' and reads(t, REG, A1), 'it is not what is registered under the name')
    answers(ctx, 'WeakRegistry.__getitem__', lambda t, p: t[0] == 'sub' and reads(t, REG, A1) or callname(t) == '__getitem__' and any(full(a) == A1 for a in t[2]),
            'it is not what is registered under the name')
    answers(ctx, 'Registry.__contains__', lambda t, p: member(t, REG, A1), 'it is not whether the name is registered')
    answers(ctx, 'Registry.__iter__', lambda t, p: plain(t, REG), 'it is not the names registered')
    answers(ctx, 'Registry.__len__', lambda t, p: callname(t) == 'len' and plain(t[2][0], REG), 'it is not the number of names registered')
    answers(ctx, 'GenericClassRegistry.get', lambda t, p: reads(t, REG, A1) and t[0] == 'call' and t[2][1:] == (A2,) or full(t) == A2 and any(
        member(x, REG, A1) and not b for x, b in allfacts(p)) or reads(t, REG, A1) and any(member(x, REG, A1) and b for x, b in allfacts(p)),
        'it is not what is registered under the name, else the default')
    answers(ctx, 'GenericClassRegistry.contains', lambda t, p: member(t, REG, A1) or t[0] == 'cmp' and full(t[2]) == A1 and full(t[3]) == A0, 'it is not whether the name is registered')


@rule('P21', 'classes', 'a class registered by a decorator is registered once under the name told, else its own, and is what the decorator gives back')
def classes(ctx):
    outer = fn(ctx, U + 'GenericClassRegistry.register')
    n = 0
    given = outer.node.args.args[1].arg if len(outer.node.args.args) > 1 else 'name'
    me = outer.node.args.args[0].arg
    inner = [f for f in ctx.repo.all_functions(nested=True) if f.outer is not None and f.outer.key == outer.key]
    ctx.need(1, len(inner), 'decorators of classes')
    for f in inner:
        for p in ctx.paths(f):
            if p.outcome[0] != 'return':
                continue
            n += 1
            ctx.ob(full(p.returns) == A0, f.qual, f.where, 'the class is replaced by %s' % show(full(p.returns))[:80])
            regs = [full(e.term) for e in p.events if e.kind == 'call' and callname(e.term) == 'register']
            ctx.ob(len(regs) == 1, f.qual, f.where, 'the class is registered %d times' % len(regs))
            told = next((not b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'is' and full(t[2]) == ('name', given)), None)
            truth = next((b for t, b in allfacts(p) if full(t) == ('name', given)), None)
            told = told if told is not None else truth
            for t in regs:
                args = [full(a) for a in t[2]]
                ctx.ob(len(args) == 3 and args[0] == ('name', me) and args[2] == A0, f.qual, f.where, 'what is registered is not the class, in the registry')
                if len(args) == 3:
                    want = ('name', given) if told else ('attr', A0, '__name__')
                    opts = [full(x) for x in flat_alts(args[1])]
                    ctx.ob(told is not None and opts == [want] or told is None and set(opts) == {('name', given), ('attr', A0, '__name__')}, f.qual, f.where,
                           'the class is not registered under the name told, else its own')
    ctx.need(1, n, 'classes registered')
    for p in ctx.paths(outer):
        if p.outcome[0] == 'return':
            ctx.ob(full(p.returns)[0] in ('closure', 'local', 'func', 'lambda', 'name', 'decorator') and not any(e.kind == 'store' for e in p.events), outer.qual, outer.where,
                   'something is registered before there is a class')


TB = 'managers.type_builder:TypeBuilder.'


@rule('P21', 'types', 'a type is registered under its name, which becomes that of its schema; asked by name it is the one registered, or an error; a value is of a type '
      'when this one says so, and the type detected of a value is one which says so')
def types(ctx):
    T = ('attr', A0, '_type_registry')
    outer = fn(ctx, TB + 'register_type')
    name, me = outer.node.args.args[1].arg, outer.node.args.args[0].arg
    inner = [f for f in ctx.repo.all_functions(nested=True) if f.outer is not None and f.outer.key == outer.key]
    ctx.need(1, len(inner), 'decorators of types')
    for f in inner:
        for p in ctx.paths(f):
            if p.outcome[0] != 'return':
                continue
            ctx.ob(full(p.returns) == A0, f.qual, f.where, 'the type is replaced')
            st = [(full(e.term), e.value) for e in p.events if e.kind == 'store']
            ctx.ob(any(t == ('sub', ('attr', ('name', me), '_type_registry'), ('name', name)) and full(v) == A0 for t, v in st), f.qual, f.where, 'the type is not registered under its name')
            ctx.ob(any(t == ('attr', A0, '_type') and full(v) == ('name', name) for t, v in st), f.qual, f.where, 'the type does not know its name')
            sch = [v for t, v in st if t == ('attr', A0, '_schema')]
            ctx.ob(len(sch) == 1 and any(x[0] == 'call' and callname(x) == 'dict' and kw(x, 'type') is not None and full(kw(x, 'type')) in (('attr', A0, '_type'), ('name', name)) and
                                         [full(a) for a in x[2]] == [('attr', A0, '_schema')] or x[0] == 'dict' for x in subterms(full(sch[0]))), f.qual, f.where,
                   'its schema is not its own, with the name as type')
    f = fn(ctx, TB + 'get_type')
    for p in ctx.paths(f):
        if p.outcome[0] == 'return':
            ctx.ob(full(p.returns)[0] == 'sub' and reads(p.returns, T, A1), f.qual, f.where, 'it is not the type registered under the name')
    f = fn(ctx, TB + 'is_type')
    n = 0
    for p in ctx.paths(f):
        n += 1
        known = next((b for t, b in allfacts(p) if reads(t, T, A2) or member(t, T, A2)), None)
        if known is None:
            known = next((not b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'is' and reads(t[2], T, A2)), None)
        if known is False:
            ctx.ob(p.outcome[0] == 'raise' and exc_name(strip(p.outcome[1])) == 'UndefinedTypeCheck', f.qual, f.where, 'a type which does not exist is not refused')
        elif p.outcome[0] == 'return':
            t = full(p.returns)
            ctx.ob(callname(t) == 'check' and reads(t[1][1], T, A2) and full(t[2][0]) == A1, f.qual, f.where, 'it is not the type of this name which is asked')
            ctx.ob(kw(t, 'convert') == FALSE, f.qual, f.where, 'a value which could be converted to the type is said to be of it')
    ctx.need(2, n, 'answers')
    f = fn(ctx, TB + 'detect_type')
    n = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return' or full(p.returns) == const(None):
            continue
        n += 1
        t = full(p.returns)
        ok = t[0] in ('tuple', 'new')
        parts = [full(x) for x in (t[1] if t[0] == 'tuple' else ())]
        ctx.ob(ok and len(parts) == 2 and parts[0][0] == 'item' and plain(parts[0][1], T) and reads(parts[1], T, parts[0]) and any(
            callname(x) == 'check' and full(x[1][1]) == parts[1] and full(x[2][0]) == A1 and b for x, b in allfacts(p)), f.qual, f.where,
            'the type which is detected is not one of which the value is, with its name')
    ctx.need(1, n, 'types detected')


@rule('P21', 'keys', 'a table whose keys are equal whatever their spelling gives, changes, removes and finds an item whatever the spelling: every operation, its '
      'construction included, puts the key in the same form, and keeps this form only')
def keys(ctx):
    K = U + '_KeyModifierMapping.'

    def modified(t, key):
        t = full(t)
        return t[0] == 'call' and callname(t) == 'key_modifier' and len(t[2]) == 1 and full(t[2][0]) == key and (
            full(t[1][1]) in (A0, ('attr', A0, '__class__')) or callname(full(t[1][1])) == 'type')
    for name, kind in (('__getitem__', 'read'), ('__setitem__', 'store'), ('__delitem__', 'del'), ('__contains__', 'in')):
        f, n = fn(ctx, K + name), 0
        for p in ctx.paths(f):
            if p.outcome[0] != 'return':
                continue
            n += 1
            r = full(p.returns)
            ev = [e for e in p.events if e.kind in ('store', 'del')]
            if kind == 'read':
                ok = r[0] == 'sub' and full(r[1]) == DICT and modified(r[2], A1) and not ev
            elif kind == 'in':
                ok = r[0] == 'cmp' and r[1] == 'in' and modified(r[2], A1) and plain(r[3], DICT) and not ev
            else:
                ok = len(ev) == 1 and ev[0].kind == kind and full(ev[0].term)[0] == 'sub' and full(ev[0].term)[1] == DICT and modified(full(ev[0].term)[2], A1) and (
                    kind == 'del' or full(ev[0].value) == A2)
            ctx.ob(ok, f.qual, f.where, 'it is not the item of the key in its common form')
        ctx.need(1, n, 'paths of %s' % name)
    f, n = fn(ctx, K + '__init__'), 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        st = [e for e in p.events if e.kind == 'store']
        ctx.ob(any(full(e.term) == DICT and full(e.value)[0] in ('new', 'dict') or full(e.term) == DICT and callname(full(e.value)) in ('dict', 'OrderedDict') for e in st), f.qual, f.where,
               'the table is not a new one')
        for e in st:
            t = full(e.term)
            if t[0] == 'sub' and full(t[1]) == DICT:
                n += 1
                k = full(t[2])
                item = full(k[2][0]) if callname(k) == 'key_modifier' else (None,)
                ctx.ob(item[0] == 'item' and modified(k, item) and full(e.value)[0] in ('sub', 'item') and (full(e.value)[0] == 'item' or full(full(e.value)[2]) == item), f.qual, f.where,
                       'an item given at the construction is not kept under the common form of its key')
            elif t == DICT and full(e.value)[0] == 'comp':
                n += 1
        src = [x for e in p.events for x in subterms(full(e.term)) if callname(x) in ('dict', 'OrderedDict') and x[0] == 'call' and any(a[0] == 'star' for a in x[2])]
        ctx.ob(any(k in (None, '**') and full(v) == KW for x in src for k, v in x[3]) and any(full(a[1]) == ARGS for x in src for a in x[2] if a[0] == 'star'), f.qual, f.where,
               'the items are not all those given')
    ctx.need(1, n, 'items given')
    answers(ctx, '_KeyModifierMapping.__iter__', lambda t, p: plain(t, DICT), 'it is not the keys of the table')
    answers(ctx, '_KeyModifierMapping.__len__', lambda t, p: callname(t) == 'len' and plain(t[2][0], DICT), 'it is not the number of items')
    base, n = ctx.repo.cls('_KeyModifierMapping'), 0
    for c in ctx.repo.subclasses(base.name):
        if c is base:
            continue
        n += 1
        own = [g for g in ('__getitem__', '__setitem__', '__delitem__', '__contains__', '__init__', 'get', 'pop', 'update', 'setdefault') if g in c.methods]
        ctx.ob(not own, c.name, c.where if hasattr(c, 'where') else '', 'it does some operation (%s) another way than its common form' % ', '.join(own))
        f = ctx.repo.method(c, 'key_modifier')
        for p in ctx.paths(f):
            if p.outcome[0] == 'return':
                ctx.ob(A1 in list(subterms(full(p.returns))) and any(callname(x) in ('lower', 'casefold', 'upper') for x in subterms(full(p.returns))), f.qual, f.where,
                       'the common form of a key is not that of the key whatever its case')
    ctx.need(2, n, 'tables')


@rule('P21', 'distinct', 'no two things of the library are registered under the same name in the same registry, and a registry which makes its own construction has a table of its own')
def distinct(ctx):
    seen, n = {}, 0
    for m in ctx.repo.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call) or not x.args or not isinstance(x.args[0], ast.Constant) or not isinstance(x.args[0].value, str):
                continue
            if isinstance(x.func, ast.Name) and x.func.id == 'register_type':
                where = 'types'
            elif isinstance(x.func, ast.Attribute) and x.func.attr == 'register' and isinstance(x.func.value, ast.Name) and x.func.value.id.endswith('_registry'):
                where = x.func.value.id
            else:
                continue
            n += 1
            k = (where, x.args[0].value)
            ctx.ob(k not in seen, '%s:%s' % k, '%s:%d' % (m.relpath, x.lineno), '%s is registered twice in %s (also at %s)' % (k[1], k[0], seen.get(k)))
            seen[k] = '%s:%d' % (m.relpath, x.lineno)
    ctx.need(60, n, 'names registered')
    base, n = ctx.repo.cls('utils:Registry'), 0
    for c in ctx.repo.subclasses(base.name):
        f = c.methods.get('__init__')
        if f is None or c is base:
            continue
        for p in ctx.paths(f):
            if p.outcome[0] != 'return':
                continue
            n += 1
            st = [(k, full(e.value)) for k, e in enumerate(p.events) if e.kind == 'store' and full(e.term) == REG]
            up = [(k, full(e.term)) for k, e in enumerate(p.events) if e.kind == 'call' and callname(e.term) == '__init__' and (
                'Registry' in show(full(e.term)) or 'super' in show(full(e.term)))]
            weak = 'Weak' in c.name
            ctx.ob(bool(up) or bool(st), f.qual, f.where, 'the registry has no table of its own')
            for k, t in up:
                if f.node.args.vararg:
                    ctx.ob(any(a[0] == 'star' and full(a[1]) == ARGS for a in t[2]), f.qual, f.where, 'the parents given are lost')
                ctx.ob(not any(j < k for j, v in st), f.qual, f.where, 'its table is replaced by that of any registry')
            if weak:
                ctx.ob(any(callname(v) == 'WeakValueDictionary' for k, v in st), f.qual, f.where, 'it keeps alive what is registered')
    ctx.need(2, n, 'constructions of registries')


L = 'loaders.module:'


@rule('P21', 'modules', 'a module which is registered has its schemas loaded and its folders known to all loaders: each existing folder once, found first for the names of this module')
def modules(ctx):
    f, n = fn(ctx, L + 'GenericModuleFileLoader.register'), 0
    sub = ('attr', A0, 'subfolderName')
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        facts = dict((full(t), b) for t, b in allfacts(p))
        folder = full(p.returns)
        here = [x for x in subterms(folder) if callname(x) in ('joinpath', 'join') or x[0] == 'bin']
        ctx.ob(any(callname(x) in ('import_module', '__import__') and full(x[2][0]) == A1 for x in subterms(folder)), f.qual, f.where, 'the folder is not one of the module')
        given = facts.get(A2)
        if given is None:
            given = next((not b for t, b in facts.items() if t[0] == 'cmp' and t[1] == 'is' and t[2] == A2 and t[3] == const(None)), None)
        want = A2 if given else sub
        names = {x for x in subterms(folder) if x in (A2, sub)}
        ctx.ob(bool(here) and (given is not None and names == {want} or given is None and names == {A2, sub}), f.qual, f.where, 'it is not the folder of the name given, else that of the loader')
        there = next((b for t, b in facts.items() if callname(t) in ('exists', 'is_dir')), None)
        ctx.need(1, 0 if there is None else 1, 'test that the folder exists')
        table = ('sub', REG, A1)
        put = [full(e.term) for e in p.events if e.kind == 'call' and callname(e.term) in ('append', 'add', 'insert') and full(full(e.term)[1][1])[0] in ('sub', 'call') and
               REG in list(subterms(full(full(e.term)[1][1])))]
        new = [e for e in p.events if e.kind == 'store' and full(e.term) == table]
        isin = next((b for t, b in facts.items() if t[0] == 'cmp' and t[1] == 'in' and t[2] == folder), None)
        n += 1
        if there:
            ctx.ob(isin is True and not put or isin is False and len(put) == 1 and full(put[0][2][-1]) == folder or any(folder in list(subterms(full(e.value))) for e in new), f.qual, f.where,
                   'the folder is not registered exactly once')
            known = next((b for t, b in facts.items() if t[0] == 'cmp' and t[1] == 'in' and t[2] == A1 and plain(t[3], REG)), None)
            ctx.ob(known is True or bool(new), f.qual, f.where, 'the folder is put in a list which is not there')
            ctx.ob(not new or known is False, f.qual, f.where, 'the folders which were known of the module are forgotten')
            upd = facts.get(('attr', A0, 'update_function'))
            ctx.ob(any(e.kind == 'call' and callname(e.term) == 'update_function' for e in p.events) or upd is False, f.qual, f.where, 'what depends on the folders is not told')
        else:
            ctx.ob(not put and not new, f.qual, f.where, 'a folder which does not exist is registered')
    ctx.need(6, n, 'registrations of folders')
    f, n = fn(ctx, L + 'GenericModuleFileLoader.__init__'), 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        n += 1
        st = {full(e.term): full(e.value) for e in p.events if e.kind == 'store'}
        ctx.ob(st.get(sub) == A1 and st.get(('attr', A0, 'update_function')) == A2, f.qual, f.where, 'the loader does not have the folder and the function given')
        ctx.ob(any(t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == 'module_loaders_registry' and t[2] == A1 and v == A0 for t, v in st.items()), f.qual, f.where,
               'the loader is not known of those which register modules')
    ctx.need(1, n, 'constructions')
    f, n = fn(ctx, L + 'GenericModuleFileLoader.find_one'), 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        n += 1
        t = full(p.returns)
        of = next((b for x, b in allfacts(p) if x[0] == 'cmp' and x[1] == 'in' and plain(x[3], REG)), None)
        name = [x for x in subterms(t) if callname(x) == 'replace' and full(x[1][1]) == A1 and x[2] == (const('\\'), const('/'))]
        ctx.ob(bool(name), f.qual, f.where, 'names written with another separator are not found')
        ctx.ob(callname(t) == 'pick_first' and len(t[2]) == 1, f.qual, f.where, 'it is not the first file found')
        if callname(t) != 'pick_first':
            continue
        where, what = t[1][1], full(t[2][0])
        cut = next((b for x, b in allfacts(p) if x[0] == 'cmp' and x[1] == 'in' and x[2] == const('/') and full(x[3]) in name), None)
        parted = any(callname(x) == 'partition' for x in subterms(t))
        ctx.ob(cut is (of is not None) or parted, f.qual, f.where, 'the module is taken from a name which has none, or is not taken from one which has one')
        if of:
            ctx.ob(any(x[0] == 'sub' and full(x[1]) == REG and is_part(full(x[2]), 0) for x in subterms(where)) and is_part(what, 1), f.qual, f.where,
                   'it is not looked for in the folders of the module named, without the name of this one')
        else:
            ctx.ob(any(callname(x) in ('values', 'itervalues', 'items') and full(x[1][1]) == REG for x in subterms(where)) and what in name, f.qual, f.where,
                   'it is not looked for in all folders, under the whole name')
    ctx.need(3, n, 'searches')
    f, n = fn(ctx, L + 'register_module'), 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        calls = [full(e.term) for e in p.events if e.kind == 'call']
        ctx.ob(any(callname(t) == 'load_module_schemas' and t[2] and full(t[2][0]) == A0 for t in calls), f.qual, f.where, 'the schemas of the module are not loaded')
        ctx.ob(any(t[0] in ('looped', 'empty') and 'module_loaders_registry' in show(t[1]) for t, b in allfacts(p)), f.qual, f.where, 'the loaders are not all told of the module')
        for t in calls:
            if callname(t) == 'register':
                n += 1
                ctx.ob(full(t[1][1])[0] in ('item', 'sub') and [full(a) for a in t[2]] == [A0], f.qual, f.where, 'a loader is not told of the module, with its own folder')
    ctx.need(1, n, 'loaders told')
    f, n = fn(ctx, L + 'load_module_schemas'), 0
    for p in ctx.paths(f):
        facts = allfacts(p)
        there = next((b for t, b in facts if callname(t) == 'exists'), None)
        none = next((b for t, b in facts if t[0] == 'cmp' and t[1] == 'is' and full(t[2]) == A1), None)
        if none is None:
            none = next((not b for t, b in facts if full(t) == A1), None)
        for e in p.events:
            if e.kind == 'call' and callname(e.term) == 'load_schema_file':
                n += 1
                t = full(e.term)
                store = [full(x) for x in flat_alts(t[2][1])] if len(t[2]) > 1 else [full(v) for k, v in t[3] if k == 'schemas_store']
                ctx.ob(there is not False and full(t[2][0])[0] == 'item', f.qual, f.where, 'the files loaded are not those of the folder')
                ctx.ob(bool(store) and all(x == A1 if none is False else callname(x) == 'get_doc_store' or none is None and x == A1 for x in store), f.qual, f.where,
                       'the schemas are not put in the store given, else in that of all schemas')
                folder = [x for x in subterms(full(t[2][0])) if callname(x) == 'register' and full(x[2][0]) == A0]
                ctx.ob(bool(folder), f.qual, f.where, 'the files loaded are not those of the module')
        if p.outcome[0] == 'return':
            ctx.ob(there is False or any(t[0] in ('looped', 'empty') for t, b in facts), f.qual, f.where, 'the files are not all loaded')
            r = [full(x) for x in flat_alts(p.returns)]
            ctx.ob(all(x == A1 or callname(x) == 'get_doc_store' for x in r), f.qual, f.where, 'it is not the store which is given back')
        else:
            ctx.ob(not any(e.kind == 'call' and callname(e.term) == 'load_schema_file' for e in p.events), f.qual, f.where, 'a file which cannot be loaded stops all others')
    ctx.need(1, n, 'schemas loaded')


def is_part(t, k):
    """t is the k-th part of a name which is split at its first separator."""
    if not (t[0] in ('sub', 'item') and (t[2] == const(k) if t[0] == 'sub' else True)):
        return False
    t = full(t[1])
    return callname(t) == 'split' and t[2] == (const('/'), const(1)) or callname(t) == 'partition' and t[2] == (const('/'),)
