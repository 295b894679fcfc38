"""P19: what decorates a function does what it says and nothing else."""
import ast

from ..core import rule
from ..lib import *
from .p17_contexts import A0, A1, A2, A3, KW, fn, kw

WRAPPED = {'wrapt.decorator', 'decorator'}
D = 'decorators:'


def nested(ctx, outer):
    """The function which stands for the one decorated by `outer` (decorated by wrapt inside it)."""
    fs = [f for f in ctx.repo.all_functions(nested=True) if f.module.name == 'ngoschema.decorators']
    for f in fs:
        o, up = f, []
        while o is not None:
            up.append(o.name.split('.')[0])
            o = o.outer
        if f.outer is not None and outer in up and WRAPPED & set(f.decorators):
            return f
    from ..model import AnalysisError
    raise AnalysisError('no wrapper in %s' % outer)


def is_args(t, p=None):
    """t stands for all positional arguments of the call."""
    t = unold(strip(t))
    if t == A2:
        return True
    if t[0] == 'new':
        t = unold(strip(t[-1]))
        return is_args(t)
    if callname(t) in ('list', 'tuple') and len(t[2]) == 1 and t[1][0] == 'name':
        return is_args(t[2][0])
    if t[0] in ('list', 'tuple') and len(t) == 2 and len(t[1]) == 1 and t[1][0][0] == 'star':
        return is_args(t[1][0][1])
    return False


def is_kwargs(t):
    t = unold(strip(t))
    if t[0] == 'new':
        t = unold(strip(t[-1]))
    return t == A3 or callname(t) in ('dict', 'copy') and (t[2] and is_kwargs(t[2][0]) or not t[2] and t[1][0] == 'attr' and is_kwargs(t[1][1])) or \
        t[0] == 'call' and callname(t) == 'dict' and not t[2] and len(t[3]) == 1 and t[3][0][0] in (None, '**') and is_kwargs(t[3][0][1])


def calls_of(p, f0=A0):
    return [e for e in p.events if e.kind == 'call' and strip(e.term)[0] == 'call' and strip(strip(e.term)[1]) == f0]


def through(t, f0=A0, args=is_args):
    """t is the call of the function decorated with the arguments of the call."""
    t = strip(t)
    return t[0] == 'call' and strip(t[1]) == f0 and len(t[2]) == 1 and t[2][0][0] == 'star' and args(t[2][0][1]) and \
        len(t[3]) == 1 and is_kwargs(t[3][0][1])


def transparent(ctx, f, p, what=''):
    """One call with the arguments given, whose result is returned."""
    cs = calls_of(p)
    ctx.ob(len(cs) == 1 and through(cs[0].term), f.qual, f.where, '%sthe function is not called once with what it was called with' % what)
    ctx.ob(bool(cs) and unold(strip(p.returns)) == strip(cs[0].term), f.qual, f.where, '%swhat the function returns is not returned' % what)


def no_change(ctx, f, p, allowed=()):
    for e in p.events:
        if e.kind in ('store', 'del') and root(e.term) in (A1, A2, A3) and strip(e.term) not in allowed:
            ctx.ob(False, f.qual, f.where, 'what the function is called with is changed: %s' % show(e.term)[:100])


def logs(e):
    t = strip(e.term)
    return t[0] == 'call' and callname(t) in LOGMETHODS


# ------------------------------------------------------------------ assert_arg
def valid_of(t):
    """What t is the validated form of."""
    t = unold(strip(t))
    if t[0] == 'call' and kw(t, 'validate') == TRUE and len(t[2]) == 1 and kw(t, 'check') in (None, TRUE):
        return strip(t[2][0])
    return None


@rule('P19', 'argument', 'a function guarded by `assert_arg` is only called with the validated form of that argument, given by name or by '
      'position (one less for a method); an invalid one is refused with a ValidationError and the function is not called; `assert_args=False` disables it')
def argument(ctx):
    f = nested(ctx, 'assert_arg')
    ps = ctx.paths(f)
    n = {'off': 0, 'name': 0, 'place': 0, 'default': 0, 'refused': 0}
    for p in ps:
        fs = allfacts(p)
        caught = [t for t, b in fs if t[0] == 'caught']
        names = {x for t in caught for x in t[1]}
        off = next((not b for t, b in fs if any(callname(x) in ('pop', 'get') and x[2] and strip(x[2][0]) == const('assert_args') for x in subterms(t))), None)
        whole = {b for t, b in fs if t[0] == 'cmp' and t[1] in ('is', 'eq') and callname(strip(t[2])) == 'type' or callname(t) == 'isinstance'} if caught else set()
        if len(whole) == 2:
            continue        # the position in the arguments is a number exactly when that in the function is
        if caught:
            exc = exc_name(strip(p.outcome[1])) if p.outcome[0] == 'raise' else None
            # ways which are not met: neither by name nor by position, where nothing is validated
            by = any(b and t[0] == 'cmp' and t[1] == 'in' and strip(t[3]) == A3 or b and 'len(' in show(t) for t, b in fs)
            if not by and not any(valid_of(e.term) is not None for e in p.events if e.kind == 'call'):
                continue
            n['refused'] += 1
            ctx.ob(p.outcome[0] == 'raise' and exc in ('ValidationError', 'InvalidValue', None), f.qual, f.where, 'an invalid argument is not refused with a ValidationError')
            ctx.ob(not calls_of(p), f.qual, f.where, 'the function is called though its argument is not valid')
            ctx.ob(bool(names & {'ValidationError', 'Exception'}) or not names, f.qual, f.where, 'the errors of the validation are not the ones handled')
            continue
        if p.outcome[0] != 'return':
            continue
        transparent(ctx, f, p)
        ctx.ob(any(callname(x) == 'pop' and strip(x[2][0]) == const('assert_args') and strip(receiver(x)) == A3 for e in p.events for x in subterms(e.term)), f.qual,
               f.where, 'the flag `assert_args` is handed on to the function')
        dflt = [x[2][1] for e in p.events for x in subterms(e.term) if callname(x) == 'pop' and len(x[2]) == 2 and strip(x[2][0]) == const('assert_args')]
        ctx.ob(all(const_value(d)[0] and const_value(d)[1] for d in dflt), f.qual, f.where, 'arguments are only validated on demand')
        stores = [e for e in p.events if e.kind == 'store' and (is_kwargs(strip(e.term)[1]) or is_args(strip(e.term)[1]))]
        if off:
            n['off'] += 1
            ctx.ob(not stores, f.qual, f.where, 'the argument is changed though nothing has to be asserted')
            continue
        call_i = p.events.index(calls_of(p)[0]) if calls_of(p) else 0
        for t, b in fs:
            for x in subterms(t):
                if x[0] == 'bin' and x[1] == 'Sub' and strip(x[2])[0] == 'name':
                    ctx.ob(any(not b2 and t2 == ('cmp', 'is', strip(x[2]), NONE) for t2, b2 in fs), f.qual, f.where, 'an argument which has no position is counted as if it had one')
        named = next((b for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and is_kwargs(t[3])), None)
        if named:
            key = next(strip(t[2]) for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and is_kwargs(t[3]))
            n['name'] += 1
            ok = [e for e in stores if is_kwargs(strip(e.term)[1]) and strip(strip(e.term)[2]) == key and p.events.index(e) < call_i
                  and valid_of(e.value) is not None and valid_of(e.value)[0] == 'sub' and is_kwargs(valid_of(e.value)[1]) and strip(valid_of(e.value)[2]) == key]
            ctx.ob(len(ok) == 1 and len(stores) == 1, f.qual, f.where, 'an argument given by name is not replaced by its validated form before the call')
        elif named is None:
            ctx.ob(False, f.qual, f.where, 'the function is called without a look at the arguments given by name')
        else:
            def about(t):
                return t[0] == 'cmp' and 'len(' in show(t) and any(callname(x) == 'len' and is_args(x[2][0]) for x in subterms(t))
            less = [(t, b) for t, b in fs if about(t)]
            typ = [(t, b) for t, b in fs if t[0] == 'cmp' and t[1] in ('is', 'eq') and any(callname(x) == 'type' for x in subterms(t)) or callname(t) == 'isinstance'
                   or t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and strip(t[2])[0] in ('name', 'bin')]
            inside = [b for t, b in less if t[1] == 'lt' and callname(strip(t[3])) == 'len']
            index = [strip(t[2]) for t, b in less if t[1] == 'lt' and callname(strip(t[3])) == 'len']
            if inside and all(inside):
                n['place'] += 1
                ok = [e for e in stores if is_args(strip(e.term)[1]) and p.events.index(e) < call_i and strip(strip(e.term)[2]) in index
                      and valid_of(e.value) is not None and valid_of(e.value)[0] == 'sub' and is_args(valid_of(e.value)[1]) and strip(valid_of(e.value)[2]) in index]
                ctx.ob(len(ok) == 1 and len(stores) == 1, f.qual, f.where, 'an argument given by position is not replaced by its validated form before the call')
                sent = unold(strip(calls_of(p)[0].term[2][0][1])) if calls_of(p) else None
                ctx.ob(bool(ok) and sent == strip(unold(strip(ok[0].term)[1])), f.qual, f.where, 'the function is called with the arguments as given, not as validated')
                inst = next((not b for t, b in fs if t[0] == 'cmp' and t[1] == 'is' and t[2] == A1 and t[3] == NONE), None)
                ctx.ob(all(strip(strip(e.term)[1]) != A2 for e in ok), f.qual, f.where, 'positional arguments cannot be replaced in a tuple')
                for x in index:
                    shifted = x[0] == 'bin' and x[1] == 'Sub' and x[3] == const(1)
                    nopos = any(b and t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and strip(t[2]) == x for t, b in fs)
                    ctx.ob(nopos or inst is None or shifted == inst, f.qual, f.where, 'the position of the argument is not that of the function (one less for a method)')
                ctx.ob(inst is not None, f.qual, f.where, 'methods and functions are counted in the same way')
            else:
                n['default'] += 1
                ctx.ob(not stores and (inside and not all(inside) or any(not b for t, b in typ) or any(b for t, b in typ if t[3] == NONE)), f.qual, f.where,
                       'the function is called with an argument which is not validated')
    for k, v in n.items():
        ctx.need(1, v, 'ways of the guard: %s' % k)


@rule('P19', 'which', 'the argument guarded is the one told: by its position or its name, whatever is used to tell it, and the schema given is the one it is validated with')
def which(ctx):
    f = fn(ctx, D + 'assert_arg')
    ps = [p for p in ctx.paths(f) if p.outcome[0] == 'return']
    vals = {strip(unold(v[0])) for p in ps for v in p.locals.values()}
    ok = any(x[0] == 'call' and strip(x[1]) == A1 and not x[2] and len(x[3]) == 1 and strip(x[3][0][1]) == KW for x in map(lambda y: strip(y[-1]) if y[0] == 'new' else y, vals))
    ctx.ob(ok, f.qual, f.where, 'the validator is not made of the type and the schema given')
    g = next(x for x in ctx.repo.all_functions(nested=True) if x.module is f.module and x.outer is not None and x.outer.name == 'assert_arg' and 'wrapper' not in x.name)
    n = 0
    for p in ctx.paths(g):
        if p.outcome[0] != 'return':
            continue
        n += 1
        fs = allfacts(p)
        args = f.node.args.args[0].arg
        ARG = ('name', args)
        by_place = next((b for t, b in fs if t[0] == 'cmp' and t[1] in ('is', 'eq') and any(callname(x) == 'type' for x in subterms(t)) or callname(t) == 'isinstance'), None)
        known = next((b for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and strip(t[2]) == ARG), None)
        got = [strip(unold(v[0])) for k, v in p.locals.items() if isinstance(v[0], tuple)]

        def names(x):
            return x[0] == 'attr' and x[2] in ('args', 'parameters')
        place = [x for x in got if x == ARG or callname(x) == 'index' and names(strip(receiver(x)))]
        name = [x for x in got if x == ARG or x[0] == 'sub' and names(strip(x[1])) and strip(x[2]) == ARG]
        odd = [x for x in got if (x[0] == 'neg' or x[0] == 'bin' and any(const_value(y)[0] and isinstance(const_value(y)[1], int) for y in x[2:4])) and any(y == ARG or names(y) for y in subterms(x))]
        ctx.ob(not odd, g.qual, f.where, 'the argument guarded is another one: %s' % show(odd[0])[:80] if odd else '')
        if by_place:
            ctx.ob(any(x == ARG for x in place) and any(x[0] == 'sub' for x in name), g.qual, f.where, 'an argument told by its position has not its name too')
        elif by_place is False and known:
            ctx.ob(any(callname(x) == 'index' and strip(x[2][0]) == ARG for x in place), g.qual, f.where, 'an argument told by its name has not its position too')
        elif by_place is None:
            ctx.ob(False, g.qual, f.where, 'positions and names are not told apart')
        else:
            ctx.ob(NONE in got, g.qual, f.where, 'an argument which has no position is given one')
        ctx.ob(bool(name), g.qual, f.where, 'the argument has no name')
    ctx.need(2, n, 'ways to tell the argument')


@rule('P19', 'decorated', 'what decorates a function stands for that function: the wrapper is made of it and returned')
def decorated(ctx):
    n = 0
    for name in ('take_arrays', 'assert_arg', 'assert_prop'):
        o = fn(ctx, D + name)
        g = next((x for x in ctx.repo.all_functions(nested=True) if x.module is o.module and x.outer is not None and x.outer.name == name
                  and not WRAPPED & set(x.decorators)), None)
        if g is None:
            ctx.ob(False, o.qual, o.where, 'there is no function which decorates')
            continue
        for p in ctx.paths(g):
            if p.outcome[0] != 'return':
                continue
            n += 1
            t = unold(strip(p.returns))
            if t[0] == 'new':
                t = strip(t[-1])
            ok = t[0] == 'call' and len(t[2]) == 1 and strip(t[2][0]) == A0 and t[1][0] == 'decorator'
            ctx.ob(ok, g.qual, o.where, 'what is returned is not the function decorated: %s' % show(t)[:80])
        for p in ctx.paths(o):
            if p.outcome[0] == 'return':
                ctx.ob(strip(p.returns)[0] == 'closure', o.qual, o.where, 'the decorator is not returned')
    ctx.need(3, n, 'decorations')


# ------------------------------------------------------------------ assert_prop
@rule('P19', 'property', 'a method guarded by `assert_prop` is only called when each of the properties told is defined on the object (else AttributeError)')
def prop_(ctx):
    f = nested(ctx, 'assert_prop')
    o = fn(ctx, D + 'assert_prop')
    names = ('name', o.node.args.vararg.arg) if o.node.args.vararg else None
    n = 0
    for p in ctx.paths(f):
        fs = allfacts(p)

        def undefined(t, b):
            """(True undefined, False defined, None) of the property met."""
            t = strip(t)
            x = t
            want = None
            t = strip(t[-1]) if t[0] == 'new' else t
            if callname(t) in ('any', 'all') and len(t[2]) == 1:
                c = strip(t[2][0])
                c = strip(c[-1]) if c[0] == 'new' else c
                if c[0] == 'comp' and len(c[2]) == 1 and not c[4] and len(c[3]) == 1 and strip(c[3][0]) == names:
                    e = undefined(c[2][0], True)
                    # one is undefined when any is, and none is when all are defined
                    if (e, callname(t)) == (True, 'any'):
                        return b
                    if (e, callname(t)) == (False, 'all'):
                        return not b
                return None
            if t[0] == 'not':
                return undefined(t[1], not b)
            if t[0] == 'comp' and len(t[4]) == 1 and len(t[3]) == 1 and strip(t[3][0]) == names:
                c = undefined(*t[4][0])
                return None if c is not True else b
            if t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE:
                x, want = strip(t[2]), b
            elif callname(t) == 'hasattr':
                return None
            if callname(x) == 'getattr' and len(x[2]) == 3 and strip(x[2][0]) == A1 and strip(x[2][1]) == ('item', names) and x[2][2] == NONE:
                return want
            return None
        u = [undefined(t, b) for t, b in fs]
        called = calls_of(p)
        if p.outcome[0] == 'return':
            n += 1
            transparent(ctx, f, p)
            no_change(ctx, f, p)
            whole = any(t[0] in ('looped', 'empty') and strip(t[1]) == names and b for t, b in fs)
            whole = whole or any(callname(t) in ('any', 'all') for t, b in fs) or any((strip(t[-1]) if t[0] == 'new' else t)[0] == 'comp' for t, b in fs)
            ctx.ob(whole and True not in u and (False in u or any(t[0] == 'empty' for t, b in fs)), f.qual, f.where,
                   'the method is called though one of the properties may be undefined')
        elif p.outcome[0] == 'raise':
            n += 1
            ctx.ob(exc_name(strip(p.outcome[1])) == 'AttributeError', f.qual, f.where, 'an undefined property is not refused with an AttributeError')
            ctx.ob(not called, f.qual, f.where, 'the method is called before its properties are looked at')
            ctx.ob(True in u, f.qual, f.where, 'the method is refused for a property which is defined')
    ctx.need(2, n, 'ways of the guard')


# ------------------------------------------------------------------ logging
@rule('P19', 'logging', 'a function whose calls or exceptions are logged is called once with what it is called with, its result is returned, '
      'and its exception is logged and raised again as it is')
def logging_(ctx):
    for name in ('log_exceptions', 'log_init', 'depend_on_prop'):
        f = fn(ctx, D + name) if name != 'depend_on_prop' else nested(ctx, name)
        n = r = 0
        for p in ctx.paths(f):
            fs = allfacts(p)
            no_change(ctx, f, p)
            for e in p.events:
                for x in subterms(e.term) if e.kind == 'call' else ():
                    if x[0] == 'sub' and strip(x[1]) == A2 and const_value(x[2])[0]:
                        ctx.ob((A2, True) in [(strip(t), b) for t, b in fs] and ('cmp', 'is', A1, NONE) in [strip(t) for t, b in fs if b], f.qual, f.where,
                               'a function called without positional arguments fails for its log')
                if logs(e) and name == 'log_exceptions':
                    ctx.ob(any(callname(t) == 'hasattr' and b for t, b in e.facts) or any(callname(t) == 'getattr' and b for t, b in e.facts), f.qual, f.where, 'what has no logger fails for its log')
            again = any(callname(e.term) == 'reraise' for e in p.events if e.kind == 'call')
            if p.outcome[0] == 'return' and not again:
                if any(t[0] == 'caught' for t, b in fs):
                    ctx.ob(False, f.qual, f.where, 'an exception of the function is lost')
                    continue
                n += 1
                transparent(ctx, f, p)
            elif any(t[0] == 'caught' for t, b in fs):
                r += 1
                t = strip(p.outcome[1])
                re = [strip(e.term) for e in p.events if e.kind == 'call' and callname(e.term) == 'reraise']
                own = t[0] == 'exception' or t[0] == 'name' and t[1] == 'raise'
                if re:
                    tri = [unold(strip(x)) for x in re[-1][2]]
                    own = len(tri) == 3 and all(x[0] == 'sub' and callname(strip(x[1])) == 'exc_info' and x[2] == const(i) for i, x in enumerate(tri))
                ctx.ob(own, f.qual, f.where, 'the exception of the function is not raised again as it is: %s' % show(t)[:100])
                logged = [e for e in p.events if logs(e) and callname(e.term) in ('error', 'exception', 'critical', 'warning')]
                has = next((b for t, b in fs if callname(t) == 'hasattr'), True)
                ctx.ob(bool(logged) or not has, f.qual, f.where, 'the exception of the function is not logged')
        ctx.need(1, n, 'calls through %s' % name)
        if name != 'depend_on_prop':
            # the handler ends with the exception: what it calls raises it
            hs = [h for h in own_nodes(f) if isinstance(h, ast.ExceptHandler)]
            ctx.ob(len(hs) >= 1 or r, f.qual, f.where, 'the exceptions of the function are not looked at')
            for h in hs:
                ts = {ast.unparse(h.type)} if h.type is not None else {'BaseException'}
                ctx.ob(bool(ts & {'Exception', 'BaseException'}), f.qual, f.where, 'only some exceptions are logged')


# ------------------------------------------------------------------ memoised values
@rule('P19', 'memoized', 'a memoised property or method is computed for the object it is asked of and kept on that object, under its own name')
def memoized(ctx):
    f = fn(ctx, D + 'memoized_property.__get__')
    n = classes = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        none = next((b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'is' and t[2] == A1 and t[3] == NONE), None)
        t = unold(strip(p.returns))
        classes += bool(none)
        if none:
            ctx.ob(t == A0, f.qual, f.where, 'the property asked of the class is not itself')
            continue
        n += 1
        ok = t[0] == 'call' and strip(t[1]) == ('attr', A0, 'fget') and [strip(x) for x in t[2]] == [A1]
        ctx.ob(ok, f.qual, f.where, 'the value is not that computed for the object: %s' % show(t)[:80])
        st = [e for e in p.events if e.kind == 'store' and strip(e.term)[0] == 'sub']
        ok = len(st) == 1 and strip(strip(st[0].term)[1]) in (('attr', A1, '__dict__'), ('call', ('name', 'vars'), (A1,), ())) and \
            strip(strip(st[0].term)[2]) == ('attr', A0, '__name__') and unold(strip(st[0].value)) == t
        ctx.ob(ok, f.qual, f.where, 'the value is not kept on the object under the name of the property')
    ctx.need(1, n, 'values computed')
    ctx.need(1, classes, 'reads of a memoised property of a class')
    i = fn(ctx, D + 'memoized_property.__init__')
    for p in ctx.paths(i):
        if p.outcome[0] == 'return':
            st = {strip(e.term): strip(e.value) for e in p.events if e.kind == 'store'}
            ctx.ob(st.get(('attr', A0, 'fget')) == A1 and st.get(('attr', A0, '__name__')) == ('attr', A1, '__name__'), i.qual, i.where, 'the name of the property is not that of its function')
    r = fn(ctx, D + 'memoized_property.reset')
    for p in ctx.paths(r):
        if p.outcome[0] == 'return':
            ok = [e for e in p.events if e.kind == 'call' and callname(e.term) == 'pop' and strip(receiver(e.term)) == ('attr', A1, '__dict__') and strip(e.term[2][0]) == A2
                  and len(e.term[2]) == 2]
            gone = any(t == ('cmp', 'in', A2, ('attr', A1, '__dict__')) and not b for t, b in allfacts(p))
            dl = [e for e in p.events if e.kind == 'del' and strip(e.term) == ('sub', ('attr', A1, '__dict__'), A2)]
            ctx.ob(ok or gone or dl, r.qual, r.where, 'a property which is reset keeps its value (or one which has none cannot be reset)')
    # methods: the inner cache is bound to one object
    o = fn(ctx, D + 'memoized_method')
    inner = [x for x in ctx.repo.all_functions(nested=True) if x.module is o.module and x.outer is not None and x.outer.name == 'memoized_method']
    cache = [x for x in inner if any('lru_cache' in d for d in x.decorators)]
    ctx.need(1, len(cache), 'caches of methods')
    host = [x for x in inner if any(c.node in list(ast.walk(x.node)) for c in cache) and x not in cache and x.node.args.args and x.node.args.args[0].arg == 'self'
            or x not in cache and x.node.args.vararg and x.node.args.kwarg and len(x.node.args.args) == 1]
    ctx.ob(len(host) >= 1, o.qual, o.where, 'the values of a method are kept for all objects together')
    for h in host:
        n = 0
        for p in ctx.paths(h):
            if p.outcome[0] != 'return':
                continue
            n += 1
            sets = [strip(e.term) for e in p.events if e.kind == 'call' and callname(e.term) in ('__setattr__', 'setattr')]
            st = [e for e in p.events if e.kind == 'store' and root(e.term) == A0]
            ok = any([strip(y) for y in x[2]][:1] == [A0] and strip(x[2][1])[0] == 'attr' and strip(x[2][1])[2] == '__name__' for x in sets if len(x[2]) == 3) or bool(st)
            ctx.ob(ok, o.qual, o.where, 'the values of a method are not kept on its object')
        ctx.need(1, n, 'memoised calls')
    for c in cache:
        strong = [x for x in ast.walk(c.node) if isinstance(x, ast.Name) and x.id == 'self']
        ctx.ob(not strong, o.qual, o.where, 'the values kept keep their object alive')
        a = c.node.args
        for x in ast.walk(c.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'func':
                ok = len(x.args) == 2 and isinstance(x.args[1], ast.Starred) and isinstance(x.args[0], ast.Call) and any(k.arg is None for k in x.keywords)
                ctx.ob(ok, o.qual, o.where, 'the method is not called on its object with its arguments')


# ------------------------------------------------------------------ take_arrays
@rule('P19', 'arrays', 'a function which takes arrays is called once per element, in their order, with that element in the place of the array '
      '(and the one at the same index of the second array); arrays of different sizes are refused; anything else is handed on as it is')
def arrays(ctx):
    f = nested(ctx, 'take_arrays')
    o = fn(ctx, D + 'take_arrays')
    N1, N2, FLAT = [('name', a.arg) for a in o.node.args.args[:3]]
    X1, X2 = ('sub', A2, N1), ('sub', A2, N2)
    ctx.ob([ast.unparse(d) for d in o.node.args.defaults] == ['0', '-1', 'False'], o.qual, o.where, 'it is not the first argument which can be an array by default')
    ps = ctx.paths(f)
    n = {'single': 0, 'first': 0, 'both': 0, 'refused': 0}

    def is_type(t, x):
        return any(callname(y) in ('type', 'isinstance') and strip(y[2][0]) == x for y in subterms(t))

    def lens(t):
        return t[0] == 'cmp' and t[1] == 'eq' and {strip(y) for y in t[2:4]} == {('call', ('name', 'len'), (X1,), ()), ('call', ('name', 'len'), (X2,), ())}
    for p in ps:
        fs = allfacts(p)
        arr = next((b for t, b in fs if is_type(t, X1)), None)
        for t, b in fs:
            if is_type(t, X1) or is_type(t, X2):
                ctx.ob({'list', 'set', 'tuple'} <= {x[1] for x in subterms(t) if x[0] == 'name'} | ({'set'} if any(callname(x) == 'zip' for x in subterms(t)) else set()),
                       f.qual, f.where, 'lists, tuples and sets are not all taken as arrays: %s' % show(t)[:80])
        same = next((b for t, b in fs if lens(t)), None)
        cs = calls_of(p)
        ctx.ob(not any(e.kind in ('store', 'mutate', 'del') and root(e.term) in (A1, A3) for e in p.events), f.qual, f.where, 'the arguments given by name are changed')
        if p.outcome[0] == 'raise':
            n['refused'] += 1
            ctx.ob(same is False and arr is True and not cs, f.qual, f.where, 'arrays are refused for another reason than their size')
            ctx.ob(exc_name(strip(p.outcome[1])) == 'InvalidValue', f.qual, f.where, 'arrays of different sizes are not refused with InvalidValue')
            continue
        if p.outcome[0] != 'return':
            continue
        if not arr:
            n['single'] += 1
            ctx.ob(arr is False, f.qual, f.where, 'the kind of the argument is not looked at')
            transparent(ctx, f, p, 'a single value: ')
            continue
        loops = [(t, b) for t, b in fs if t[0] in ('looped', 'empty') and any(y in (X1, X2) for y in subterms(t))]
        out = [t for t, b in loops if t[0] == 'empty' and b]
        if not loops and not any(y[0] == 'comp' for y in subterms(strip(p.returns))):
            ctx.ob(False, f.qual, f.where, 'the elements of the array are not gone through')
            continue
        both = any(callname(strip(y)) == 'zip' for t, b in loops for y in subterms(t))
        n['both' if both else 'first'] += 1
        second = next((b for t, b in fs if is_type(t, X2)), None)
        none2 = next((b for t, b in fs if t == ('cmp', 'eq', N2, const(-1)) or t == ('cmp', 'eq', const(-1), N2)), None)
        one = next((b for t, b in fs if t[0] == 'cmp' and t[1] == 'eq' and {strip(y) for y in t[2:4]} == {('call', ('name', 'len'), (X2,), ()), const(1)}), None)
        if both:
            ctx.ob(none2 is False and second is True, f.qual, f.where, 'an argument which is not said to be an array is taken as one')
            ctx.ob(same is True, f.qual, f.where, 'two arrays are taken together though their sizes may differ')
        else:
            ctx.ob(none2 is True or second is False or one is True, f.qual, f.where, 'the second array is handed on as a whole')
        flat = next((b for t, b in fs if t == FLAT), None)
        r = unold(strip(p.returns))
        r = unold(strip(r[-1])) if r[0] == 'new' else r
        grown = [strip(e.term) for e in p.events if e.kind == 'mutate' and callname(e.value or ('none',)) == 'append']
        ctx.ob(flat or out or strip(p.returns) in grown or any(unold(strip(p.returns)) == unold(x) for x in grown) or r[0] == 'comp', f.qual, f.where, 'the results are not returned: %s' % show(r)[:80])
        comp = r[0] == 'comp' and len(r[3]) == 2 and not r[4] and len(r[2]) == 1
        ctx.ob(flat is not None and flat == (comp or callname(r) in ('sum', 'from_iterable', 'list', 'chain')) and (not comp or unold(strip(r[2][0])) == ('item', unold(strip(r[3][1])))),
               f.qual, f.where, 'results are flattened on demand only, and wholly')
        if out:
            continue
        sts = [e for e in p.events if e.kind == 'store' and strip(e.term)[0] == 'sub']
        i_call = p.events.index(cs[0]) if cs else -1
        got1 = [e for e in sts if strip(strip(e.term)[2]) == N1 and p.events.index(e) < i_call and is_args(strip(e.term)[1])]
        got2 = [e for e in sts if strip(strip(e.term)[2]) == N2 and p.events.index(e) < i_call and is_args(strip(e.term)[1])]

        def el(e):
            v = unold(strip(e.value))
            return v
        ctx.ob(len(cs) >= 1 and through(cs[0].term) and strip(cs[0].term)[2][0][1] != A2, f.qual, f.where, 'the function is not called with its arguments, one element in the place of the array')
        ctx.ob(bool(got1) and el(got1[-1])[0] == 'item' and strip(el(got1[-1])[1]) == X1, f.qual, f.where, 'the function is not called with an element of the array')
        if got2 and not both:
            ctx.ob(none2 is False and second is True, f.qual, f.where, 'an argument which is not said to be an array is taken as one')
        if both:
            ctx.ob(bool(got2) and el(got2[-1])[0] == 'item' and strip(el(got2[-1])[1]) == X2, f.qual, f.where, 'the function is not called with an element of the second array')
        elif none2 is not True and second and one:
            ctx.ob(bool(got2) and el(got2[-1])[0] in ('sub', 'item') and any(y == X2 for y in subterms(el(got2[-1])[1])), f.qual, f.where, 'the only element of the second array is not used for all')
        app = [e for e in p.events if e.kind == 'mutate' and callname(e.value or ('none',)) == 'append' and any(strip(y) == strip(cs[0].term) for y in subterms(e.value))] if cs else []
        ctx.ob(len(app) == 1, f.qual, f.where, 'the results are not returned in the order of the elements')
    for k, v in n.items():
        ctx.need(1, v, 'ways to take arrays: %s' % k)


# ------------------------------------------------------------------ class properties
@rule('P19', 'classproperty', 'a class property is read of the class (that of the object when asked of one), and cannot be set without a setter')
def classprop(ctx):
    g = fn(ctx, D + 'ClassPropertyDescriptor.__get__')
    n = 0
    for p in ctx.paths(g):
        if p.outcome[0] != 'return':
            continue
        n += 1
        t = unold(strip(p.returns))
        none = next((b for t_, b in allfacts(p) if t_[0] == 'cmp' and t_[1] == 'is' and t_[2] == A2 and t_[3] == NONE), None)
        inner = strip(t[1]) if t[0] == 'call' else None
        ok = inner is not None and callname(inner) == '__get__' and strip(receiver(inner)) == ('attr', A0, 'fget') and len(inner[2]) == 2 and \
            strip(inner[2][1]) == (('call', ('name', 'type'), (A1,), ()) if none else A2)
        ctx.ob(ok or none is None and inner is not None and any(callname(y) == 'type' for y in subterms(inner)), g.qual, g.where, 'the class property is not that of the class: %s' % show(t)[:100])
    ctx.need(2, n, 'reads of class properties')
    s = fn(ctx, D + 'ClassPropertyDescriptor.__set__')

    def setter(t):
        """The setter bound to the class of the object."""
        return callname(t) == '__get__' and strip(receiver(t)) == ('attr', A0, 'fset') and len(t[2]) == 2 and \
            strip(t[2][0]) in (A1, NONE) and strip(t[2][1]) in (('call', ('name', 'type'), (A1,), ()), ('attr', A1, '__class__'))
    for p in ctx.paths(s):
        has = next((b for t, b in allfacts(p) if t == ('attr', A0, 'fset')), None)
        if has is None:
            has = next((not b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'is' and t[2] == ('attr', A0, 'fset') and t[3] == NONE), None)
        if has:
            ok = any(e.kind == 'call' and strip(e.term)[2] and strip(strip(e.term)[2][0]) == A2 and setter(strip(strip(e.term)[1])) for e in p.events)
            ctx.ob(p.outcome[0] == 'return' and ok, s.qual, s.where, 'the setter of a class property is not called with the value')
        else:
            ctx.ob(has is False and p.outcome[0] == 'raise' and exc_name(strip(p.outcome[1])) == 'AttributeError', s.qual, s.where, 'a class property without a setter can be set')
