"""P16: what is done for a time is undone."""
import ast

from ..core import rule
from ..engine import TooComplex
from ..lib import *

A0, A1, A2, A3 = [('arg', i) for i in range(4)]
OPENING = {'open', 'urlopen', '_open_file', 'open_file', 'fdopen', 'NamedTemporaryFile', 'TemporaryFile', 'ZipFile', 'TarFile', 'Popen', 'popen'}
PAIRS = {'acquire': 'release', 'push_scope': 'pop_scope', '__enter__': '__exit__', 'start_transaction': 'end_transaction'}
CWD = {'cwd', 'getcwd', 'getcwdu'}
#: functions which give what they open to their caller, whose uses are followed instead
GIVERS = {'_open_file', 'open_file'}
NESTED = ('threadsafe_counter',)


def concerned(f):
    for n in own_nodes(f):
        if isinstance(n, ast.Call) and (called_name(n) in OPENING or called_name(n) in PAIRS or called_name(n) == 'chdir'):
            return True
        if isinstance(n, ast.Attribute) and n.attr == '__class__' and isinstance(n.ctx, ast.Store):
            return True
    return False


def subjects(ctx):
    for f in ctx.repo.all_functions(nested=True):
        if (f.key in ctx.baseline or any('%s.<locals>' % x in f.qual for x in NESTED)) and concerned(f):
            yield f


def is_cwd(t):
    t = unold(strip(t))
    return callname(t) in CWD or callname(t) in ('str', 'Path') and bool(t[2]) and is_cwd(t[2][0])


def earlier_class(e):
    """A store which puts back the class read before."""
    v = e.value
    while v[0] in ('new', 'alias') and len(v) > 1:
        v = v[-1]
    return v[0] == 'old' and unold(v) == ('attr', unold(strip(e.term))[1], '__class__')


def openings(p):
    """(index, what, closed by) of what is begun on the path."""
    for i, e in enumerate(p.events):
        t = unold(strip(e.term))
        if e.kind == 'call':
            name = callname(t)
            if name == 'chdir' and t[2] and not is_cwd(t[2][0]):
                yield i, e, lambda x: x.kind == 'call' and callname(x.term) == 'chdir' and is_cwd(strip(x.term)[2][0])
            elif name in PAIRS and t[1][0] == 'attr':
                yield i, e, lambda x, n=PAIRS[name], o=t[1][1]: x.kind == 'call' and callname(x.term) == n and unold(strip(x.term))[1][1] == o
            elif name in OPENING:
                def closed(x, t=t):
                    u = unold(strip(x.term))
                    if x.kind == 'with':
                        return t in list(subterms(u))
                    return x.kind == 'call' and callname(u) in ('close', 'communicate', 'wait') and t in list(subterms(u))
                yield i, e, closed
        elif e.kind == 'store' and t[0] == 'attr' and t[2] == '__class__' and not earlier_class(e):
            yield i, e, lambda x, t=t: x.kind == 'store' and unold(strip(x.term)) == t and earlier_class(x)


@rule('P16', 'undone', 'What is opened, taken or changed for a time is closed, released or put back on every path, exceptions included.')
def p16_undone(ctx):
    n = 0
    kinds = set()
    for f in subjects(ctx):
        for p in ctx.paths(f, implicit=True):
            for i, e, closed in openings(p):
                t = unold(strip(e.term))
                if p.outcome[0] == 'exc' and i == len(p.events) - 1:
                    continue        # opening failed
                if e.kind == 'call' and p.normal and t in [unold(x) for x in flat_alts(p.returns)] and f.name in GIVERS:
                    kinds.add('given')
                    n += 1
                    continue
                later = p.events[i + 1:]
                ok = any(closed(x) for x in later)
                if ok and callname(t) in OPENING:
                    # nothing is done with it before it is taken in charge
                    first = next(k for k, x in enumerate(later) if closed(x))
                    ok = not any(x.kind == 'call' and t in [unold(y) for y in subterms(strip(x.term))] and callname(x.term) not in ('closing',) for x in later[:first])
                if not ok and p.outcome[0] in ('exc', 'raise') and callname(t) in OPENING and i + 1 < len(p.events) and \
                        all(callname(x.term) in ('closing', 'TextIOWrapper') for x in later if x.kind == 'call') and not any(x.kind == 'with' for x in later):
                    continue
                n += 1
                kinds.add(callname(t) or 'class')
                ctx.ob(ok, f.qual, e.where, '%s is not undone when the path %s' % (
                    show(t)[:80], 'ends' if p.normal else 'leaves by an exception'))
    ctx.need(5, len(kinds), 'kinds of things done for a time (%s)' % ', '.join(sorted(str(k) for k in kinds)))
    ctx.need(12, n, 'things done for a time')


def within(p, e, names):
    """The event is inside a with statement on one of these."""
    depth = 0
    for x in p.events:
        if x is e:
            return depth > 0
        t = unold(strip(x.term))
        if x.kind == 'with' and callname(t) in names:
            depth += 1
        elif x.kind == 'endwith' and callname(t) in names:
            depth -= 1
    return False


@rule('P16', 'during', 'While it lasts, the change is the one asked for.')
def p16_during(ctx):
    f = ctx.func('casted_as')
    n = 0
    for p in ctx.paths(f):
        ys = [e for e in p.events if e.kind == 'yield']
        member = [b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'in' and unold(t[2]) == A1]
        if ys:
            n += 1
            st = [e for e in p.events[:p.events.index(ys[0])] if e.kind == 'store']
            ctx.ob(len(st) == 1 and unold(strip(st[0].value)) == A1 and unold(strip(st[0].term)) == ('attr', A0, '__class__'), f.qual, f.where,
                   'the instance is not of the class asked while it is casted')
            ctx.ob(unold(strip(ys[0].term)) == A0, f.qual, f.where, 'what is casted is not the instance')
            ctx.ob(member == [True] or any(t[0] == 'call' and callname(t) == 'issubclass' and b and len(t[2]) == 2 and unold(strip(t[2][1])) == A1 and
                                         unold(strip(t[2][0])) in (('attr', A0, '__class__'), ('call', ('name', 'type'), (A0,), ())) for t, b in allfacts(p)), f.qual, f.where, 'the instance is casted to a class which is not one of its own')
            ctx.ob(len(ys) == 1, f.qual, f.where, 'the instance is given %d times' % len(ys))
    ctx.need(1, n, 'castings')
    f = ctx.func('working_directory')
    n = 0
    for p in ctx.paths(f):
        ys = [e for e in p.events if e.kind == 'yield']
        ctx.ob(len(ys) == 1, f.qual, f.where, 'the directory is not changed exactly once')
        if ys:
            n += 1
            before = [unold(strip(e.term)) for e in p.events[:p.events.index(ys[0])] if e.kind == 'call']
            i = next((k for k, t in enumerate(before) if callname(t) == 'chdir'), None)
            ctx.ob(i is not None and any(x == A0 for x in subterms(before[i][2][0])), f.qual, f.where, 'the directory is not the one asked')
            ctx.ob(i is None or any(callname(t) in CWD for t in before[:i]), f.qual, f.where, 'the directory to return to is read after it is changed')
    ctx.need(1, n, 'changes of directory')
    f = ctx.func('Number._evaluate')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            t = unold(strip(e.term))
            if e.kind == 'call' and callname(t) == '_evaluate':
                n += 1
                ctx.ob(within(p, e, {'localcontext'}), f.qual, e.where, 'numbers are not evaluated in a decimal context of their own')
            if e.kind == 'with':
                ctx.ob(callname(t) != 'localcontext' or bool(t[2]) and t[2][0] == ('attr', A0, '_dcmContext'), f.qual, e.where,
                       'numbers are not evaluated with their precision: %s' % show(t)[:80])
    ctx.need(1, n, 'evaluations of numbers')
    f = ctx.func('recursive_ref')
    n = 0
    for p in ctx.paths(f):
        pushed = [e for e in p.events if e.kind == 'call' and callname(e.term) == 'push_scope']
        desc = [e for e in p.events if e.kind == 'call' and callname(e.term) == 'descend']
        popped = [e for e in p.events if e.kind == 'call' and callname(e.term) == 'pop_scope']
        ctx.ob(len(pushed) == len(popped) <= 1, f.qual, f.where, 'a scope is left as many times as it is entered')
        if pushed and desc and popped:
            n += 1
            i, j, k = (p.events.index(x[0]) for x in (pushed, desc, popped))
            ys = [p.events.index(e) for e in p.events if e.kind == 'yield']
            ctx.ob(i < j < k and all(i < y < k for y in ys), f.qual, f.where, 'the errors are not those found in the scope of the reference')
            s = unold(strip(pushed[0].term))[2][0]
            ctx.ob(s[0] == 'sub' and callname(unold(s[1])) == 'resolve' and s[2] == ('const', '0') or s[0] == 'sub' and s[2][1] in (0, '0'), f.qual, pushed[0].where,
                   'the scope entered is %s' % show(s)[:80])
    ctx.need(1, n, 'scopes entered')
    n = 0
    for f in ctx.repo.all_functions(nested=True):
        if 'threadsafe_counter.<locals>' not in f.qual:
            continue
        for p in ctx.paths(f):
            held = 0
            for e in p.events:
                t = unold(strip(e.term))
                if e.kind == 'call' and callname(t) == 'acquire' or e.kind == 'with':
                    held += 1
                elif e.kind == 'call' and callname(t) == 'release' or e.kind == 'endwith':
                    held -= 1
                elif e.kind == 'call' and callname(t) == 'next' or e.kind in ('store', 'mutate'):
                    n += 1
                    ctx.ob(held > 0, 'threadsafe_counter', e.where, 'the counter is read out of the lock')
    ctx.need(1, n, 'readings of the counter')
    f = ctx.func('threadsafe_counter')
    out = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and called_name(x) in ('Lock', 'RLock')]
    inner = [y for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node for y in ast.walk(x)]
    ctx.ob(not any(x in inner for x in out), 'threadsafe_counter', f.where, 'the lock is not shared by the calls')
