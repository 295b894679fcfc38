"""Helpers shared by the rules: decision tables, effects, slices, package-wide scans."""
import ast
import builtins
import copy
import itertools

from .engine import (Analyzer, MUTATORS, NONE, TRUE, FALSE, callname, const, const_value, contains, find, holds, load_baseline, match,
                     parse_pattern, receiver, root, show, strip, strip_iter, subterms)
from .model import AnalysisError, FuncInfo

LOGMETHODS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}


# ------------------------------------------------------------------ decision tables
def allfacts(p):
    """Facts met along a path, first occurrence of each condition (a write may invalidate them later)."""
    seen, out = {}, []
    for fs in [e.facts for e in p.events] + [p.facts]:
        for t, b in fs:
            s = strip(t)
            if s not in seen:
                seen[s] = b
                out.append((s, b))
    return out


def _pats(l):
    out = []
    for x in ([l] if isinstance(l, str) or callable(l) or isinstance(l, tuple) else l):
        neg = False
        if isinstance(x, str) and x.startswith('!'):
            neg, x = True, x[1:]
        if isinstance(x, str):
            x = parse_pattern(x)
            while x[0] == 'not':
                x, neg = x[1], not neg
        out.append((x, neg))
    return out


def assign(facts, atoms):
    """{atom: truth} of a list of facts; atoms: {name: pattern or list of patterns ('!' negates)}."""
    env = {}
    for name, pats in atoms.items():
        for pat, neg in _pats(pats):
            for t, b in facts:
                ok = pat(t) if callable(pat) else match(pat, t) is not None
                if ok and name not in env:
                    env[name] = b != neg
    return env


def truths(p):
    """[(facts, truth)] of the value returned by a path."""
    t = strip(p.returns)
    flip = False
    while t[0] == 'not':
        t, flip = t[1], not flip
    if callname(t) == 'bool' and len(t[2]) == 1:
        t = t[2][0]
        while t[0] == 'not':
            t, flip = t[1], not flip
    ok, v = const_value(t)
    fs = allfacts(p)
    if ok:
        return [(fs, bool(v) != flip)]
    if t[0] in ('dict', 'list', 'tuple', 'set') and len(t) == 2:
        return [(fs, bool(t[1]) != flip)]
    for f, b in fs:
        if f == t:
            return [(fs, b != flip)]
        if f[0] == 'cmp' and f[1] == 'is' and f[2] == t and f[3] == NONE and b:
            return [(fs, flip)]
    return [(fs + [(t, True)], not flip), (fs + [(t, False)], flip)]


def completions(env, names, valid=None):
    free = [n for n in names if n not in env]
    for vs in itertools.product((False, True), repeat=len(free)):
        e = dict(env)
        e.update(zip(free, vs))
        if valid is None or valid(e):
            yield e


def table(ctx, rows, atoms, spec, construct, message, valid=None, where=''):
    """rows: [(facts, label, where)]. Each row must agree with spec(env) for all completions of its atoms."""
    n = 0
    ok = True
    for facts, label, w in rows:
        env = assign(facts, atoms)
        for e in completions(env, list(atoms), valid):
            want = spec(e)
            if want is None:
                continue
            n += 1
            if label != want:
                ok = False
                ctx.ob(False, construct, w or where, '%s (%s: %s instead of %s)' % (
                    message, ', '.join(('' if v else 'not ') + k for k, v in sorted(e.items())), label, want))
                break
        else:
            if label is not None:
                ctx.ob(True, construct, w or where, message)
    ctx.need(1, n, 'rows of %s' % construct)
    return ok


def bool_table(ctx, paths, atoms, spec, construct, message, valid=None, raised=None):
    rows = []
    for p in paths:
        if p.normal:
            rows += [(fs, v, None) for fs, v in truths(p)]
        elif raised is not None:
            rows.append((allfacts(p), raised, None))
    return table(ctx, rows, atoms, spec, construct, message, valid, where=construct)


# ------------------------------------------------------------------ effects
def is_log(e):
    return e.kind == 'call' and callname(e.term) in LOGMETHODS and '_logger' in show(e.term) or \
        e.kind == 'call' and callname(e.term) in LOGMETHODS and receiver(e.term) in (('name', 'logger'), ('name', 'logging'))


def writes(p, base=None, attrs=None):
    """store/del/mutate events whose target is rooted at base and goes through one of the attributes."""
    out = []
    for e in p.events:
        if e.kind not in ('store', 'del', 'mutate'):
            continue
        t = strip(e.term)
        if base is not None and root(t) != base:
            continue
        if attrs is not None and not any(x[0] == 'attr' and x[2] in attrs for x in subterms(t)):
            continue
        out.append(e)
    return out


def target_of(e):
    """Container written by an event: x of x[k] = v, x.append(v), del x[k]."""
    t = strip(e.term)
    if e.kind == 'mutate':
        return t
    return t[1] if t[0] == 'sub' else t


def swallowed(paths):
    """Paths on which an exception was caught and which go on normally."""
    return [p for p in paths if p.normal and any(f[0][0] == 'caught' for f in p.facts)]


def unold(t):
    """Term with the 'earlier value' marks removed."""
    t = strip(t)
    if isinstance(t, tuple):
        if t and t[0] == 'old':
            return unold(t[1])
        return tuple(unold(x) if isinstance(x, tuple) else x for x in t)
    return t


def flat_alts(t):
    """Alternatives of a term."""
    t = strip(t)
    if t[0] == 'alts':
        return [y for x in t[1] for y in flat_alts(x)]
    return [t]


# ------------------------------------------------------------------ slices
def _base(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
        n = n.func if isinstance(n, ast.Call) else n.value
    return n.id if isinstance(n, ast.Name) else None


def _names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def _key(n):
    """'attrs[x]' of a store with a constant key."""
    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant):
        return '%s[%s]' % (n.value.id, n.slice.value)
    return None


def _defs(s, stop=()):
    """Names defined or modified by a simple statement."""
    out = set()
    tgts = []
    if isinstance(s, ast.Assign):
        tgts = s.targets
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
        tgts = [s.target]
    elif isinstance(s, ast.Delete):
        tgts = s.targets
    elif isinstance(s, (ast.For, ast.AsyncFor)):
        tgts = [s.target]
    elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        out.add(s.name)
    elif isinstance(s, (ast.Import, ast.ImportFrom)):
        return {a.asname or a.name.split('.')[0] for a in s.names}
    elif isinstance(s, (ast.With, ast.AsyncWith)):
        tgts = [i.optional_vars for i in s.items if i.optional_vars is not None]
    todo = list(tgts)
    while todo:
        t = todo.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            todo.extend(t.elts)
        elif isinstance(t, ast.Starred):
            todo.append(t.value)
        elif isinstance(t, ast.Name):
            out.add(t.id)
        else:
            k = _key(t)
            if k:
                out.add(k)
            b = _base(t)
            if b:
                out.add(b)
    exprs = [s] if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return)) else []
    if isinstance(s, (ast.If, ast.While)):
        exprs = [s.test]
    if isinstance(s, ast.For):
        exprs = [s.iter]
    for x in exprs:
        for c in ast.walk(x):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in MUTATORS:
                b = _base(c.func.value)
                if b:
                    out.add(b)
            if isinstance(c, ast.NamedExpr):
                out.add(c.target.id)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('setattr', 'delattr') and c.args:
                b = _base(c.args[0])
                if b:
                    out.add(b)
    return out


def _given(s, known):
    """Names handed over to functions which the reference tree has not (extracted helpers)."""
    out = set()
    if isinstance(s, (ast.Expr, ast.Assign)):
        for c in ast.walk(s.value):
            if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)):
                n = c.func.id if isinstance(c.func, ast.Name) else c.func.attr
                if n not in known and isinstance(c.func, ast.Name) and not hasattr(builtins, n) and n[:1] != n[:1].upper() or n.startswith('_') and n not in known and not n.startswith('__'):
                    out |= {a.id for a in c.args if isinstance(a, ast.Name)}
    return out


def _uses(n):
    """Names used by an expression or a simple statement."""
    if n is None:
        return set()
    out = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set()
            for g in x.generators:
                inner |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            out |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)} - inner
            first = x.generators[0].iter
            out |= {y.id for y in ast.walk(first) if isinstance(y, ast.Name)}
            continue
        if isinstance(x, ast.Lambda):
            out |= {y.id for y in ast.walk(x.body) if isinstance(y, ast.Name)} - {a.arg for a in x.args.args}
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.add(x.id)
        todo.extend(ast.iter_child_nodes(x))
    return out


def slice_function(func, wanted, stop=()):
    """Copy of a function keeping what the wanted variables depend on (backward, flow-sensitive).

    wanted: variable names, or 'attrs[key]' for stores with a constant key; stop: names which are not followed.
    """
    stop = set(stop)
    known = {k.split(':')[-1].split('.')[-1] for k in load_baseline()}

    def simple(s, live):
        """(kept, live before) of a simple statement."""
        d = _defs(s)
        rel = {x for x in d if x in live and (x not in stop or '[' in x)}
        given = _given(s, known)
        if any(x.split('[')[0] in given for x in live if '[' in x):
            # filled by a function which is not described: followed in
            return True, set(live) | (_uses(s) - stop)
        if not rel:
            return False, live
        out = set(live)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                for y in [t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts:
                    if isinstance(y, ast.Name):
                        out.discard(y.id)
                    elif _key(y):
                        out.discard(_key(y))
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            out -= d
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            params = {a.arg for a in ast.walk(s) if isinstance(a, ast.arg)}
            used = _names(s) - params
        else:
            used = _uses(s)
            if isinstance(s, ast.AugAssign):
                used |= {x for x in [_base(s.target)] if x}
            if isinstance(s, ast.Assign) and all(_key(t) for t in s.targets):
                used = _uses(s.value)
        return True, out | (used - stop)

    def seq(body, live, loop):
        kept = []
        for s in reversed(body):
            k, live = one(s, live, loop)
            if k is not None:
                kept.insert(0, k)
        return kept, live

    def real(l):
        return [x for x in l if not isinstance(x, (ast.Continue, ast.Break, ast.Pass)) and not (
            isinstance(x, ast.If) and not real(x.body) and not real(x.orelse))]

    def one(s, live, loop):
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            cur = set(live)
            tg = {y.id for y in ast.walk(s.target) if isinstance(y, ast.Name)} if not isinstance(s, ast.While) else set()
            while True:
                b, l2 = seq(s.body, cur, True)
                new = cur | (l2 - tg)
                if new == cur:
                    break
                cur = new
            b, l2 = seq(s.body, live, False)
            o, l3 = seq(s.orelse, live, loop)
            if not real(b) and not real(o):
                return None, live
            b, l2 = seq(s.body, cur, True)
            if not real(b) and not real(o):
                return None, live
            n = copy.copy(s)
            n.body, n.orelse = b or [ast.copy_location(ast.Pass(), s)], o
            head = _uses(s.iter if not isinstance(s, ast.While) else s.test) - stop
            return n, live | (l2 - tg) | l3 | head
        if isinstance(s, ast.If):
            a, la = seq(s.body, live, loop)
            b, lb = seq(s.orelse, live, loop)
            if not a and not b:
                return None, live
            n = copy.copy(s)
            n.body, n.orelse = a or [ast.copy_location(ast.Pass(), s)], b
            return n, la | lb | (_uses(s.test) - stop)
        if isinstance(s, ast.Try):
            f, lf = seq(s.finalbody, live, loop)
            o, lo = seq(s.orelse, lf, loop)
            hs, lh = [], set(lf)
            for h in s.handlers:
                hb, l = seq(h.body, lf, loop)
                h2 = copy.copy(h)
                h2.body = hb or [ast.copy_location(ast.Pass(), h)]
                hs.append((h2, hb))
                lh |= l
            a, la = seq(s.body, lo | lh, loop)
            if not (a or o or f or any(real(hb) for _, hb in hs)):
                return None, live
            n = copy.copy(s)
            n.body, n.handlers, n.orelse, n.finalbody = a or [ast.copy_location(ast.Pass(), s)], [h for h, _ in hs], o, f
            return n, la | lh
        if isinstance(s, (ast.With, ast.AsyncWith)):
            a, la = seq(s.body, live, loop)
            if not a:
                return None, live
            n = copy.copy(s)
            n.body = a
            for i in s.items:
                la = la | (_uses(i.context_expr) - stop)
            return n, la
        if isinstance(s, (ast.Continue, ast.Break)):
            return (s, live) if loop else (None, live)
        if isinstance(s, (ast.Return, ast.Raise)):
            return None, live
        k, l = simple(s, live)
        return (s if k else None), l

    body, _ = seq(func.node.body, set(wanted), False)
    node = copy.copy(func.node)
    node.body = body or [ast.copy_location(ast.Pass(), func.node)]
    f = copy.copy(func)
    f.node = node
    return f


# ------------------------------------------------------------------ package-wide scans
def functions(repo):
    return list(repo.all_functions(nested=False))


def own_nodes(f):
    return ast.walk(f.node)


def called_name(n):
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute):
            return n.func.attr
        if isinstance(n.func, ast.Name):
            return n.func.id
    return None


# ------------------------------------------------------------------ behaviour tables
def _ev_match(e, pat):
    """Does an event match 'call pattern', 'target := value' or 'del target'?"""
    if callable(pat):
        return pat(e)
    if ':=' in pat:
        l, r = [x.strip() for x in pat.split(':=')]
        return e.kind == 'store' and match(l, e.term) is not None and (r == '' or match(r, e.value) is not None)
    if pat.startswith('del '):
        return e.kind == 'del' and match(pat[4:], e.term) is not None
    if e.kind == 'mutate':
        return match(pat, e.value) is not None
    return e.kind == 'call' and match(pat, e.term) is not None


def has_event(p, pat):
    return any(_ev_match(e, pat) for e in p.events)


def exc_name(t):
    """Name of the exception class raised."""
    t = strip(t) if isinstance(t, tuple) else t
    if isinstance(t, tuple) and t[0] == 'call':
        return callname(t)
    if isinstance(t, tuple) and t[0] in ('name', 'attr'):
        return t[-1]
    return None


def behave(ctx, fn, atoms, spec, message, valid=None, cls=None, inline=(), types=None, implicit=False, may_raise=None, skip=None,
           default=None):
    """Every path of a function agrees with spec(env), env being any completion of what the path assumes.

    spec(env) -> None (not specified) or a dict: ret (pattern, list of patterns or predicate on (term, path)), raises
    (True, False or the names of the exception), must / never (event patterns), all_of (list of lists: one of each).
    """
    f = ctx.func(fn) if isinstance(fn, str) else fn
    ps = ctx.paths(f, cls=cls, inline=inline, types=types, implicit=implicit, may_raise=may_raise)
    n = 0
    for p in ps:
        if skip and skip(p):
            continue
        facts = allfacts(p)
        env = assign(facts, atoms)
        for k, v in (default or {}).items():
            env.setdefault(k, v)
        for e in completions(env, list(atoms), valid):
            want = spec(e)
            if want is None:
                continue
            n += 1
            bad = disagrees(p, want)
            when = ', '.join(('' if v else 'not ') + k for k, v in sorted(e.items()))
            w = next((x.where for x in reversed(p.events) if not is_log(x)), f.where)
            ctx.ob(bad is None, f.qual, f.where if bad is None else w, '%s (%s): %s' % (message, when, bad))
            if bad is not None:
                break
    ctx.need(1, n, 'paths of %s' % f.qual)
    return ps


def disagrees(p, want):
    """None, or what a path does otherwise than wanted."""
    r = want.get('raises', False)
    raised = p.outcome[0] != 'return'
    if r and not raised:
        return 'returns %s instead of raising' % show(strip(p.returns))[:120]
    if raised and not r:
        if p.outcome[0] == 'exc' or isinstance(p.outcome[1], tuple) and strip(p.outcome[1])[0] == 'exception':
            return None     # what a callee raises
        return 'raises %s' % (show(strip(p.outcome[1]))[:120] if isinstance(p.outcome[1], tuple) else p.outcome[1])
    if r and r is not True:
        names = [r] if isinstance(r, str) else list(r)
        got = exc_name(p.outcome[1])
        if p.outcome[0] == 'raise' and got is not None and got not in names:
            return 'raises %s instead of %s' % (got, '/'.join(names))
    if 'ret' in want and not raised:
        t = strip(p.returns)
        pats = want['ret'] if isinstance(want['ret'], list) else [want['ret']]
        for q in pats:
            if (q(t, p) if callable(q) else match(q, t) is not None):
                break
        else:
            return 'returns %s' % show(t)[:200]
    for q in want.get('must', ()):
        alt = q if isinstance(q, (list, tuple)) else [q]
        if not any(has_event(p, a) for a in alt):
            return 'does not do %s' % (' / '.join(a if isinstance(a, str) else getattr(a, '__doc__', None) or 'it' for a in alt))
    for q in want.get('never', ()):
        for e in p.events:
            if not is_log(e) and _ev_match(e, q):
                return 'does %s' % show(strip(e.term))[:160]
    return None


# ------------------------------------------------------------------ what a collection is made of
WRAP = {'list', 'tuple', 'set', 'dict', 'frozenset', 'OrderedDict', 'sorted', 'iter', 'deque', '_collType', 'reversed'}


def item_facts(facts, gens=None):
    """Facts about loop items."""
    return [(strip(t), b) for t, b in facts if strip(t)[0] not in ('loop', 'looped', 'empty', 'caught')
            and any(x[0] in ('item', 'index') and (gens is None or x[1] in gens) for x in subterms(strip(t)))]


def loops_of(facts):
    return [strip(t)[1] for t, b in facts if strip(t)[0] in ('loop', 'looped') and b]


def contents(p, t, depth=0):
    """[(elements, generators, conditions, event)] a collection is built from: a comprehension, or a loop that fills it."""
    out = []
    if not isinstance(t, tuple) or depth > 8:
        return out
    if t[0] == 'new':
        nid = t[1]
        inner = contents(p, t[2], depth + 1)
        out += inner
        for e in p.events:
            if e.kind not in ('store', 'mutate'):
                continue
            x = e.term
            if e.kind == 'store' and x[0] == 'sub':
                key, x = x[2], x[1]
            else:
                key = None
            while isinstance(x, tuple) and x[0] == 'old':
                x = x[1]
            if not (isinstance(x, tuple) and x[0] == 'new' and x[1] == nid):
                continue
            gens = loops_of(e.facts)
            if e.kind == 'store':
                out.append(((strip(key), strip(e.value)) if key is not None else (strip(e.value),), gens, item_facts(e.facts), e))
            else:
                for a in e.value[2]:
                    sub = contents(p, a, depth + 1)
                    if sub and callname(e.value) in ('update', 'extend'):
                        out += [(el, gens + g, item_facts(e.facts) + c, e) for el, g, c, _ in sub]
                    else:
                        out.append(((strip(a),), gens, item_facts(e.facts), e))
        return out
    if t[0] == 'alts':
        for x in t[1]:
            out += contents(p, x, depth + 1)
        return out
    if t[0] == 'old':
        return contents(p, t[1], depth + 1)
    if t[0] == 'comp':
        return [(tuple(strip(x) for x in t[2]), [strip(g) for g in t[3]], [(strip(f), b) for f, b in t[4]], None)]
    if t[0] == 'call' and callname(t) in WRAP and t[2]:
        return contents(p, t[2][-1], depth + 1)
    return out
