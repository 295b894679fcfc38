#!/usr/bin/env python3
"""Mutants and behaviour-preserving rewritings of the sources, to measure the checks (not part of any check).

    mutate.py bugs  P04 [FUNC,..] [-j N]     mutants of the functions: lists those no rule of the property reports
    mutate.py same  P04 [FUNC,..] [-j N]     rewritings that keep the behaviour: lists those a rule reports
    mutate.py all-same FUNC,..               the same for all properties

Without FUNC: the functions the property looked at (evidence file).  Sources are changed in memory only.
"""
import ast
import contextlib
import copy
import difflib
import io
import json
import multiprocessing
import os
import signal
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
from sa import core, rules  # noqa: E402,F401
from sa.model import Repo  # noqa: E402

ROOT = '/repo'


def find_funcs(names):
    repo = Repo(ROOT)
    out = []
    for m in repo.modules.values():
        for f in [f for f in repo.all_functions(nested=False) if f.module is m]:
            if names is None or f.qual in names or f.key in names or f.node.name in names:
                out.append((m.relpath, f.qual, f.node.lineno))
    return out


def locate(tree, line):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno == line:
            return n


# ------------------------------------------------------------------ mutants
class Bugs:
    """Numbered mutations of a function: apply(fn, k) does the k-th one, returns a description or None."""

    def sites(self, fn):
        out = []
        for n in ast.walk(fn):
            for m in self.muts(n, fn):
                out.append(m)
        return out

    def muts(self, n, fn):
        def setf(obj, field, val, what):
            def go():
                setattr(obj, field, val() if callable(val) else val)
            return (what, go)
        for field in ('body', 'orelse', 'finalbody'):
            l = getattr(n, field, None)
            if isinstance(l, list):
                for i, s in enumerate(l):
                    if not isinstance(s, ast.stmt):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if is_log(s) or isinstance(s, (ast.Import, ast.ImportFrom, ast.Global)):
                        continue
                    def go(l=l, i=i):
                        l[i] = ast.copy_location(ast.Pass(), l[i])
                    yield ('drop %s' % ast.unparse(s).split('\n')[0][:90], go)
                    if isinstance(s, (ast.If, ast.For, ast.While, ast.With)) and not getattr(s, "orelse", None):
                        def go2(l=l, i=i):
                            s = l[i]
                            l[i:i + 1] = s.body
                        if isinstance(s, (ast.If, ast.With)):
                            yield ('unwrap %s' % ast.unparse(s).split('\n')[0][:90], go2)
                    if i + 1 < len(l) and not isinstance(l[i + 1], (ast.Return, ast.Raise)) and isinstance(s, (ast.Expr, ast.Assign)) and \
                            isinstance(l[i + 1], (ast.Expr, ast.Assign)) and not is_log(l[i + 1]):
                        def go3(l=l, i=i):
                            l[i], l[i + 1] = l[i + 1], l[i]
                        yield ('swap %s' % ast.unparse(s).split('\n')[0][:90], go3)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield setf(n, 'test', lambda: ast.UnaryOp(ast.Not(), n.test), 'negate %s' % ast.unparse(n.test)[:90])
        if isinstance(n, ast.comprehension) and n.ifs:
            for i in range(len(n.ifs)):
                def go(n=n, i=i):
                    del n.ifs[i]
                yield ('unfilter %s' % ast.unparse(n.ifs[i])[:90], go)
        if isinstance(n, ast.BoolOp):
            yield setf(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And(), 'and/or %s' % ast.unparse(n)[:90])
            for i in range(len(n.values)):
                def go(n=n, i=i):
                    del n.values[i]
                    if len(n.values) == 1:
                        n.values.append(n.values[0])
                yield ('drop operand %s of %s' % (ast.unparse(n.values[i])[:50], ast.unparse(n)[:70]), go)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = n.ops[0]
            flips = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
                     ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for c in flips.get(type(o), []):
                yield setf(n, 'ops', [c()], '%s -> %s' % (ast.unparse(n)[:90], c.__name__))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def go(n=n):
                n.operand = ast.UnaryOp(ast.Not(), n.operand)
            yield ('un-not %s' % ast.unparse(n)[:90], go)
        if isinstance(n, ast.Constant) and fn.body and n is not getattr(fn.body[0], 'value', None):
            v = n.value
            if isinstance(v, bool):
                yield setf(n, 'value', not v, '%s -> %s' % (v, not v))
            elif isinstance(v, int):
                yield setf(n, 'value', v + 1, '%s -> %s' % (v, v + 1))
            elif v is None:
                yield setf(n, 'value', 0, 'None -> 0')
            elif isinstance(v, str) and v:
                yield setf(n, 'value', v + 'X', '%r -> X' % v[:30])
        if isinstance(n, ast.Call) and not is_logcall(n):
            for i in range(len(n.keywords)):
                def go(n=n, i=i):
                    del n.keywords[i]
                yield ('drop kw %s of %s' % (n.keywords[i].arg, ast.unparse(n)[:90]), go)
            for i in range(len(n.args)):
                if len(n.args) > 1:
                    def go(n=n, i=i):
                        del n.args[i]
                    if i == len(n.args) - 1 or isinstance(n.args[i], ast.Starred):
                        yield ('drop arg %d of %s' % (i, ast.unparse(n)[:90]), go)
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def go(n=n):
                    n.args = n.args[::-1]
                yield ('swap args of %s' % ast.unparse(n)[:90], go)
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            swaps = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'append': 'extend', 'update': 'setdefault',
                     'lower': 'strip', 'match': 'search', 'search': 'match', 'copy': 'items', 'deepcopy': 'copy', 'startswith': 'endswith',
                     'union': 'intersection', 'difference': 'union', 'values': 'keys', 'keys': 'values'}
            if nm in swaps:
                if isinstance(n.func, ast.Name):
                    yield setf(n.func, 'id', swaps[nm], '%s -> %s' % (ast.unparse(n)[:80], swaps[nm]))
                else:
                    yield setf(n.func, 'attr', swaps[nm], '%s -> %s' % (ast.unparse(n)[:80], swaps[nm]))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                if len(n.elts) > 1:
                    def go(n=n, i=i):
                        del n.elts[i]
                    yield ('drop element %s of %s' % (ast.unparse(n.elts[i])[:50], ast.unparse(n)[:60]), go)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield setf(n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(), 'op of %s' % ast.unparse(n)[:80])
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield setf(n, 'value', ast.Constant(None), 'return None for %s' % ast.unparse(n.value)[:90])
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield setf(n, 'slice', ast.Slice(None, None, None), 'slice of %s' % ast.unparse(n)[:80])
        if isinstance(n, (ast.Continue,)):
            pass


def is_logcall(c):
    return isinstance(c.func, ast.Attribute) and c.func.attr in ('debug', 'info', 'warning', 'error', 'exception') or \
        isinstance(c.func, (ast.Name, ast.Attribute)) and (c.func.id if isinstance(c.func, ast.Name) else c.func.attr).endswith(('Error', 'Exception'))


def is_log(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and is_logcall(s.value)


# ------------------------------------------------------------------ rewritings that keep the behaviour
_n = [0]


def fresh(p='tmp'):
    _n[0] += 1
    return '%s_%d' % (p, _n[0])


def locals_of(fn):
    names = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            names.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            names.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            names |= {(a.asname or a.name).split('.')[0] for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            names.add(x.name)
    return names


def inner_bound(e):
    out = set()
    for x in ast.walk(e):
        if isinstance(x, ast.comprehension):
            out |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        if isinstance(x, ast.Lambda):
            out |= {a.arg for a in x.args.args}
    return out


def used(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def plain(e):
    return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) or
                   isinstance(x, ast.Name) and x.id in ('super', 'locals', '__class__') for x in ast.walk(e))


class Same:
    def sites(self, fn, tree):
        out = []
        loc = locals_of(fn)
        nested = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and x is not fn]
        innodes = {id(y) for x in nested for y in ast.walk(x)}

        def add(what, go):
            out.append((what, go))

        def noop():
            i = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            fn.body.insert(i, ast.parse('None').body[0])
        add('noop', noop)

        args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
        ren = {n: n + '_r' for n in {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args}
        decl = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        ren = {k: v for k, v in ren.items() if k not in decl}
        if ren:
            def rename():
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
            if not any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and {a.arg for a in ast.walk(x.args) if isinstance(a, ast.arg)} & set(ren)
                       for x in nested) and 'locals' not in used(fn):
                add('rename locals', rename)

        for holder in ast.walk(fn):
            if id(holder) in innodes:
                continue
            for field in ('body', 'orelse', 'finalbody'):
                l = getattr(holder, field, None)
                if not isinstance(l, list):
                    continue
                for i, s in enumerate(l):
                    if not isinstance(s, ast.stmt):
                        continue
                    self.stmt(add, fn, tree, holder, field, l, i, s, loc)
        return out

    def stmt(self, add, fn, tree, holder, field, l, i, s, loc):
        head = ast.unparse(s).split('\n')[0][:80]
        if isinstance(s, ast.If):
            if s.orelse:
                def inv():
                    s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
                add('invert %s' % head, inv)
            elif_ = field == 'orelse' and isinstance(holder, ast.If) and len(l) == 1
            if plain(s.test):
                def var():
                    v = fresh('cond')
                    l.insert(l.index(s), ast.Assign([ast.Name(v, ast.Store())], s.test, lineno=s.lineno))
                    s.test = ast.Name(v, ast.Load())
                add('test to variable %s' % head, var)
            if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                def nest():
                    a, b = s.test.values[0], s.test.values[1:]
                    s.test = a
                    inner = ast.If(b[0] if len(b) == 1 else ast.BoolOp(ast.And(), b), s.body, [])
                    s.body = [ast.copy_location(inner, s)]
                add('nest %s' % head, nest)
            if not s.orelse and holder is fn and i == len(l) - 1 and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
                def guard():
                    l[i:i + 1] = [ast.copy_location(ast.If(neg(s.test), [ast.Return(None)], []), s)] + s.body
                add('early return %s' % head, guard)
            if not s.orelse and isinstance(holder, ast.For) and field == 'body' and i == len(l) - 1:
                def cont():
                    l[i:i + 1] = [ast.copy_location(ast.If(neg(s.test), [ast.Continue()], []), s)] + s.body
                add('continue %s' % head, cont)
            if not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(l):
                def els():
                    s.orelse = l[i + 1:]
                    del l[i + 1:]
                add('else %s' % head, els)
            if len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None and not s.orelse and i + 1 < len(l) and \
                    isinstance(l[i + 1], ast.Return) and l[i + 1].value is not None:
                def ifexp():
                    l[i:i + 2] = [ast.copy_location(ast.Return(ast.IfExp(s.test, s.body[0].value, l[i + 1].value)), s)]
                add('if expression %s' % head, ifexp)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            def unifexp():
                e = s.value
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = e.body, e.orelse
                l[l.index(s)] = ast.copy_location(ast.If(e.test, [a], [b]), s)
            add('if statement %s' % head, unifexp)
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            def retvar():
                v = fresh('ret')
                l.insert(l.index(s), ast.Assign([ast.Name(v, ast.Store())], s.value, lineno=s.lineno))
                s.value = ast.Name(v, ast.Load())
            add('return variable %s' % head, retvar)
            self.helper(add, fn, tree, s, loc, head)
        if isinstance(s, ast.Assign) and not isinstance(s.value, (ast.Name, ast.Constant)):
            self.helper(add, fn, tree, s, loc, head)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.SetComp, ast.DictComp)) and plain(s.value):
            if not (used(s.value) & set()):
                def loop():
                    c = s.value
                    v = fresh('res')
                    ren = {n: fresh(n) for n in inner_bound(c)}
                    c = copy.deepcopy(c)
                    for x in ast.walk(c):
                        if isinstance(x, ast.Name) and x.id in ren:
                            x.id = ren[x.id]
                    if isinstance(c, ast.DictComp):
                        st = ast.parse('%s[0] = 0' % v).body[0]
                        st.targets[0].slice, st.value = c.key, c.value
                        init = '{}'
                    elif isinstance(c, ast.SetComp):
                        st = ast.parse('%s.add(0)' % v).body[0]
                        st.value.args = [c.elt]
                        init = 'set()'
                    else:
                        st = ast.parse('%s.append(0)' % v).body[0]
                        st.value.args = [c.elt]
                        init = '[]'
                    body = [st]
                    for g in reversed(c.generators):
                        for t in reversed(g.ifs):
                            body = [ast.If(t, body, [])]
                        body = [ast.For(g.target, g.iter, body, [], lineno=s.lineno)]
                    k = l.index(s)
                    l[k:k] = [ast.parse('%s = %s' % (v, init)).body[0]] + body
                    s.value = ast.Name(v, ast.Load())
                add('loop for %s' % head, loop)
        if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and i > 0 and isinstance(l[i - 1], ast.Assign) and \
                isinstance(l[i - 1].value, ast.List) and not l[i - 1].value.elts and isinstance(l[i - 1].targets[0], ast.Name):
            b, ifs = s.body[0], []
            while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                ifs.append(b.test)
                b = b.body[0]
            nm = l[i - 1].targets[0].id
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and \
                    b.value.func.attr == 'append' and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == nm:
                def compr():
                    l[i - 1].value = ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)])
                    del l[i]
                add('comprehension for %s' % head, compr)
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Call, ast.Attribute)):
            def itvar():
                v = fresh('seq')
                l.insert(l.index(s), ast.Assign([ast.Name(v, ast.Store())], s.iter, lineno=s.lineno))
                s.iter = ast.Name(v, ast.Load())
            add('iterable to variable %s' % head, itvar)
        # a block as a helper
        if isinstance(s, (ast.If, ast.For, ast.Expr, ast.With, ast.Try, ast.Raise)) and plain(s) and not is_log(s) and \
                not any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef)) for x in ast.walk(s)) and \
                not isinstance(s, ast.Expr) | 0:
            bound = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} - inner_bound(s)
            bound |= {x.name for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
            outside = set()
            inside = {id(x) for x in ast.walk(s)}
            for x in ast.walk(fn):
                if id(x) not in inside and isinstance(x, ast.Name):
                    outside.add(x.id)
            if not (bound & outside) and not any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(s)) and '__' not in head[:2] and \
                    not (isinstance(s, ast.Raise) and s.exc is None):
                def block():
                    params = sorted((used(s) & loc) - bound - inner_bound(s))
                    nm = fresh('_extracted')
                    h = ast.parse('def %s(%s):\n    pass' % (nm, ', '.join(params))).body[0]
                    h.body = [copy.deepcopy(s)]
                    tree.body.append(h)
                    l[l.index(s)] = ast.copy_location(ast.parse('%s(%s)' % (nm, ', '.join(params))).body[0], s)
                if not any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(s)) and \
                        not _bare_raise(s):
                    add('block helper %s' % head, block)

    def helper(self, add, fn, tree, s, loc, head):
        e = s.value
        if not plain(e) or isinstance(e, (ast.Attribute, ast.Subscript)):
            return

        def go():
            params = sorted((used(e) & loc) - inner_bound(e))
            nm = fresh('_extracted')
            h = ast.parse('def %s(%s):\n    return 0' % (nm, ', '.join(params))).body[0]
            h.body[0].value = copy.deepcopy(e)
            tree.body.append(h)
            s.value = ast.parse('%s(%s)' % (nm, ', '.join(params))).body[0].value
        add('helper %s' % head, go)


def _bare_raise(s):
    return any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(s)) and not isinstance(s, ast.Try)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(t.ops[0]))
        if m:
            return ast.Compare(t.left, [m()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


# ------------------------------------------------------------------ driver
def variants(kind, rel, line):
    path = os.path.join(ROOT, rel)
    src = open(path, encoding='utf-8').read()
    n = 0
    while True:
        tree = ast.parse(src)
        fn = locate(tree, line) or locate(tree, line + 1)
        if fn is None:
            for x in ast.walk(tree):
                if isinstance(x, ast.FunctionDef) and x.decorator_list and x.decorator_list[0].lineno == line:
                    fn = x
        before = ast.unparse(fn)
        sites = Bugs().sites(fn) if kind == 'bugs' else Same().sites(fn, tree)
        if n >= len(sites):
            return
        what, go = sites[n]
        n += 1
        try:
            go()
            ast.fix_missing_locations(tree)
            new = ast.unparse(tree)
            compile(new, rel, 'exec')
        except Exception as er:
            continue
        after = ast.unparse(fn)
        if after == before:
            continue
        yield what, new, before, after


def judge(job):
    props, rel, qual, what, new, before, after = job
    Repo.OVERRIDES = {rel: new}
    out = io.StringIO()
    from sa.rules import _build
    _build.Slices.cache.clear()
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(300)
    codes = {}
    try:
        with contextlib.redirect_stdout(out):
            for p in props:
                codes[p] = core.run(p, root=ROOT, evidence=False)[0]
    except TimeoutError:
        codes['timeout'] = 3
    finally:
        signal.alarm(0)
    return qual, what, codes, out.getvalue(), before, after


def main():
    kind, props = sys.argv[1], sys.argv[2].split(',')
    names, j = None, 8
    rest = sys.argv[3:]
    show_diff = '-v' in rest
    rest = [r for r in rest if r != '-v']
    if '-j' in rest:
        k = rest.index('-j')
        j = int(rest[k + 1])
        del rest[k:k + 2]
    if rest:
        names = set(rest[0].split(','))
    else:
        names = set()
        for p in props:
            with open(os.path.join(VERIF, 'evidence', '%s.json' % p)) as f:
                names |= set(json.load(f)['coverage']['functions'])
    if props == ['all']:
        props = sorted(core.RULES)
    jobs = []
    for rel, qual, line in find_funcs(names):
        for what, new, before, after in variants(kind, rel, line):
            jobs.append((props, rel, qual, what, new, before, after))
    print(len(jobs), 'variants of', len(names), 'functions', flush=True)
    n = bad = 0
    with multiprocessing.Pool(j, maxtasksperchild=50) as pool:
        for qual, what, codes, out, before, after in pool.imap_unordered(judge, jobs):
            n += 1
            caught = any(c == 1 for c in codes.values())
            if kind == 'bugs' and not caught or kind == 'same' and any(codes.values()):
                bad += 1
                print('%s %s: %s %s' % ('MISSED' if kind == 'bugs' else 'ALARM', qual, what, {k: v for k, v in codes.items() if v} or ''))
                if kind == 'same':
                    print('    ' + '\n    '.join(x[:260] for x in out.strip().split('\n')[:3]))
                if show_diff:
                    print('\n'.join('      ' + x for x in difflib.unified_diff(before.split('\n'), after.split('\n'), lineterm='', n=1) if
                                    not x.startswith(('---', '+++'))))
                sys.stdout.flush()
    print('%d variants, %d %s' % (n, bad, 'missed' if kind == 'bugs' else 'alarms'))


if __name__ == '__main__':
    main()
