"""Loops that only fill a new collection, written as the comprehension they stand for."""
import ast
import copy


def _init(s):
    """(name, kind) of v = [] / {} / set() / list() / dict()."""
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
        return None
    v, n = s.value, s.targets[0].id
    if isinstance(v, ast.List) and not v.elts:
        return n, 'list'
    if isinstance(v, ast.Dict) and not v.keys:
        return n, 'dict'
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not v.args and not v.keywords:
        if v.func.id in ('list', 'set', 'dict'):
            return n, v.func.id
    return None


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def _fill(s, var, kind):
    """(elements, generators) of a loop whose only effect is to add to var."""
    gens = []
    while True:
        if isinstance(s, ast.For) and not s.orelse:
            gens.append(ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0))
            body = [x for x in s.body if not _nothing(x)]
        elif isinstance(s, ast.If) and not s.orelse and gens:
            gens[-1].ifs.append(s.test)
            body = [x for x in s.body if not _nothing(x)]
        else:
            break
        while len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and \
                isinstance(body[0].body[0], ast.Continue) and gens:
            gens[-1].ifs.append(ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=body[0].test), body[0].test))
            body = body[1:]
        if len(body) != 1:
            return None
        s = body[0]
    if not gens:
        return None
    elts = None
    if kind == 'dict' and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and \
            isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == var:
        elts = (s.targets[0].slice, s.value)
    if kind in ('list', 'set') and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
            s.value.func.attr == {'list': 'append', 'set': 'add'}[kind] and isinstance(s.value.func.value, ast.Name) and \
            s.value.func.value.id == var and len(s.value.args) == 1 and not s.value.keywords:
        elts = (s.value.args[0],)
    if elts is None:
        return None
    for e in elts:
        if var in names(e) or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(e)):
            return None
    for g in gens:
        if var in names(g.iter) or any(var in names(c) for c in g.ifs) or not isinstance(g.target, (ast.Name, ast.Tuple)):
            return None
    return elts, gens


def _nothing(s):
    return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name))


def _block(body, fn):
    i = 0
    while i < len(body):
        k = _init(body[i])
        if k:
            var, kind = k
            j = i + 1
            while j < len(body):
                s = body[j]
                f = _fill(s, var, kind) if isinstance(s, ast.For) else None
                if f:
                    elts, gens = f
                    inner = {x for g in gens for x in names(g.target)}
                    if _used_elsewhere(fn, s, inner):
                        break
                    if kind == 'dict':
                        comp = ast.DictComp(key=elts[0], value=elts[1], generators=gens)
                    elif kind == 'set':
                        comp = ast.SetComp(elt=elts[0], generators=gens)
                    else:
                        comp = ast.ListComp(elt=elts[0], generators=gens)
                    new = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=comp, type_comment=None)
                    ast.copy_location(new, s)
                    ast.copy_location(comp, s)
                    ast.copy_location(new.targets[0], s)
                    body[j] = ast.fix_missing_locations(new)
                    del body[i]
                    i -= 1
                    break
                if var in names(s) or not isinstance(s, (ast.Assign, ast.Expr, ast.Import, ast.ImportFrom)):
                    break
                j += 1
        i += 1


def _used_elsewhere(fn, loop, inner):
    """Are the loop variables read outside of the loop (other loops and comprehensions bind their own)?"""
    inside = {id(x) for x in ast.walk(loop)}
    own = set()
    for x in ast.walk(fn):
        if id(x) in inside:
            continue
        if isinstance(x, (ast.For, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            tg = names(x.target) if isinstance(x, ast.For) else {y for g in x.generators for y in names(g.target)}
            if tg & inner:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id in tg:
                        own.add(id(y))
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in inner and id(x) not in inside and id(x) not in own and isinstance(x.ctx, ast.Load):
            return True
    return False


def desugar(tree):
    for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        for x in list(ast.walk(fn)):
            for f in ('body', 'orelse', 'finalbody'):
                l = getattr(x, f, None)
                if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                    _block(l, fn)
    return tree
