"""P09: every keyword of the JSON Schema vocabulary is enforced."""
import ast
import copy

from ..core import rule
from ..lib import *
from . import _build
from .p04_conversion import kw

A0, A1, A2, A3 = ('arg', 0), ('arg', 1), ('arg', 2), ('arg', 3)

STANDARD = ['additionalItems', 'additionalProperties', 'allOf', 'anyOf', 'const', 'contains', 'dependencies', 'enum', 'exclusiveMaximum',
            'exclusiveMinimum', 'format', 'if', 'items', 'maxItems', 'maxLength', 'maxProperties', 'maximum', 'minItems', 'minLength',
            'minProperties', 'minimum', 'multipleOf', 'oneOf', 'not', 'pattern', 'patternProperties', 'properties', 'propertyNames',
            'required', 'uniqueItems']
SAME = {'definitions': 'properties', '$defs': 'properties'}
OWN = {'isPathDir': 'is_dir', 'isPathFile': 'is_file', 'isPathExisting': 'exists'}


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        return copy.deepcopy(self.env[n.id]) if n.id in self.env else n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) == 2 and isinstance(n.args[1], ast.Constant):
            return ast.copy_location(ast.Attribute(n.args[0], n.args[1].value, ast.Load()), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'rstrip' and isinstance(n.func.value, ast.Constant) and \
                all(isinstance(a, ast.Constant) for a in n.args):
            return ast.copy_location(ast.Constant(n.func.value.value.rstrip(*[a.value for a in n.args])), n)
        return n


def literal_items(mod, it):
    """Elements a module-level loop goes through, as expressions (tuples for pairs), or None."""
    if isinstance(it, ast.Name) and it.id in mod.assigns:
        it = mod.assigns[it.id]
    if isinstance(it, (ast.List, ast.Tuple, ast.Set)):
        return it.elts
    if isinstance(it, ast.Dict):
        return it.keys
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys') and not it.args:
        d = it.func.value
        if isinstance(d, ast.Name) and d.id in mod.assigns:
            d = mod.assigns[d.id]
        if isinstance(d, ast.Dict):
            return d.keys if it.func.attr == 'keys' else [ast.Tuple([k, v], ast.Load()) for k, v in zip(d.keys, d.values)]
    return None


def toplevel(mod, body=None, env=None):
    """Statements run when a module is imported, literal loops unrolled."""
    for st in (mod.tree.body if body is None else body):
        if isinstance(st, ast.For):
            els = literal_items(mod, st.iter)
            if els is None:
                yield st
                continue
            for e in els:
                sub = dict(env or {})
                if isinstance(st.target, ast.Name):
                    sub[st.target.id] = e
                elif isinstance(st.target, (ast.Tuple, ast.List)) and isinstance(e, (ast.Tuple, ast.List)):
                    sub.update({t.id: v for t, v in zip(st.target.elts, e.elts) if isinstance(t, ast.Name)})
                yield from toplevel(mod, st.body, sub)
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            yield from toplevel(mod, st.body, env)
        else:
            yield Subst(env).visit(copy.deepcopy(st)) if env else st


def registrations(repo, regname):
    """{key: (what is registered, module, line)} of a registry at import time."""
    out = {}
    for mod in repo.modules.values():
        if regname not in mod.assigns and regname not in mod.imports:
            continue
        for st in toplevel(mod):
            pairs = []
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                pairs = [(d, st.name) for d in st.decorator_list]
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Call) and st.value.args:
                pairs = [(st.value.func, st.value.args[0])]
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Subscript):
                t = st.targets[0]
                if ast.unparse(t.value).startswith(regname) and isinstance(t.slice, ast.Constant):
                    out.setdefault(t.slice.value, []).append((st.value, mod, st.lineno))
                continue
            for d, what in pairs:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'register' and \
                        isinstance(d.func.value, ast.Name) and d.func.value.id == regname:
                    a = d.args[0] if d.args else None
                    key = a.value if isinstance(a, ast.Constant) else what if a is None and isinstance(what, str) else None
                    out.setdefault(key, []).append((what, mod, st.lineno))
    return out


@rule('P09', 'keywords', 'Every keyword is checked by the function of the jsonschema library of that name, or by the one made for it here.')
def p09_keywords(ctx):
    regs = registrations(ctx.repo, 'jsch_validators_registry')
    where = 'ngoschema/managers/jsch_validators.py'
    for k in STANDARD + list(SAME):
        hits = regs.get(k)
        ok = bool(hits)
        ctx.ob(ok, k, where, 'the keyword %s is not checked' % k)
        if not ok:
            continue
        w, mod, line = hits[-1]
        name = ast.unparse(w) if isinstance(w, ast.AST) else w
        want = SAME.get(k, k)
        base = name.rsplit('.', 1)[-1].rstrip('_')
        src = name.split('.')[0]
        lib = mod.imports.get(src, ('', ''))
        ctx.ob(base == want and 'jsonschema' in '.'.join(x or '' for x in lib) or isinstance(w, str), k, '%s:%d' % (where, line),
               'the keyword %s is checked by %s' % (k, name))
    for k in list(OWN) + ['$recursiveRef']:
        ctx.ob(k in regs, k, where, 'the keyword %s is not checked' % k)
    # nothing is taken away
    for m in ctx.repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'unregister', 'clear', 'popitem') and \
                    'jsch_validators_registry' in ast.unparse(n.func.value):
                ctx.ob(False, 'jsch_validators_registry', '%s:%d' % (m.relpath, n.lineno), 'keywords are removed')


@rule('P09', 'validators', 'The validators are made with all these keywords, and with the types of the library.')
def p09_validators(ctx):
    mod = next(m for m in ctx.repo.modules.values() if m.name.endswith('jsch_validators'))
    made = 0
    for m in ctx.repo.modules.values():
        for name, v in m.assigns.items():
            if isinstance(v, ast.Call) and called_name(v) == 'create' and m.imports.get('create', ('',))[0].startswith('jsonschema'):
                made += 1
                kws = {k.arg: ast.unparse(k.value) for k in v.keywords}
                val = kws.get('validators') or (ast.unparse(v.args[1]) if len(v.args) > 1 else '')
                ctx.ob('jsch_validators_registry' in val and '{' not in val, name, m.relpath, 'the validators are %s' % val)
            if isinstance(v, ast.Call) and called_name(v) == 'extend' and m.imports.get('extend', ('',))[0].startswith('jsonschema'):
                made += 1
                kws = {k.arg: ast.unparse(k.value) for k in v.keywords}
                ctx.ob(kws.get('type_checker') == 'type_builder', name, m.relpath, 'types are checked by %s' % kws.get('type_checker'))
                ctx.ob('validators' not in kws, name, m.relpath, 'keywords are replaced')
    ctx.need(2, made, 'validators made')
    behave(ctx, 'TypeBuilder.is_type', {'known': ['A0._type_registry.get(A2)', 'A2 in A0._type_registry']}, lambda e:
           {'raises': False, 'ret': ['A0._type_registry.get(A2).check(A1, items=False, convert=False, validate=False)',
                                     'A0._type_registry[A2].check(A1, items=False, convert=False, validate=False)']} if e['known']
           else {'raises': 'UndefinedTypeCheck'}, 'the type of a value')

    def spec(e):
        return {'raises': True} if e['errors'] else {'ret': 'None'}
    behave(ctx, 'TypeBuilder.check_schema', {'errors': lambda t: t[0] in ('loop', 'looped')}, spec, 'checking a schema',
           default={'errors': False})
    f = ctx.func('TypeBuilder.check_schema')
    for p in ctx.paths(f):
        gens = [t[1] for t, b in allfacts(p) if t[0] in ('loop', 'looped', 'empty')]
        ctx.ob(bool(gens) and all(callname(g) == 'iter_errors' and g[2][:1] == (A1,) for g in gens), f.qual, f.where, 'the errors are not those of the schema')


@rule('P09', 'custom', 'The path keywords refuse a path which is not what they tell, and only that one.')
def p09_custom(ctx):
    regs = registrations(ctx.repo, 'jsch_validators_registry')
    for k, meth in OWN.items():
        if k not in regs:
            continue
        w, mod, line = regs[k][-1]
        name = w if isinstance(w, str) else ast.unparse(w)
        behave(ctx, '%s:%s' % (mod.name.replace('ngoschema.', ''), name),
               {'agree': 'A2.%s() == A1' % meth}, lambda e: {'ret': 'None'} if e['agree'] else {'raises': ('ValidationError', 'InvalidValue')}, k)


@rule('P09', 'recursive', 'A recursive reference validates the instance with what it resolves to, in its scope, which is left afterwards, '
      'on errors too; every error is reported.')
def p09_recursive(ctx):
    regs = registrations(ctx.repo, 'jsch_validators_registry')
    names = [w for w, mod, line in regs.get('$recursiveRef', ()) if isinstance(w, str)] + ['extends']
    for name in names:
        f = ctx.func('jsch_validators:' + name)
        n = 0
        for p in ctx.paths(f, implicit=True):
            pushes, pops = p.calls('push_scope'), p.calls('pop_scope')
            exc = p.outcome[0] == 'exc'
            inpush = exc and not p.calls('descend')
            ctx.ob(len(pushes) == len(pops) or inpush, f.qual, f.where, 'the scope is entered %d times and left %d times' % (len(pushes), len(pops)))
            d = p.calls('descend')
            if pushes and pops and d:
                i, j, k = (p.events.index(x) for x in (pushes[0], d[0], pops[0]))
                ctx.ob(i < j < k, f.qual, f.where, 'the scope is not that of the reference')
            for e in pushes:
                ctx.ob(match('A0.resolver.resolve(A1)[0]', strip(e.term)[2][0]) is not None, f.qual, e.where, 'the scope is %s' % show(strip(e.term)))
            if not p.normal:
                continue
            n += 1
            ctx.ob(len(d) == 1, f.qual, f.where, 'the instance is not validated')
            for e in d:
                t = strip(e.term)
                ctx.ob(t[2][0] == A2 and match('A0.descend', t[1]) is not None and contains(t[2][1], A1), f.qual, e.where,
                       'the instance is validated by %s' % show(t)[:120])
            if name != 'extends' and any(t[0] == 'cmp' and 'getattr' in show(t, -9) and not b for t, b in allfacts(p)):
                rec = [b for t, b in allfacts(p) if 'recursiveAnchor' in show(t, -9)]
                ctx.ob(bool(rec) and rec[0] == bool(pushes), f.qual, f.where, 'the scope of a recursive anchor is not entered')
            ys = [e for e in p.events if e.kind in ('yield', 'yieldfrom')]
            looped = any(t[0] in ('loop', 'looped') and b and callname(t[1]) == 'descend' for t, b in allfacts(p))
            for e in ys:
                v = strip(e.value if e.value is not None else e.term)
                ctx.ob(v[0] == 'item' and callname(v[1]) == 'descend' or callname(v) == 'descend', f.qual, e.where, 'an error is %s' % show(v)[:80])
            ctx.ob(bool(ys) or not looped, f.qual, f.where, 'errors are lost')
        ctx.need(2, n, 'paths of %s' % name)


TYPES = {'boolean': 'Boolean', 'integer': 'Integer', 'number': 'Number', 'string': 'String', 'array': 'Array', 'object': 'Object',
         'null': 'Null', 'enum': 'Enum', 'date': 'Date', 'time': 'Time', 'datetime': 'Datetime', 'uri': 'Uri', 'path': 'Path',
         'tuple': 'Tuple', 'set': 'Set', 'foreignKey': 'ForeignKey', 'true': '_True', 'false': '_False', 'module': 'Module',
         'function': 'Function', 'class': 'Class', 'method': 'Method', 'callable': 'Callable', 'id': 'Id'}
PY = {'Boolean': 'bool', 'Integer': 'int', 'Number': 'Decimal', 'String': 'str', 'Date': 'date', 'Time': 'time', 'Datetime': 'Arrow'}


@rule('P09', 'types', 'Every type name stands for the class made for it, whose values are of the Python type of that name.')
def p09_types(ctx):
    got = {}
    for m in ctx.repo.modules.values():
        for c in m.classes.values():
            for d in c.node.decorator_list:
                if isinstance(d, ast.Call) and called_name(d) == 'register_type' and d.args and isinstance(d.args[0], ast.Constant):
                    got.setdefault(d.args[0].value, []).append(c)
    for k, cn in TYPES.items():
        cs = got.get(k, [])
        ctx.ob(len(cs) == 1 and cs[0].name == cn, cn, 'type %s' % k, 'the type %s is %s' % (k, ', '.join(c.name for c in cs) or 'nothing'))
    for cn, py in PY.items():
        c = ctx.repo.cls(cn)
        r = ctx.repo.class_attr(c, '_pyType')
        v = ast.unparse(r[1]) if r else None
        ctx.ob(v is not None and v.split('.')[-1] == py, cn, cn, 'values of %s are of the python type %s' % (cn, v))
    # what is decorated is registered and given the schema of its type
    f = ctx.func('TypeBuilder.register_type')
    inner = [x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node]
    ok = any(isinstance(n, ast.Assign) and any('_type_registry[' in ast.unparse(t) for t in n.targets) for x in inner for n in ast.walk(x))
    ctx.ob(ok, f.qual, f.where, 'types are not registered')


def attributes(p, at=('arg', 3)):
    """{name: value} of the attributes of the class made on a path."""
    out = {}
    for e in p.stores():
        t = e.term
        if isinstance(t, tuple) and t[0] == 'sub':
            ok, k = const_value(strip(t[2]))
            r = strip(t[1])
            if ok and isinstance(k, str) and k.startswith('_') and r in (at, ('dict', ())):
                out[k] = strip(e.value)
    return out


def names_of(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def made(ctx):
    """A type which is no object nor array: what it is made of."""
    f = ctx.func('TypeProtocol.build')
    n = 0
    ret = [s for s in f.node.body if isinstance(s, ast.Return)]
    wanted = {'attrs[%s]' % k for k in ('_id', '_schema', '_jsValidator', '_enum', '_default')} | {x for r in ret for x in names_of(r) if x != 'attrs'}
    sl = slice_function(f, wanted, stop={'cname', 'clsname', 'logging', 'type_builder'})
    sl.node.body = list(sl.node.body) + ret
    ctx.functions.add(f.key)
    for p in Analyzer(ctx.repo, ctx.baseline, unroll=False, zero=False).paths(sl):
        if not p.normal:
            continue
        n += 1
        ctx.npaths += 1
        r = strip(p.returns)
        ctx.ob(callname(r) == 'type' and len(r[2]) == 3, f.qual, f.where, 'what is made is %s' % show(r)[:80])
        if callname(r) != 'type' or len(r[2]) != 3:
            continue
        fs = allfacts(p)
        bases = ('tuple', (r[2][1],) + tuple(t for t, b in fs if not b and callname(t) == 'tuple'))
        at = attributes(p)
        env = assign(fs, {'ref': "A1.get('$ref')", 'enum': "'enum' in A1", 'type': "'type' in A1", 'fk': "'foreignKey' in A1"})
        for k, pat in (('ref', "type_builder.load(scope(A1.get('$ref'), A0))"), ('type', "type_builder.get_type(A1['type'])"),
                       ('enum', 'Enum'), ('fk', 'ForeignKey')):
            has = find(pat, bases) is not None
            ctx.ob(has == env.get(k, has), f.qual, f.where, 'a schema %s %s is %sof the type it tells' % ('with' if env.get(k) else 'without', k, '' if has else 'not '))
            ctx.ob(k in env, f.qual, f.where, '%s is not looked at' % k)
        ctx.ob(contains(bases, A2) and find("A1.get('extends', ...)", bases) is not None and find('type_builder.load(scope(x_, A0))', bases) is not None,
               f.qual, f.where, 'the bases of a type are %s' % show(bases)[:80])
        sch = at.get('_schema', NONE)
        cm = find('ReadOnlyChainMap(A1, ...)', sch)
        ctx.ob(cm is not None and '_schema' in show(sch, -99), f.qual, f.where, 'the schema of a type is %s' % show(sch)[:100])
        up = [x[1] for x in subterms(sch) if x[0] == 'attr' and x[2] == '_schema' and x[1][0] == 'item']
        if up:
            ctx.ob(any(contains(x, A2) for x in up) and (any('load' in show(x, -99) for x in up) or find('type_builder.load(scope(x_, A0))', ('tuple', bases[1][1:])) is not None), f.qual, f.where,
                   'the schema of a type has the keywords of %s only' % '; '.join(show(x)[:60] for x in up))
        js = at.get('_jsValidator', NONE)
        ctx.ob(callname(js) == 'DefaultValidator' and bool(js[2]) and js[2][0] in (sch, A1), f.qual, f.where, 'the validator is %s' % show(js)[:100])
        rs = kw(js, 'resolver')
        ctx.ob(rs is not None and callname(rs) == 'create' and kw(rs, 'uri') == A0, f.qual, f.where, 'references are not resolved from where the type is declared')
        ctx.ob(at.get('_id') == A0, f.qual, f.where, 'the address of a type is %s' % show(at.get('_id', NONE)))
        ctx.ob(('_enum' in at) == bool(env.get('enum')) and match("A1['enum']", at.get('_enum', parse_pattern("A1['enum']"))) is not None, f.qual, f.where, 'the values of an enum are lost')
        dflt = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and t[2] == const('default') and t[3] == sch]
        d = at.get('_default')
        ctx.ob(bool(dflt), f.qual, f.where, 'the default is not looked at')
        if dflt:
            ok = match("x_['default']", d) is not None and d[1] == sch if dflt[0] and d is not None else \
                d is None or bool(env.get('enum')) and match("A1['enum'][0]", d) is not None
            ctx.ob(ok and (d is not None or not dflt[0]), f.qual, f.where, 'the default of a type is %s' % (show(d)[:80] if d else None))
    ctx.need(4, n, 'types made')


@rule('P09', 'whole', 'A type validates with its whole schema: what it declares, then what the types it is made from declare.')
def p09_whole(ctx):
    made(ctx)
    f, ps = _build.Slices.paths(ctx, '_jsValidator')
    n = 0
    for p in ps:
        for e in p.stores():
            if strip(e.term)[0] == 'sub' and const_value(strip(e.term)[2]) == (True, '_jsValidator'):
                n += 1
                v = strip(e.value)
                ctx.ob(callname(v) == 'DefaultValidator' and bool(v[2]) and (v[2][0] == A1 or contains(v[2][0], A1)), f.qual, e.where,
                       'the validator is %s' % show(v)[:100])
    ctx.need(1, n, 'validators of objects')
    f = ctx.func('ArrayProtocol.build')
    for p in ctx.paths(f):
        if p.normal:
            at = attributes(p)
            ctx.ob(at.get('_schema') == A1, f.qual, f.where, 'the schema of an array is %s' % show(at.get('_schema', NONE)))
            for a, k in (('_minItems', 'minItems'), ('_maxItems', 'maxItems'), ('_uniqueItems', 'uniqueItems')):
                ctx.ob(match("A1.get('%s', Array.%s)" % (k, a), at.get(a, NONE)) is not None, f.qual, f.where, '%s is %s' % (k, show(at.get(a, NONE))))
    f = ctx.func('Validator.__init__')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        sch = [strip(e.value) for e in p.stores() if strip(e.term) == ('attr', A0, '_schema')]
        ctx.ob(bool(sch) and callname(sch[-1]) == 'ReadOnlyChainMap' and callname(sch[-1][2][0]) == 'untype_schema' and
               sch[-1][2][1] in (('attr', A0, '_schema'), ('old', ('attr', A0, '_schema'))), f.qual, f.where,
               'the schema of a type is %s' % (show(sch[-1])[:100] if sch else None))
        chk = p.calls('check_schema')
        ctx.ob(bool(chk), f.qual, f.where, 'the schema given is not checked')
        js = [strip(e.value) for e in p.stores() if strip(e.term) == ('attr', A0, '_jsValidator')]
        ctx.ob(bool(js) and callname(js[-1]) == 'DefaultValidator' and bool(sch) and (contains(unold(js[-1]), unold(sch[-1])) or contains(unold(js[-1]), ('attr', A0, '_schema'))), f.qual, f.where,
               'the validator is not that of the schema')


@rule('P09', 'errors', 'Every keyword of the schema which is not excluded by name is checked and every error refuses the value.')
def p09_errors(ctx):
    from .p04_conversion import p04_errors
    p04_errors(ctx)
