"""P10: the shipped schemas and the classes made from them fit together."""
import ast
import json
import os
from urllib.parse import unquote, urldefrag, urljoin, urlsplit

from ..core import rule
from ..lib import *
from ..model import Repo
from .p09_keywords import TYPES

MAIN = ('https://numengo.org/',)
LISTS = ('required', 'readOnly', 'notSerialized', 'notValidated', 'primaryKeys')


def norm(u):
    return urlsplit(u).geturl()


def load_docs(ctx):
    """The schema files which are in use: a class or a setting tells them, or one of these refers to them."""
    docs = all_docs(ctx)
    todo = [norm(urldefrag(u)[0]) for c, u, w in declared(ctx)]
    todo += [norm(urldefrag(v)[0]) for k, v in settings(ctx) if isinstance(v, str)]
    used = set()

    def strings(x):
        if isinstance(x, str):
            yield x
        elif isinstance(x, dict):
            for k, v in x.items():
                yield from strings(v)
        elif isinstance(x, list):
            for v in x:
                yield from strings(v)
    while todo:
        u = todo.pop()
        if u in docs and u not in used:
            used.add(u)
            todo += [norm(urldefrag(urljoin(u, x))[0]) for x in strings(docs[u][1]) if '/' in x]
    return {u: d for u, d in docs.items() if u in used}


def all_docs(ctx):
    """{uri: (path, document)} of the schema files of the package."""
    out = {}
    top = os.path.join(ctx.repo.root, Repo.PKG, 'schemas')
    for d, ds, fs in sorted(os.walk(top)):
        for f in sorted(fs):
            if not f.endswith('.json'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, ctx.repo.root)
            try:
                with open(p, encoding='utf-8') as fp:
                    doc = json.load(fp)
            except ValueError as er:
                ctx.ob(False, rel, rel, 'does not parse: %s' % er)
                continue
            uri = norm(doc.get('$id', doc.get('id', os.path.splitext(f)[0])).rstrip('#'))
            ctx.ob(uri not in out, rel, rel, 'has the address of %s' % (out.get(uri, ('',))[0]))
            out[uri] = (rel, doc)
    return out


def fragment(doc, frag):
    """(found, what)"""
    parts = [x for x in unquote(frag).lstrip('/').split('/')] if frag.strip('/') else []
    for x in parts:
        x = x.replace('~1', '/').replace('~0', '~')
        if isinstance(doc, list) and x.isdigit() and int(x) < len(doc):
            doc = doc[int(x)]
        elif isinstance(doc, dict) and x in doc:
            doc = doc[x]
        else:
            return False, None
    return True, doc


def resolve(docs, ref, base):
    uri, frag = urldefrag(urljoin(base, ref) if base else ref)
    uri = norm(uri)
    if uri not in docs:
        return False, None, uri
    ok, what = fragment(docs[uri][1], frag)
    return ok, what, uri


def schemas(doc, path='', is_schema=True):
    """(path, schema) of the schemas of a document."""
    if not isinstance(doc, dict):
        return
    yield path, doc
    for k in ('$defs', 'definitions', 'properties', 'patternProperties'):
        for n, s in (doc.get(k) or {}).items() if isinstance(doc.get(k), dict) else ():
            yield from schemas(s, '%s/%s/%s' % (path, k, n))
    for k in ('items', 'additionalProperties', 'not', 'if', 'then', 'else', 'contains', 'propertyNames', 'additionalItems'):
        s = doc.get(k)
        if isinstance(s, dict):
            yield from schemas(s, '%s/%s' % (path, k))
        elif isinstance(s, list):
            for i, x in enumerate(s):
                yield from schemas(x, '%s/%s/%d' % (path, k, i))
    for k in ('allOf', 'anyOf', 'oneOf'):
        for i, x in enumerate(doc.get(k) or ()):
            yield from schemas(x, '%s/%s/%d' % (path, k, i))


def properties(docs, schema, uri, seen=()):
    """(names, open): names of the properties of a schema, inherited ones included."""
    names = set(schema.get('properties') or ())
    for r in list(schema.get('extends') or ()) + ([schema['$ref']] if isinstance(schema.get('$ref'), str) else []):
        ok, s, u = resolve(docs, r, uri)
        if ok and isinstance(s, dict) and (u, r) not in seen:
            names |= properties(docs, s, u, seen + ((u, r),))
    return names


@rule('P10', 'references', 'Every reference, extended schema and foreign schema of the shipped schemas is there.')
def p10_refs(ctx):
    docs = load_docs(ctx)
    n = 0
    for uri, (rel, doc) in docs.items():
        for path, s in schemas(doc):
            refs = [s[k] for k in ('$ref', '$recursiveRef') if isinstance(s.get(k), str)]
            if isinstance(s.get('extends'), list):
                refs += [x for x in s['extends'] if isinstance(x, str)]
            fk = s.get('foreignKey')
            if isinstance(fk, dict) and isinstance(fk.get('foreignSchema'), str):
                refs.append(fk['foreignSchema'])
            for r in s.get('relationships') or () if isinstance(s.get('relationships'), dict) else ():
                x = s['relationships'][r]
                if isinstance(x, dict) and isinstance(x.get('foreignSchema'), str):
                    refs.append(x['foreignSchema'])
            for r in refs:
                n += 1
                ok, what, u = resolve(docs, r, uri)
                if not ok and urlsplit(r).netloc and norm(urldefrag(r)[0]) not in docs and not r.startswith(MAIN):
                    continue    # a document which is not shipped
                ctx.ob(ok, '%s#%s' % (rel, path), '%s#%s' % (rel, path), '%s is not found' % r)
                ctx.ob(not ok or isinstance(what, (dict, bool)), '%s#%s' % (rel, path), '%s#%s' % (rel, path), '%s is no schema' % r)
    ctx.need(40, n, 'references')


@rule('P10', 'types', 'Every type the shipped schemas declare is one the library provides.')
def p10_types(ctx):
    docs = load_docs(ctx)
    known = {a.value for m in ctx.repo.modules.values() for c in m.classes.values() for d in c.node.decorator_list
             if called_name(d) == 'register_type' for a in d.args if isinstance(a, ast.Constant)} | set(TYPES)
    n = 0
    for uri, (rel, doc) in docs.items():
        if not uri.startswith(MAIN):
            continue
        for path, s in schemas(doc):
            t = s.get('type')
            for x in [t] if isinstance(t, str) else t if isinstance(t, list) else ():
                n += 1
                ctx.ob(x in known, '%s#%s' % (rel, path), '%s#%s' % (rel, path), 'the type %s is not known' % x)
    ctx.need(60, n, 'types')


@rule('P10', 'names', 'Every name the shipped schemas constrain is a property of theirs.')
def p10_names(ctx):
    docs = load_docs(ctx)
    n = 0
    for uri, (rel, doc) in docs.items():
        if not uri.startswith(MAIN):
            continue
        for path, s in schemas(doc):
            if not isinstance(s.get('properties'), dict) and not s.get('extends'):
                continue
            names = properties(docs, s, uri)
            where = '%s#%s' % (rel, path)
            for k in LISTS:
                for x in s.get(k) or () if isinstance(s.get(k), list) else ():
                    n += 1
                    ctx.ob(x in names or str(x).startswith('$') or s.get('additionalProperties') is True, where, where, '%s: %s is no property' % (k, x))
            for x, y in (s.get('aliases') or {}).items() if isinstance(s.get('aliases'), dict) and path.split('/')[-2:-1] != ['properties'] else ():
                n += 1
                ctx.ob(y in names, where, where, 'the alias %s stands for %s, no property' % (x, y))
            for x, ys in (s.get('dependencies') or {}).items() if isinstance(s.get('dependencies'), dict) else ():
                for y in [x] + (ys if isinstance(ys, list) else []):
                    n += 1
                    ctx.ob(y in names, where, where, 'dependencies: %s is no property' % y)
    ctx.need(15, n, 'constrained names')


def declared(ctx):
    """[(class, address, line)] of the classes which tell their schema."""
    for m in ctx.repo.modules.values():
        for c in m.classes.values():
            v = c.attrs.get('_id')
            if isinstance(v, ast.Constant) and isinstance(v.value, str):
                yield c, v.value, '%s:%d' % (m.relpath, v.lineno)


@rule('P10', 'classes', 'Every class which tells the address of its schema tells one which is there, and its own only.')
def p10_classes(ctx):
    docs = load_docs(ctx)
    seen = {}
    n = 0
    for c, uri, where in declared(ctx):
        n += 1
        ok, s, u = resolve(docs, uri, '')
        ctx.ob(ok and isinstance(s, dict), c.key, where, '%s is not found' % uri)
        ctx.ob(uri not in seen, c.key, where, '%s is the address of %s' % (uri, seen.get(uri)))
        seen[uri] = c.name
        if ok:
            ctx.ob(uri.rsplit('/', 1)[-1] == c.name, c.key, where, '%s is made from %s' % (c.name, uri))
    ctx.need(20, n, 'classes with a schema')


def settings(ctx):
    """[(name, text)] of the addresses of the settings."""
    m = next(m for m in ctx.repo.modules.values() if m.name.endswith('config.settings'))

    def val(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return val(m.assigns.get(e.id))
        if isinstance(e, ast.JoinedStr):
            return ''.join(str(val(x.value if isinstance(x, ast.FormattedValue) else x)) for x in e.values)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return str(val(e.left)) + str(val(e.right))
        return None
    return [(k, val(m.assigns.get(k))) for k in ('MS_URI', 'DEFAULT_MS_URI')]


@rule('P10', 'settings', 'The meta-schema of the settings is shipped.')
def p10_settings(ctx):
    docs = load_docs(ctx)
    for k, v in settings(ctx):
        ctx.ob(isinstance(v, str) and norm(urldefrag(v)[0]) in docs, k, 'ngoschema/config/settings.py', 'the meta-schema %s is not shipped' % v)


STR, BOOL, INT, NUM, LIST, MAP = str, bool, int, (int, float), list, dict
SHAPES = {
    '$id': STR, '$ref': STR, 'title': STR, 'description': STR, 'pattern': STR, 'format': STR, 'type': (str, list),
    'required': LIST, 'enum': LIST, 'extends': LIST, 'readOnly': (bool, list), 'notSerialized': LIST, 'notValidated': LIST,
    'primaryKeys': LIST, 'properties': MAP, 'patternProperties': MAP, '$defs': MAP, 'definitions': MAP, 'aliases': MAP,
    'additionalProperties': (bool, dict), 'items': (dict, list, bool), 'uniqueItems': BOOL, 'minItems': INT, 'maxItems': INT,
    'minLength': INT, 'maxLength': INT, 'minProperties': INT, 'maxProperties': INT, 'minimum': NUM, 'maximum': NUM,
    'exclusiveMinimum': NUM, 'exclusiveMaximum': NUM, 'multipleOf': NUM, 'allOf': LIST, 'anyOf': LIST, 'oneOf': LIST,
    'abstract': BOOL, 'foreignKey': MAP,
}
PLAIN = {'string': str, 'boolean': bool, 'integer': int, 'number': (int, float), 'array': list, 'object': dict, 'null': type(None)}


def is_a(v, t):
    t = t if isinstance(t, tuple) else (t,)
    return isinstance(v, t) and not (isinstance(v, bool) and bool not in t)


@rule('P10', 'shapes', 'Every keyword of the shipped schemas has a value of its kind, and every default is a value of its type and its enumeration.')
def p10_shapes(ctx):
    docs = load_docs(ctx)
    n = d = 0
    for uri, (rel, doc) in docs.items():
        for path, s in schemas(doc):
            where = '%s#%s' % (rel, path)
            for k, v in s.items():
                if k in SHAPES:
                    n += 1
                    ctx.ob(is_a(v, SHAPES[k]), where, where, '%s is %s' % (k, str(v)[:60]))
            for k in LISTS:
                v = s.get(k)
                if isinstance(v, list):
                    ctx.ob(len(set(map(str, v))) == len(v), where, where, '%s tells a name twice' % k)
            for lo, hi in (('minimum', 'maximum'), ('minItems', 'maxItems'), ('minLength', 'maxLength'), ('minProperties', 'maxProperties')):
                if is_a(s.get(lo), NUM) and is_a(s.get(hi), NUM):
                    ctx.ob(s[lo] <= s[hi], where, where, '%s is beyond %s' % (lo, hi))
            for p in [s['pattern']] if isinstance(s.get('pattern'), str) else []:
                ctx.ob(compiles(p), where, where, 'the pattern %s is none' % p)
            for p in s.get('patternProperties') or () if isinstance(s.get('patternProperties'), dict) else ():
                ctx.ob(compiles(p), where, where, 'the pattern %s is none' % p)
            if 'default' not in s or not uri.startswith(MAIN):
                continue
            v, t = s['default'], s.get('type')
            d += 1
            ts = [t] if isinstance(t, str) else t if isinstance(t, list) else []
            known = [PLAIN[x] for x in ts if x in PLAIN]
            if ts and len(known) == len(ts) and not (isinstance(v, str) and ('{' in v or '`' in v)):
                ctx.ob(v is None or any(is_a(v, x) for x in known), where, where, 'the default %r is no %s' % (v, '/'.join(ts)))
            if isinstance(s.get('enum'), list):
                ctx.ob(v in s['enum'], where, where, 'the default %r is not of the enumeration' % (v,))
            if is_a(v, NUM):
                ctx.ob(not (is_a(s.get('minimum'), NUM) and v < s['minimum'] or is_a(s.get('maximum'), NUM) and v > s['maximum']),
                       where, where, 'the default %r is out of its bounds' % (v,))
    ctx.need(300, n, 'keywords')
    ctx.need(5, d, 'defaults')


def compiles(p):
    import re
    try:
        re.compile(p)
        return True
    except re.error:
        return False
