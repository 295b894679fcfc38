"""P12: queries: what the operators compare, which objects a filter keeps, and that evaluating changes nothing else."""
import ast
import operator

from ..core import rule
from ..lib import *
from .p04_conversion import kw

A0, A1, A2, A3 = ('arg', 0), ('arg', 1), ('arg', 2), ('arg', 3)
TEXT = ('startswith', 'endswith', 'ieq', 'istartswith', 'iendswith', 'icontains', 'regex')
# what an operator tells: patterns of the term (and whether it is told by its contrary)
MEANING = {
    'lt': [('A2 < A3', False), ('operator.lt(A2, A3)', False)],
    'le': [('A2 <= A3', False), ('operator.le(A2, A3)', False)],
    'gt': [('A2 > A3', False), ('operator.gt(A2, A3)', False)],
    'ge': [('A2 >= A3', False), ('operator.ge(A2, A3)', False)],
    'eq': [('A2 == A3', False), ('A3 == A2', False), ('operator.eq(A2, A3)', False)],
    'ne': [('A2 == A3', True), ('A3 == A2', True), ('operator.ne(A2, A3)', False)],
    'neq': [('A2 == A3', True), ('A3 == A2', True), ('operator.ne(A2, A3)', False)],
    'contains': [('A3 in A2', False), ('operator.contains(A2, A3)', False)],
    'in': [('A2 in A3', False), ('operator.contains(A3, A2)', False)],
    'size': [('len(A2)', False), ('A2', False)],
    'intersects': [('set(A2).intersection(set(A3))', False), ('set(A2).intersection(A3)', False), ('set(A2) & set(A3)', False),
                   ('set(A2).isdisjoint(A3)', True), ('set(A2).isdisjoint(set(A3))', True)],
    'startswith': [('A2.startswith(A3)', False)],
    'endswith': [('A2.endswith(A3)', False)],
    'ieq': [('A2.lower() == A3.lower()', False), ('A3.lower() == A2.lower()', False),
            ('A2.casefold() == A3.casefold()', False)],
    'istartswith': [('A2.lower().startswith(A3.lower())', False), ('A2.casefold().startswith(A3.casefold())', False)],
    'iendswith': [('A2.lower().endswith(A3.lower())', False), ('A2.casefold().endswith(A3.casefold())', False)],
    'icontains': [('A3.lower() in A2.lower()', False), ('A3.casefold() in A2.casefold()', False)],
    'regex': [('re.match(A3, A2)', False)],
}


def muts(p, name):
    return [e for e in p.events if e.kind == 'mutate' and callname(e.value) == name]


def replace(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) for x in t)
    return t


def consts(ctx, t):
    """Constants a term is a collection of."""
    t = strip(t)
    if t[0] == 'name':
        v = ctx.repo.modules.get('ngoschema.query')
        node = module_value(ctx, t[1])
        if node is not None:
            try:
                return set(ast.literal_eval(node))
            except (ValueError, TypeError):
                return None
    if t[0] in ('tuple', 'list', 'set') and len(t) == 2:
        out = set()
        for x in t[1]:
            ok, v = const_value(x)
            if not ok:
                return None
            out.add(v)
        return out
    if t[0] == 'call' and callname(t) in ('set', 'frozenset', 'tuple', 'list') and len(t[2]) == 1:
        return consts(ctx, t[2][0])


def module_value(ctx, name):
    m = ctx.func('_apply_ops_test').module
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
            return s.value


def op_fact(ctx, t, op, name):
    """What a condition about the operator is for one of that name; None when it is about something else."""
    t = strip(t)
    if t[0] == 'cmp' and t[1] in ('eq', 'is') and op in (t[2], t[3]):
        ok, v = const_value(t[3] if t[2] == op else t[2])
        return (v == name) if ok else None
    if t[0] == 'cmp' and t[1] == 'in' and t[2] == op:
        l = consts(ctx, t[3])
        return (name in l) if l is not None else None
    if callname(t) == 'hasattr' and len(t[2]) == 2 and strip(t[2][0]) == ('name', 'operator') and strip(t[2][1]) == op:
        return hasattr(operator, name)
    if callname(t) == 'startswith' and receiver(t) == op:
        ok, v = const_value(t[2][0])
        return name.startswith(v) if ok else None
    return None


def unget(t, op, name):
    """getattr(operator, op) is the function of that name."""
    def go(x):
        if not isinstance(x, tuple):
            return x
        x = tuple(go(y) for y in x)
        if callname(x) == 'getattr' and x[0] == 'call' and len(x[2]) >= 2 and x[2][0] == ('name', 'operator') and x[2][1] == op:
            return ('attr', ('name', 'operator'), name)
        return x
    return go(t)


@rule('P12', 'operators', 'Every operator compares as its name tells; text operators only compare text.')
def p12_operators(ctx):
    f = ctx.func('_apply_ops_test')
    ps = ctx.paths(f)
    names = module_value(ctx, '_operators')
    known = set(ast.literal_eval(names)) if names is not None else set()
    for n in MEANING:
        ctx.ob(n in known, '_operators', f.where, 'the operator %s is not known' % n)
    op = ('item', A0)
    for name in sorted(set(MEANING) | {'@0', '@12'}):
        n = 0
        for p in ps:
            fs = [(strip(t), b) for t, b in allfacts(p)]
            if not any(t == ('looped', A0) for t, b in fs) and p.normal:
                continue
            if any(op_fact(ctx, t, op, name) is (not b) for t, b in fs):
                continue
            what = 'the operator %s' % name
            if not p.normal:
                if p.outcome[0] == 'raise' and name not in TEXT + ('intersects',):
                    ctx.ob(False, f.qual, f.where, '%s raises' % what)
                continue
            n += 1
            neg = [b for t, b in fs if t == A1]
            pats = MEANING.get(name) or [('A2[int(OP[1:])]', False)]
            found = None
            ret = strip(p.returns)
            flip = False
            while ret[0] == 'not':
                ret, flip = ret[1], not flip
            if callname(ret) == 'bool' and ret[2]:
                ret = ret[2][0]
            okc, cv = const_value(ret)
            for t, b in fs + ([(ret, None)] if not okc else []):
                t = unget(t, op, name)
                g = t
                for pat, contrary in pats:
                    if name.startswith('@'):
                        hit = g[0] == 'sub' and g[1] == A2 and callname(g[2]) == 'int' and g[2][2] and strip(g[2][2][0])[0] == 'sub' and \
                            strip(g[2][2][0])[1] == op and 'slice(1, None' in show(strip(g[2][2][0]), -9)
                    else:
                        hit = match(pat, g) is not None
                    if not hit and g[0] == 'not' and match(pat, g[1]) is not None:
                        hit, contrary = True, not contrary
                    if hit:
                        found = (t, b, contrary)
                        break
                if found:
                    break
            ctx.ob(found is not None, f.qual, f.where, '%s gives %s' % (what, show(p.returns)[:120] if not okc else
                                                                       '; '.join(show(t)[:80] for t, b in fs[-2:])))
            if found:
                t, b, contrary = found
                want_neg = neg[0] if neg else None
                if okc and b is not None:
                    ok = want_neg is not None and (bool(cv) != flip) == ((b != contrary) != want_neg)
                else:
                    ok = (flip != contrary) == bool(want_neg) and want_neg is not None
                ctx.ob(ok, f.qual, f.where, '%s is told by its contrary' % what)
            if name in TEXT:
                for a in (A2, A3):
                    ok = any(b and callname(t) in ('is_string', 'isinstance') and t[2][0] == a for t, b in fs)
                    ctx.ob(ok, f.qual, f.where, '%s compares what is no text' % what)
        ctx.need(1, n, 'ways of %s' % name)
    n = 0
    for p in ctx.paths(f, loop2=True):
        l = [unold(strip(e.term)) for e in p.calls('len')]
        if p.normal and len(l) == 2:
            n += 1
            ctx.ob(l[0][2] == (A2,) and l[1][2] == (l[0],), f.qual, f.where, 'the operators of a criterion are not applied one to the result of the other')
    ctx.need(1, n, 'operators applied in turn')


@rule('P12', 'criteria', 'A criterion is a path followed by the operators it ends with, in their order; not negates it.')
def p12_criteria(ctx):
    f = ctx.func('_sort_criteria')
    n = 0
    SPLIT = ('call', ('attr', A0, 'split'), (('const', "'__'"),), ())
    for p in ctx.paths(f):
        if not p.normal:
            continue
        r = strip(p.returns)
        if not ctx.ob(r[0] == 'tuple' and len(r[1]) == 2, f.qual, f.where, 'a criterion is read as %s' % show(r)[:100]):
            continue
        fs = allfacts(p)
        ctx.ob(any(x == SPLIT for x in subterms(unold(strip(r[1][0])))), f.qual, f.where, 'the path of a criterion is %s' % show(r[1][0])[:80])
        for t, b in fs:
            t = unold(strip(t))
            if t[0] in ('loop', 'looped', 'empty'):
                for x in subterms(t[1]):
                    if x[0] == 'sub' and 'slice' in show(x[2]):
                        ctx.ob('slice(1, None' in show(x[2]), f.qual, f.where, 'the elements which may be operators are %s' % show(x)[:80])
            if t[0] == 'loop' and any(x == SPLIT for x in subterms(t[1])):
                ctx.ob('slice(1, None' in show(t[1], -99) or any(callname(x) == 'range' for x in subterms(t[1])), f.qual, f.where,
                       'the name of an attribute may be taken for an operator')
        stops = {unold(strip(t))[0] for t, b in fs if b and t[0] in ('loop', 'looped')}
        words = [b for t, b in fs if strip(t)[0] == 'cmp' and strip(t)[1] == 'in' or callname(strip(t)) == 'startswith']
        if 'loop' in stops and words:
            ctx.ob(('looped' in stops) == (True in words[-2:]), f.qual, f.where, 'operators are looked for %s' % (
                'before what is none' if 'looped' in stops else 'no more after one'))
        for e in p.calls('startswith'):
            ctx.ob(const_value(strip(e.term)[2][0]) == (True, '@'), f.qual, e.where, 'an index is told by %s' % show(strip(e.term)[2][0]))
        known = [b for t, b in fs if strip(t)[0] == 'cmp' and strip(t)[1] == 'in' and strip(t)[3] == ('name', '_operators')]
        at = [b for t, b in fs if callname(strip(t)) == 'startswith']
        isop = True in known or True in at
        adds = [e for e in muts(p, 'insert') + muts(p, 'append') + muts(p, 'appendleft')]
        pops = [e for e in muts(p, 'pop')]
        if known or at:
            n += 1
            ctx.ob(isop or False in known and False in at, f.qual, f.where, 'an element is not an operator though it may be one')
            ctx.ob(bool(adds) == isop, f.qual, f.where, 'an element is%s an operator and is%s one of the operators' % (
                '' if isop else ' not', '' if adds else ' not'))
            for e in adds:
                rev = any(callname(x) == 'reversed' for a in e.value[2] for x in subterms(strip(a)))
                first = callname(e.value) != 'append'
                if callname(e.value) == 'insert':
                    first = const_value(e.value[2][0]) == (True, 0)
                ctx.ob(first == rev, f.qual, e.where, 'the operators are in another order')
            if isop:
                own = [e for e in pops if callname(unold(strip(e.term))) == 'split']
                cut = unold(strip(r[1][0]))[0] == 'sub'
                ctx.ob(bool(own) or cut, f.qual, f.where, 'an operator is also an element of the path')
    ctx.need(2, n, 'readings of an element')
    f = ctx.func('Filter.__init__')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        nots = [b for t, b in fs if strip(t)[0] == 'cmp' and strip(t)[1] == 'in' and const_value(strip(t)[2]) == (True, 'not')]
        for t, b in fs:
            t = strip(t)
            if t[0] == 'cmp' and t[1] == 'in' and const_value(t[2]) == (True, 'not'):
                ctx.ob('slice' not in show(t[3], -99) and '_sort_criteria' in show(unold(t[3]), -99), f.qual, f.where, 'not is only looked for in %s' % show(t[3])[:80])
        for e in p.stores():
            x = strip(e.term)
            if x[0] == 'sub' and strip(e.value)[0] == 'tuple' and len(strip(e.value)[1]) == 3:
                n += 1
                v = unold(strip(e.value))[1]
                ctx.ob(all(callname(strip(y)) == '_sort_criteria' or y[0] == 'sub' and callname(strip(y[1])) == '_sort_criteria' for y in v[:2]),
                       f.qual, e.where, 'a criterion is %s' % show(strip(e.value))[:100])
                ok, c = const_value(v[2])
                told = c if ok else None
                if v[2][0] == 'cmp' and v[2][1] == 'in':
                    told = nots[0] if nots else None
                ctx.ob(nots and told == nots[0], f.qual, e.where, 'whether a criterion is negated is %s' % show(v[2])[:80])
                if nots and nots[0]:
                    ctx.ob(any(const_value(m.value[2][0]) == (True, 'not') for m in muts(p, 'remove')) or
                           any(y[0] == 'comp' for y in subterms(v[1])), f.qual, e.where, 'not stays among the operators')
        for a, want in (('negate', ('arg', 'negate')), ('anyOf', ('arg', 'any_of')), ('attrs_value', ('kwargs',)), ('attrs', ('args',))):
            st = [e for e in p.stores() if strip(e.term) == ('attr', A0, a)]
            ctx.ob(bool(st) and strip(st[-1].value) == want, f.qual, f.where, '%s is %s' % (a, show(strip(st[-1].value))[:60] if st else 'not kept'))
    ctx.need(2, n, 'criteria')


def at_size(t, x, k):
    """What a condition about a collection is when it has k items; None when it is about something else."""
    if t == x:
        return k > 0
    if t[0] == 'empty' and t[1] == x:
        return k == 0
    if t[0] == 'cmp' and t[1] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        v = []
        for y in t[2:4]:
            ok, c = const_value(y)
            if callname(y) == 'len' and y[2] == (x,):
                c = k
            elif not ok or not isinstance(c, int):
                return None
            v.append(c)
        return getattr(operator, t[1])(*v)
    return None


def falsy(ctx, f, *names):
    a = f.node.args
    d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    for n in names:
        v = d.get(n)
        ctx.ob(isinstance(v, ast.Constant) and not v.value, f.qual, f.where, '%s is %s when it is not told' % (n, ast.unparse(v) if v is not None else 'required'))


@rule('P12', 'unasked', 'Nothing is negated, any-of, distinct, ordered or reversed unless it is told.')
def p12_unasked(ctx):
    falsy(ctx, ctx.func('Filter.__init__'), 'negate', 'any_of')
    falsy(ctx, ctx.func('Query._filter_or_exclude'), 'negate', 'any_of', 'distinct')
    falsy(ctx, ctx.func('Query.__init__'), 'distinct', 'order_by', 'reverse')
    for n in ('filter', 'exclude', 'filter_any_of', 'exclude_any_of'):
        falsy(ctx, ctx.func('Query.' + n), 'distinct', 'order_by', 'reverse')
    falsy(ctx, ctx.func('Query.order_by'), 'reverse')
    f = ctx.func('Query.__init__')
    for p in ctx.paths(f):
        if p.normal:
            for i, a in enumerate(('_iterable', '_distinct', '_order_by', '_reverse')):
                st = [e for e in p.stores() if strip(e.term) == ('attr', A0, a)]
                ctx.ob(bool(st) and strip(st[-1].value) == ('arg', i + 1), f.qual, f.where, '%s is %s' % (a, show(strip(st[-1].value))[:60] if st else 'not kept'))


@rule('P12', 'filter', 'An object passes if every criterion is met (one of them, for any-of); a criterion on what an object has not is not met.')
def p12_filter(ctx):
    f = ctx.func('Filter.__call__')
    NEG, ANY = ('attr', A0, 'negate'), ('attr', A0, 'anyOf')
    VAL, ATT = ('attr', A0, 'attrs_value'), ('attr', A0, 'attrs')

    def desc(t):
        return callname(t) == 'get_descendant'

    def env_of(fs):
        e = {}
        for t, b in fs:
            k = None
            if t == ANY:
                k = 'any'
            elif t == NEG:
                k = 'negate'
            elif t[0] in ('empty', 'loop', 'looped') and base_of(t[1]) in (VAL, ATT):
                k = 'values' if base_of(t[1]) == VAL else 'names'
                b = b if t[0] != 'empty' else not b
            elif t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and desc(t[2]) and t[2][2][0] == A1:
                own = of_name(t[2], ATT)
                k = 'has' if own else 'got'
                b = not b
            elif callname(t) == '_apply_ops_test' or callname(t) == 'bool' and t[2] and callname(t[2][0]) == '_apply_ops_test':
                k = 'met'
            elif callname(t) == 'is_mapping' or callname(t) == 'isinstance' and desc(t[2][0]):
                k = 'mapping'
            elif (desc(t) or t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and desc(t[2])):
                x = t if desc(t) else t[2]
                if x[2][0] != A1:
                    k = 'child'
                    b = b if desc(t) else not b
            elif t[0] == 'sub' and any(x == ('attr', A0, 'attrs_ops') for x in subterms(t)) or callname(t) == 'list':
                k = 'ops'
            if k and k not in e:
                e[k] = b
        return e

    def base_of(t):
        t = strip(t)
        while t[0] == 'call' and callname(t) in ('items', 'keys', 'list', 'tuple', 'iter') and (t[1][0] == 'attr' or t[2]):
            t = strip(t[2][0]) if t[1][0] == 'name' else receiver(t)
        return t

    def of_name(t, what):
        return any(x == ('item', what) for x in subterms(t)) or any(x[0] == 'item' and base_of(x[1]) == what for x in subterms(t))

    def passes(e):
        vals = not e['values'] or (e['got'] and e['met'])
        if e['any']:
            return e['values'] and e['got'] and e['met'] or e['names'] and e['has']
        return vals and (not e['names'] or e['has'])
    names = ['any', 'values', 'names', 'got', 'has', 'met', 'mapping', 'child', 'ops']
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = [(unold(strip(t)), b) for t, b in allfacts(p)]
        e = env_of(fs)
        if e.get('mapping') and 'child' not in e:
            # no operator left which may be the name of a child
            e['child'] = True
        crit = e.get('got') and e.get('met')
        for c, met in ((VAL, crit), (ATT, e.get('has'))):
            loops = {t[0] for t, b in fs if t[0] in ('loop', 'looped') and b and base_of(t[1]) == c}
            if loops == {'loop'}:
                ctx.ob(bool(met) == e.get('any'), f.qual, f.where, 'the other criteria are not looked at though one is %smet (any of: %s)' % (
                    '' if met else 'not ', e.get('any')))
        if e.get('mapping') and e.get('ops') and e.get('got'):
            tests = [unold(strip(x.term)) for x in p.calls('_apply_ops_test')]
            none = any(t[0] == 'empty' and b and base_of(t[1]) not in (VAL, ATT) for t, b in fs)
            asked = [b for t, b in fs if desc(t if t[0] != 'cmp' else strip(t[2])) and (t if t[0] != 'cmp' else strip(t[2]))[2][0] != A1]
            ctx.ob(none or bool(asked), f.qual, f.where, 'an operator may be the name of a child, which is not looked for')
            for t, b in fs:
                ctx.ob(not (desc(t) and t[2][0] != A1), f.qual, f.where, 'a child whose value is false is not looked at')
            if asked and not e.get('child') and tests and not none:
                ctx.ob(not any(desc(x) and desc(strip(x[2][0])) for x in subterms(tests[0][2][2])), f.qual, f.where, 'a child which is not there is tested')
            if asked and e.get('child') and tests and not none:
                ctx.ob(any(desc(x) and desc(strip(x[2][0])) for x in subterms(tests[0][2][2])) and bool(muts(p, 'pop') or muts(p, 'remove') or 'slice' in show(tests[0][2][0], -9)),
                       f.qual, f.where, 'the child of that name is not what is tested')
        for x in p.calls('get_descendant'):
            t = unold(strip(x.term))
            if ctx.ob(len(t[2]) == 2, f.qual, x.where, 'a descendant is looked for as %s' % show(t)[:80]) and t[2][0] == A1:
                w = show(t[2][1], -9)
                ctx.ob('attrs_ops' in w and '[0]' in w or "split('__')" in w, f.qual, x.where, 'the path of a criterion is %s' % show(t[2][1])[:80])
        last = [(t, b) for t, b in fs if t[0] == 'cmp' and NEG in (t[2], t[3])]
        ret = truths(p)
        for facts, label in ret:
            told = None
            if last:
                t, b = last[-1]
                x = t[2] if t[3] == NEG else t[3]
                x, flip = strip(x), False
                while x[0] == 'not':
                    x, flip = x[1], not flip
                if callname(x) == 'bool':
                    x = x[2][0]
                ok, v = const_value(x)
                if ok:
                    told = bool(v) != flip
                else:
                    for y, c in fs:
                        if y == x or callname(y) == 'bool' and y[2][0] == x:
                            told = c != flip
                    if told is None and x[0] == 'cmp' and x[1] == 'is' and desc(x[2]):
                        told = 'has' in e and (e['has'] is False) != flip
                # the result is (told is not negate): b tells whether they are the same
                same = b if t[1] in ('is', 'eq') else not b
                ok_label = label == (not same)
            elif 'negate' in e:
                told = label != e['negate']
                ok_label = True
            else:
                ok_label = False
            n += 1
            if not ctx.ob(ok_label, f.qual, f.where, 'the excluded objects are not the others (%s)' % (show(last[-1][0])[:100] if last else '')):
                continue
            for c in completions(e, names, valid=lambda c: not (c['child'] and not c['mapping'])):
                if told is None or bool(passes(c)) != told:
                    ctx.ob(False, f.qual, f.where, 'an object %s when %s' % ('passes' if told else 'does not pass', ', '.join(
                        ('' if v else 'not ') + k for k, v in sorted(c.items()))))
                    break
            else:
                ctx.ob(True, f.qual, f.where, '')
        for ev in p.calls('_apply_ops_test'):
            t = unold(strip(ev.term))
            ctx.ob(len(t[2]) == 4, f.qual, ev.where, 'a criterion is tested with %s' % show(t)[:80])
            if len(t[2]) != 4:
                continue
            crit = [x for x in subterms(t[2][3])]
            ctx.ob(any(x == VAL for x in crit) and any(x[0] == 'item' for x in crit), f.qual, ev.where, 'the value compared is %s' % show(t[2][3])[:80])
            ctx.ob(any(x[0] == 'sub' and x[2] == ('const', '2') or x[0] == 'item' for x in subterms(t[2][1])) and
                   any(x == ('attr', A0, 'attrs_ops') for x in subterms(t[2][1])), f.qual, ev.where, 'the criterion is negated by %s' % show(t[2][1])[:80])
            ctx.ob(any(desc(x) for x in subterms(t[2][2])), f.qual, ev.where, 'what is compared is %s' % show(t[2][2])[:80])
            o = t[2][0]
            ctx.ob(any(x == ('attr', A0, 'attrs_ops') for x in subterms(o)) or show(o) in ("list('eq')", "tuple('eq')"), f.qual, ev.where,
                   'the operators are %s' % show(o)[:80])
            if any(x == ('attr', A0, 'attrs_ops') for x in subterms(o)):
                ctx.ob(e.get('ops') is True or e.get('mapping') is True, f.qual, ev.where, 'a criterion without operator does not test that the values are equal')
            if o[0] in ('list', 'tuple') and len(o) == 2:
                ctx.ob(e.get('ops') is False, f.qual, ev.where, 'the operators of a criterion are ignored')
    ctx.need(20, n, 'ways of testing an object')
    g = ctx.func('get_descendant')
    for p in ctx.paths(g):
        if not p.normal:
            continue
        r = unold(strip(p.returns))
        fs = allfacts(p)
        if any(t[0] == 'caught' for t, b in fs):
            ctx.ob(r == NONE, g.qual, g.where, 'what is not there is %s' % show(r)[:80])
            continue
        more = [b for t, b in fs if t[0] == 'cmp' and any(callname(x) == 'len' for x in subterms(t))]
        rec = callname(r) == 'get_descendant'
        if rec and not ctx.ob(len(r[2]) == 2, g.qual, g.where, 'the rest of a path is lost'):
            continue
        c = r[2][0] if rec else r
        text = [b for t, b in fs if callname(t) in ('is_string', 'isinstance') and t[2][0] == A1]
        ctx.ob(len(text) == 1 and text[0] == any(callname(x) == 'split_path' for x in subterms(c)), g.qual, g.where, 'a path given as a text is not split')
        L = [x for t, b in fs for x in subterms(unold(strip(t))) if callname(x) == 'len']
        if L and more:
            sizes = [k for k in range(1, 5) if all(at_size(unold(strip(t)), L[0][2][0], k) in (None, b) for t, b in fs if t[0] == 'cmp')]
            ctx.ob(sizes == ([2, 3, 4] if rec else [1]) or not rec and 1 not in sizes and False, g.qual, g.where, 'a path of %s elements is %s' % (
                sizes, 'followed' if rec else 'not followed'))
        else:
            ctx.ob(not rec, g.qual, g.where, 'a path is followed whatever its length')
        ctx.ob(c[0] == 'sub' and c[1] == A0 and 'slice' not in show(c[2]) and '[0]' in show(c[2]), g.qual, g.where, 'a descendant is %s' % show(c)[:80])
        if rec:
            ctx.ob('slice(1, None' in show(r[2][1], -9), g.qual, g.where, 'the rest of a path is %s' % show(r[2][1])[:80])
        none = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'is' and t[3] == NONE and t[2] == c]
        if not rec:
            ctx.ob(more == [False] or none == [True], g.qual, g.where, 'the descendant of a value is the value')


@rule('P12', 'refine', 'Filtering and excluding test every object once with the criteria given, keep their order and only differ by the negation.')
def p12_refine(ctx):
    f = ctx.func('Query._filter_or_exclude')
    n = 0
    for p in ctx.paths(f):
        for e in p.calls('Filter'):
            t = strip(e.term)
            ctx.ob(t[2] == (('star', ('args',)),) and kw(t, 'negate') == ('arg', 'negate') and kw(t, 'any_of') == ('arg', 'any_of') and
                   kw(t, '**') == ('kwargs',), f.qual, e.where, 'the objects are tested with %s' % show(t)[:120])
        if not p.normal:
            continue
        fs = [(unold(strip(t)), b) for t, b in allfacts(p)]
        it = ('item', A0)
        ys = [e for e in p.events if e.kind == 'yield']
        ctx.ob(not any(t == ('loop', A0) and b for t, b in fs) or any(t == ('looped', A0) for t, b in fs), f.qual, f.where, 'the objects after one are not tested')
        if not any(t == ('looped', A0) for t, b in fs):
            ctx.ob(not ys, f.qual, f.where, 'an object is kept which is none of the objects')
            continue
        n += 1
        test = [b for t, b in fs if t[0] == 'call' and t[2] == (it,) and callname(t[1]) == 'Filter']
        empty = [b for t, b in fs if t == it] + [not b for t, b in fs if t == ('cmp', 'is', it, NONE)]
        dup = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and any(x == it for x in subterms(t[2]))]
        dist = [b for t, b in fs if t == ('arg', 'distinct')]
        keep = test == [True] and empty == [True] and not (dist == [True] and dup == [True])
        if ys:
            ctx.ob(len(dist) == 1, f.qual, f.where, 'whether the objects are distinct is not looked at')
        ctx.ob(bool(ys) == keep and len(ys) <= 1, f.qual, f.where, 'an object is %s when %s' % ('kept' if ys else 'left out', '; '.join(
            '%s is %s' % (show(t)[:50], b) for t, b in fs)))
        if dup:
            ctx.ob(dist == [True], f.qual, f.where, 'an object equal to another one is looked for when it has not to')
        for e in ys:
            ctx.ob(strip(e.value if e.value is not None else e.term) == it, f.qual, e.where, 'what is kept is %s' % show(strip(e.term))[:60])
            if dist == [True]:
                ctx.ob(dup == [False] and any(any(x == it for x in subterms(strip(m.value))) for m in muts(p, 'add') + muts(p, 'append')), f.qual,
                       e.where, 'a distinct object is not remembered')
    ctx.need(3, n, 'ways of keeping an object')
    for name, neg, any_ in (('filter', False, False), ('exclude', True, False), ('filter_any_of', False, True), ('exclude_any_of', True, True),
                            ('get', False, False), ('next', False, False)):
        f = ctx.func('Query.' + name)
        seen = 0
        for p in ctx.paths(f):
            for e in p.calls('_filter_or_exclude'):
                t = unold(strip(e.term))
                seen += 1
                for k, w in (('negate', neg), ('any_of', any_)):
                    v = kw(t, k)
                    ctx.ob((const_value(v) == (True, w)) if v is not None else not w, f.qual, e.where, '%s tests objects with %s %s' % (
                        name, k, show(v) if v is not None else 'not told'))
                ctx.ob(len(t[2]) == 2 and t[2][1] == ('star', ('args',)) and kw(t, '**') == ('kwargs',), f.qual, e.where,
                       '%s does not test all the criteria: %s' % (name, show(t)[:100]))
                ctx.ob(bool(t[2]) and (match('A0._items()', t[2][0]) is not None or t[2][0] in (A0, ('attr', A0, 'result_cache'))), f.qual,
                       e.where, '%s tests %s' % (name, show(t[2][0])[:60] if t[2] else 'nothing'))
                d = kw(t, 'distinct')
                use = {b for x, b in e.facts if x == ('arg', 'distinct')}
                ok = d == ('arg', 'distinct') and use == {True} or d == ('attr', A0, '_distinct') and (use == {False} or not use and name in ('get', 'next'))
                ctx.ob(ok, f.qual, e.where, '%s: distinct is %s' % (name, show(d) if d else 'lost'))
            for e in p.calls('Query'):
                t = unold(strip(e.term))
                for k in ('order_by', 'reverse', 'distinct'):
                    v = kw(t, k)
                    own = ('attr', A0, '_' + k)
                    use = {b if x == ('arg', k) else not b for x, b in allfacts(p) if x == ('arg', k) or x == ('cmp', 'is', ('arg', k), NONE)}
                    ok = (v == ('arg', k) and use == {True}) or (v == own and use == {False})
                    ctx.ob(ok, f.qual, e.where, '%s: the %s of the result is %s' % (name, k, show(v)[:60] if v else 'lost'))
        ctx.need(1, seen, 'tests by %s' % name)
    f = ctx.func('Query.get')
    for p in ctx.paths(f):
        if p.normal:
            r = unold(strip(p.returns))
            sizes = [k for k in range(4) if all(at_size(unold(strip(t)), r[1], k) in (None, b) for t, b in allfacts(p))] if r[0] == 'sub' else []
            ctx.ob(r[0] == 'sub' and const_value(r[2]) == (True, 0) and sizes == [1], f.qual, f.where, 'one object is got as %s' % show(r)[:60])


@rule('P12', 'results', 'The results are all the objects, once if distinct, in the order asked for; they are read, counted and combined as such.')
def p12_results(ctx):
    f = ctx.func('Query.result_cache')
    n = 0
    RC = ('attr', A0, '_result_cache')
    for p in ctx.paths(f):
        st = [e for e in p.stores() if strip(e.term) == RC]
        if not p.normal:
            ctx.ob(not st or p.events.index(st[-1]) == max(i for i, e in enumerate(p.events) if e.kind in ('store', 'call')), f.qual, f.where,
                   'the results of an evaluation which raises are kept')
            continue
        fs = allfacts(p)
        fresh = [b for t, b in fs if t == ('cmp', 'is', RC, NONE)]
        ctx.ob(bool(fresh), f.qual, f.where, 'the results are evaluated again')
        for e in p.calls('sorted') + p.calls('sort'):
            ctx.ob(kw(strip(e.term), 'key') is not None, f.qual, e.where, 'the results are ordered without a key')
            at = [x for t, b in fs for x in [t] if callname(t) == 'isinstance' and t[2][:1] == (('attr', A0, '_order_by'),) and b]
            ctx.ob(not at or bool(p.calls('split_path')), f.qual, e.where, 'the path to order by is not split')
            ctx.ob(bool(at) or not p.calls('split_path'), f.qual, e.where, 'a path given as a list is split')
        if fresh == [False]:
            ctx.ob(strip(p.returns) == RC and not st, f.qual, f.where, 'the results are evaluated again')
            continue
        n += 1
        if not ctx.ob(bool(st), f.qual, f.where, 'the results are not kept'):
            continue
        v = st[-1].value
        whole = show(strip(v), -9)
        sub = list(subterms(unold(strip(v))))
        earlier = [unold(strip(e.value)) for e in st[:-1]]
        for x in earlier:
            sub += list(subterms(x))
        has = {k: any(callname(x) in ks for x in sub) for k, ks in (('sorted', ('sorted',)), ('reversed', ('reversed',)))}
        srt = {'sort': bool(muts(p, 'sort')), 'reverse': bool(muts(p, 'reverse'))}
        ob = [b for t, b in fs if t == ('attr', A0, '_order_by')]
        rv = [b for t, b in fs if t == ('attr', A0, '_reverse')]
        ctx.ob((has['sorted'] or srt['sort']) == (ob == [True]), f.qual, st[-1].where, 'the results are%s ordered' % ('' if has['sorted'] else ' not'))
        ctx.ob((has['reversed'] or srt['reverse']) == (rv == [True]), f.qual, st[-1].where,
               'the results are%s reversed' % ('' if has['reversed'] else ' not'))
        ctx.ob(any(callname(x) == '_items' and receiver(x) == A0 for x in sub), f.qual, st[-1].where, 'the results are %s' % show(strip(v))[:100])
        dist = [b for t, b in fs if t == ('attr', A0, '_distinct')]
        conds = [c for x in sub if x[0] == 'comp' for c in x[4]] + [(t, b) for t, b in fs if t[0] == 'cmp' and t[1] == 'in']
        for c, b in conds:
            if strip(c)[0] == 'cmp' and strip(c)[3][0] == 'sub':
                ctx.ob('slice(None, index' in show(strip(c)[3], -9), f.qual, f.where, 'a duplicate is looked for in %s' % show(strip(c)[3])[:80])
        ded = any(strip(c)[0] == 'cmp' and strip(c)[1] == 'in' and not b for c, b in conds)
        ctx.ob((dist == [True]) == ded or not ded and dist == [True] and any(t[0] == 'empty' and b for t, b in fs), f.qual, st[-1].where,
               'the results are%s without duplicates' % ('' if ded else ' not'))
        ctx.ob(len(dist) == 1 and len(ob) == 1 and len(rv) == 1, f.qual, f.where, 'the results do not depend on what is asked for')
    ctx.need(8, n, 'ways of evaluating')
    for k, pats in (('__len__', ['len(A0.result_cache)']), ('count', ['len(A0)', 'len(A0.result_cache)']),
                    ('isEmpty', ['len(A0) == 0', 'len(A0.result_cache) == 0', 'not A0.result_cache', 'A0.count() == 0']),
                    ('all', ['A0.result_cache', 'list(A0.result_cache)', 'list(A0)'])):
        f = ctx.func('Query.' + k)
        behave(ctx, f, {}, lambda e: {'ret': pats + (['True', 'False'] if k == 'isEmpty' else [])}, 'reading the results')
    f = ctx.func('Query.isEmpty')
    bool_table(ctx, ctx.paths(f), {'none': ['len(A0) == 0', 'len(A0.result_cache) == 0', '!len(A0)', '!A0.result_cache', 'A0.count() == 0', '!A0']},
               lambda e: e['none'], f.qual, 'whether there are results')
    f = ctx.func('Query.__getitem__')
    n = 0
    for p in ctx.paths(f):
        if p.normal:
            n += 1
            ctx.ob(match('A0.result_cache[A1]', strip(p.returns)) is not None, f.qual, f.where, 'an item of the results is %s' % show(strip(p.returns))[:60])
    ctx.need(1, n, 'reading an item')
    for k, i, alts in (('first', 0, ['A0[0]', 'A0.result_cache[0]']), ('last', -1, ['A0.result_cache[-1]', 'A0[-1]'])):
        f = ctx.func('Query.' + k)
        for p in ctx.paths(f):
            if p.normal:
                r = strip(p.returns)
                none = any(t[0] == 'caught' for t, b in allfacts(p)) or any(b is False and 'result_cache' in show(t) for t, b in allfacts(p))
                ctx.ob(r == NONE if none else any(match(a, r) is not None for a in alts[:1 if i else 2]), f.qual, f.where,
                       'the %s result is %s' % (k, show(r)[:60]))
    f = ctx.func('Query.__contains__')
    ctx.need(1, sum(p.normal and strip(p.returns) == TRUE or any(t[0] == 'cmp' for t, b in truths(p)[0][0]) for p in ctx.paths(f) if p.normal), 'found objects')
    for p in ctx.paths(f):
        if p.normal:
            for fs, v in truths(p):
                eq = [b for t, b in fs if t[0] == 'cmp' and t[1] in ('eq', 'in')]
                ctx.ob(v == (True in eq), f.qual, f.where, 'an object is%s found' % ('' if v else ' not'))
    f = ctx.func('Query.reverse')
    for p in ctx.paths(f):
        if p.normal:
            ctx.ob(callname(unold(strip(p.returns))) in ('_chain', 'Query'), f.qual, f.where, 'the reverse of a query is %s' % show(p.returns)[:60])
            old = [b for t, b in allfacts(p) if t == ('attr', A0, '_reverse')]
            st = [e for e in p.stores() if strip(e.term)[0] == 'attr' and strip(e.term)[2] == '_reverse']
            rv = strip(st[-1].value) if st else next((kw(strip(e.term), 'reverse') or (strip(e.term)[2][3] if len(strip(e.term)[2]) > 3 else None)
                                                      for e in p.calls('Query')), None)
            okc, v = const_value(rv) if rv is not None else (False, None)
            ctx.ob(rv is not None and (okc and old and bool(v) != old[0] or rv == ('not', ('attr', A0, '_reverse'))), f.qual, f.where,
                   'the reverse of a query is %s' % (show(rv) if rv else 'as the query'))
            ctx.ob(any(root(strip(e.term)) != A0 for e in st) or not st, f.qual, f.where, 'reversing a query changes it')
    f = ctx.func('Query._chain')
    for p in ctx.paths(f):
        if p.normal:
            r = strip(p.returns)
            if not ctx.ob(callname(r) == 'Query' and bool(r[2]), f.qual, f.where, 'a copy of a query is %s' % show(r)[:100]):
                continue
            a = (list(r[2]) + [None] * 4)[:4]
            got = [a[0]] + [a[i] if a[i] is not None else kw(r, k) for i, k in ((1, 'distinct'), (2, 'order_by'), (3, 'reverse'))]
            ctx.ob(callname(r) == 'Query' and got[1:] == [('attr', A0, k) for k in ('_distinct', '_order_by', '_reverse')], f.qual, f.where,
                   'a copy of a query is %s' % show(r)[:100])
            ctx.ob(match('A0._items()', strip(got[0])) is not None or strip(got[0]) == ('attr', A0, 'result_cache'), f.qual, f.where,
                   'the objects of a copy are %s' % show(strip(got[0]))[:60])
    f = ctx.func('Query.order_by')
    for p in ctx.paths(f):
        if p.normal:
            r = strip(p.returns)
            if not ctx.ob(callname(r) == 'Query' and bool(r[2]), f.qual, f.where, 'an ordered query is %s' % show(r)[:100]):
                continue
            a = (list(r[2]) + [None] * 4)[:4]
            got = [a[i] if a[i] is not None else kw(r, k) for i, k in ((1, 'distinct'), (2, 'order_by'), (3, 'reverse'))]
            ctx.ob(callname(r) == 'Query' and got == [('attr', A0, '_distinct'), A1, ('arg', 2)] or got[2] == ('arg', 'reverse'), f.qual, f.where,
                   'an ordered query is %s' % show(r)[:100])
    f = ctx.func('Query._items')
    n = reads = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        ITS = ('attr', A0, '_iterable')
        once = [b for t, b in allfacts(p) if t[0] == 'cmp' and t[1] == 'is' and ITS in (t[2], t[3])]
        once += [b for t, b in allfacts(p) if callname(t) in ('isinstance', 'hasattr') and t[2][0] == ITS and 'terator' in show(t) + 'next']
        st = [e for e in p.stores() if strip(e.term) == ITS]
        lst = lambda t: callname(t) in ('list', 'tuple') and t[2] == (ITS,)
        if True in once:
            ctx.ob(bool(st) and lst(unold(strip(st[0].value))), f.qual, f.where, 'the objects of an iterator can only be read once')
        elif not once:
            ctx.ob(bool(st), f.qual, f.where, 'the objects of an iterator can only be read once')
        n += 1
        ys = [e for e in p.events if e.kind == 'yield']
        looped = any(t[0] == 'looped' and b for t, b in allfacts(p))
        reads += looped
        if looped:
            ctx.ob(len(ys) == 1 and strip(ys[0].value if ys[0].value is not None else ys[0].term)[0] == 'item', f.qual, f.where, 'objects are skipped')
    ctx.need(2, n, 'ways of reading the objects')
    ctx.need(1, reads, 'reading the objects')
    f = ctx.func('Query.__iter__')
    n = 0
    for p in ctx.paths(f):
        if p.normal:
            n += 1
            r = unold(strip(p.returns))
            ok = any(x == ('attr', A0, 'result_cache') for x in subterms(r)) and not any(x[0] == 'comp' and x[4] for x in subterms(r))
            ok = ok or any(e.kind == 'yield' for e in p.events) or any(t[0] == 'empty' for t, b in allfacts(p))
            ctx.ob(ok, f.qual, f.where, 'the results are read as %s' % show(r)[:80])
    ctx.need(1, n, 'ways of reading the results')


def truth_of(p, want):
    return all(v == want for fs, v in truths(p))


@rule('P12', 'combine', 'The union has the results of all, the intersection those in all, the difference those in none of the others.')
def p12_combine(ctx):
    RC = ('attr', A0, 'result_cache')
    for k, cond in (('union', None), ('intersection', True), ('difference', False)):
        f = ctx.func('Query.' + k)
        n = 0
        for p in ctx.paths(f):
            if not p.normal:
                continue
            r = strip(p.returns)
            ctx.ob(callname(r) == 'Query' and bool(r[2]), f.qual, f.where, 'the %s is %s' % (k, show(r)[:60]))
            if callname(r) != 'Query' or not r[2]:
                continue
            looped = any(strip(t)[0] == 'looped' and b for t, b in allfacts(p))
            raw = p.returns
            while raw[0] in ('old', 'new') and len(raw) > 1:
                raw = raw[-1]
            cont = raw[2][0]
            if not looped:
                t = strip(cont)
                ctx.ob(t == RC or callname(t) in ('list', 'tuple') and t[2] == (RC,), f.qual, f.where, 'the %s with nothing is %s' % (k, show(t)[:80]))
                continue
            n += 1
            other = lambda x: x[0] == 'attr' and x[2] == 'result_cache' and x[1] != A0
            if cond is None:
                mut = [e for e in p.events if e.kind == 'mutate']
                terms = [x for e in mut for x in subterms(strip(e.value))] + list(subterms(strip(cont)))
                ctx.ob(any(other(x) or callname(x) == 'result_cache' for x in terms), f.qual, f.where, 'the results of the others are not in the union')
                ctx.ob(any(x == RC for x in subterms(strip(cont))), f.qual, f.where, 'the results of the query are not in the union')
                flt = [c for x in subterms(strip(cont)) if x[0] == 'comp' for c in x[4]]
                ctx.ob(not flt, f.qual, f.where, 'the union leaves results out')
                continue
            comps = contents(p, cont)
            ctx.ob(bool(comps), f.qual, f.where, 'the %s is %s' % (k, show(strip(cont))[:80]))
            for els, gens, conds, ev in comps:
                if ev is None and not conds and any(strip(g) == RC for g in gens) and len(comps) > 1:
                    continue
                c = [(t, b) for t, b in conds if t[0] == 'cmp' and t[1] == 'in']
                ctx.ob(len(conds) == 1 and len(c) == 1 and c[0][1] is cond and c[0][0][2] in els and any(other(x) for x in subterms(c[0][0][3])),
                       f.qual, f.where, 'the %s keeps results when %s' % (k, '; '.join('%s is %s' % (show(t)[:80], b) for t, b in conds)))
        ctx.need(1, n, 'ways of making the %s' % k)
        for p in ctx.paths(f, loop2=True) if cond is not None else ():
            if p.normal and any(strip(t) == ('looped', ('args',)) and b for t, b in allfacts(p)) and callname(strip(p.returns)) == 'Query' and strip(p.returns)[2]:
                # with several others, what the first leaves is what the next ones are applied to
                cs = [x for x in subterms(unold(strip(p.returns)[2][0])) if x[0] == 'comp']
                direct = [x for x in cs if any(strip(g) == RC for g in x[3])]
                ctx.ob(not direct or len(cs) > len(direct), f.qual, f.where, 'the %s is the one with the last of the others only' % k)
        for p in ctx.paths(f):
            r = strip(p.returns) if p.normal else ()
            if p.normal and callname(r) == 'Query':
                a = (list(r[2]) + [None] * 4)[:4]
                got = [a[i] if a[i] is not None else kw(r, n) for i, n in ((1, 'distinct'), (2, 'order_by'))]
                ctx.ob(got == [('attr', A0, '_distinct'), ('attr', A0, '_order_by')], f.qual, f.where, 'the %s is %s' % (k, show(r)[:120]))


FRESH = {'list', 'set', 'dict', 'tuple', 'sorted', 'OrderedDict', 'Query', '_chain', '_sort_criteria', 'split', 'reversed'}


@rule('P12', 'pure', 'Queries and filters write nothing but their own results.')
def p12_pure(ctx):
    own = {'_result_cache', '_iterable'}
    used = {x.attr if isinstance(x, ast.Attribute) else x.id for m in ctx.repo.modules.values() for x in ast.walk(m.tree)
            if isinstance(x, (ast.Attribute, ast.Name))}
    dead = {f.node.name for f in functions(ctx.repo)} - used - {'__init__', '__call__', '__iter__', '__getitem__', '__len__', '__contains__'}
    n = 0
    mod = ctx.func('Filter.__call__').module
    fs = [f for f in functions(ctx.repo) if f.module is mod and (f.qual.startswith(('Query.', 'Filter.', '_')))] + [ctx.func('get_descendant')]
    for f in fs:
        if '<locals>' in f.qual or f.node.name in dead or f.key not in ctx.baseline:
            continue
        init = f.qual.endswith('.__init__')
        for p in ctx.paths(f):
            for e in p.events:
                if e.kind not in ('store', 'mutate', 'del'):
                    continue
                t = unold(strip(e.term))
                n += 1
                x = t
                # the object which is written
                tgt = x[1] if e.kind in ('store', 'del') and x[0] in ('sub', 'attr') else x
                if x[0] == 'attr' and e.kind == 'store' and x[1] == A0 and (init or x[2] in own):
                    continue
                if init and root(x) == A0:
                    continue
                y = tgt
                while True:
                    if y[0] == 'call' and callname(y) in FRESH:
                        ok = True
                        break
                    if y[0] in ('list', 'dict', 'set', 'comp', 'tuple', 'bin'):
                        ok = True
                        break
                    if y[0] == 'sub' and callname(strip(y[1])) == '_sort_criteria':
                        y = strip(y[1])
                        continue
                    ok = False
                    break
                ctx.ob(ok, f.qual, e.where, 'writes %s' % show(t)[:100])
    ctx.need(10, n, 'writes')
