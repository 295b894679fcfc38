"""P26: XML is read as what it says, and written as what it is given."""
import ast
import copy
from functools import lru_cache
from ..core import rule
from ..lib import *
from ..model import FuncInfo
from .p17_contexts import fn, kw, A0, A1, A2, A3, KW
from .p22_files import full as plain
from .p24_helpers import default_of

X = 'utils.xmltodict:'
full = lru_cache(None)(plain)
H = X + '_DictSAXHandler.'
NIL = const(None)


def truth(fs, term):
    for t, b in fs:
        if full(t) == term:
            return b
    return None


def is_none(fs, term):
    for t, b in fs:
        t = full(t)
        if t[0] == 'cmp' and t[1] == 'is' and t[2] == term and t[3] == NIL:
            return b
    return None


def me(name):
    return ('attr', A0, name)


def at(p, e):
    """Place of an event of the path."""
    return [x is e for x in p.events].index(True)


def said(fs, pred):
    """Truth on the path of the first condition pred is of."""
    for t, b in fs:
        if pred(full(t)):
            return b
    return None


def arg(t, i, name):
    """The argument of a call, by position or by name."""
    t = full(t)
    return full(t[2][i]) if len(t[2]) > i else kw(t, name)


def missing(fs, holder, key):
    """The key is known to be missing (True) or held (False) by the holder."""
    for t, b in fs:
        t = full(t)
        if t[0] == 'caught' and b and 'KeyError' in show(t):
            return True
        if t[0] == 'cmp' and t[1] == 'in' and full(t[2]) == key and full(t[3]) == holder:
            return not b
        if t[0] == 'cmp' and t[1] == 'is' and callname(t[2]) == 'get' and full(receiver(t[2])) == holder:
            return b
    return None


@rule('P26', 'push', 'what is read goes under its name in what holds it: alone the first time (in a list if this is asked), '
      'then in a list, in order; what holds nothing yet is made; the postprocessor may change or refuse it')
def p26_push(ctx):
    f = fn(ctx, H + 'push_data')
    n = {'append': 0, 'pair': 0, 'forced': 0, 'alone': 0, 'refused': 0}
    for p in ctx.paths(f):
        fs = allfacts(p)
        if not p.normal:
            ctx.ob(False, f.qual, f.where, 'what is read may be refused')
            continue
        post = said(fs, lambda t: t == me('postprocessor') or t == ('cmp', 'is', me('postprocessor'), NIL))
        if any(t == ('cmp', 'is', me('postprocessor'), NIL) for t, b in fs):
            post = not post
        calls = list(p.calls('postprocessor'))
        ctx.ob(bool(calls) == bool(post), f.qual, f.where, 'the postprocessor is not asked, or is when there is none')
        key, data = A2, A3
        stores = [e for e in p.stores('item')] if False else [e for e in p.events if e.kind == 'store']
        adds = [e for e in p.calls('append')]
        if calls:
            c = full(calls[0].term)
            ctx.ob(tuple(full(x) for x in c[2]) == (me('path'), A2, A3), f.qual, calls[0].where,
                   'the postprocessor is not given the path, the name and what is read')
            key, data = ('sub', c, const(0)), ('sub', c, const(1))
            if is_none(fs, c):
                n['refused'] += 1
                ctx.ob(full(p.returns) == A1 and not stores and not adds, f.qual, f.where, 'what the postprocessor refuses is kept')
                continue
        made = is_none(fs, A1)
        r = full(p.returns)
        ctx.ob((callname(r) == 'dict_constructor') if made else r == A1, f.qual, f.where,
               'what holds what is read is not what is given back')
        place = ('sub', r, key)
        value = {place, ('call', ('attr', r, 'get'), (key,), ())}
        many = said(fs, lambda t: callname(t) == 'isinstance' and full(t[2][0]) in value and 'list' in show(t[2][1]))
        stored = [(full(e.term), full(e.value)) for e in stores]
        if many is not None and not missing(fs, r, key):
            if many or adds:
                n['append'] += 1
                ctx.ob(many and len(adds) == 1 and full(receiver(adds[0].term)) in value and full(adds[0].term[2][0]) == data and
                       all(full(s[1]) in value for s in stored), f.qual, f.where, 'one more of a name is not added to its list')
            else:
                n['pair'] += 1
                ctx.ob(len(stored) == 1 and stored[0][0] == place and stored[0][1][0] == 'list' and len(stored[0][1][1]) == 2 and
                       full(stored[0][1][1][0]) in value and full(stored[0][1][1][1]) == data, f.qual, f.where,
                       'the second of a name does not make a list of both, in order')
        else:
            forced = said(fs, lambda t: callname(t) == '_should_force_list')
            if forced:
                n['forced'] += 1
                ctx.ob(stored == [(place, ('list', (data,)))] or (len(stored) == 1 and stored[0][0] == place and stored[0][1][0] == 'list' and
                       [full(x) for x in stored[0][1][1]] == [data]), f.qual, f.where, 'a list which is asked is not made')
            else:
                n['alone'] += 1
                ctx.ob(forced is False and stored == [(place, data)], f.qual, f.where, 'the first of a name is not kept as it is')
            for e in p.calls('_should_force_list'):
                ctx.ob(tuple(full(x) for x in e.term[2]) == (key, data), f.qual, e.where, 'a list is asked of another name')
    for k, v in n.items():
        ctx.need(1, v, 'path of push_data: ' + k)


@rule('P26', 'forced-list', 'a list is forced when it is told for all, for the name, or by the function given')
def p26_forced(ctx):
    f = fn(ctx, H + '_should_force_list')
    told = me('force_list')
    n = 0
    for p in list(ctx.paths(f)) + list(ctx.paths(failing(f))):
        if not p.normal:
            continue
        n += 1
        fs = allfacts(p)
        r = full(p.returns)
        if r == const(False):
            ctx.ob(truth(fs, told) is False or is_none(fs, told) or truth(fs, ('cmp', 'is', told, const(False))) or
                   truth(fs, ('cmp', 'in', A1, told)) is False, f.qual, f.where, 'a list is never forced')
        elif r == const(True):
            ctx.ob(truth(fs, ('cmp', 'in', A1, told)) or truth(fs, ('cmp', 'is', told, const(True))) or
                   truth(fs, told) and said(fs, lambda t: callname(t) == 'isinstance' and 'bool' in show(t[2][1])), f.qual, f.where, 'a list is forced for all')
        elif r == told:
            ctx.ob(said(fs, lambda t: callname(t) == 'isinstance' and 'bool' in show(t[2][1])) or truth(fs, told) is False, f.qual, f.where, 'the names told are not looked at')
        elif r[0] == 'cmp':
            ctx.ob(r == ('cmp', 'in', A1, told), f.qual, f.where, 'another name is looked for')
        elif r[0] == 'call':
            ctx.ob(full(r[1]) == told and [full(x) for x in r[2]] == [('sub', me('path'), ('slice', NIL, const(-1), NIL)), A1, A2] or
                   callname(r) == 'bool', f.qual, f.where, 'the function told is not given the path, the name and the value')
        else:
            ctx.ob(False, f.qual, f.where, 'a list is forced by something else: %s' % show(r)[:60])
    ctx.need(3, n, 'path of _should_force_list')


@rule('P26', 'names', 'a name is kept as it is without namespaces to replace; else its namespace is the one told for it, '
      'itself if none is told, and nothing if it is told empty')
def p26_names(ctx):
    f = fn(ctx, H + '_build_name')
    spaces, sep = me('namespaces'), me('namespace_separator')
    n = {'kept': 0, 'alone': 0, 'joined': 0}

    def cut(t):
        """'ns' or 'name': which side of the last separator t is."""
        t = full(t)
        if t[0] == 'sub' and full(t[1]) == A1 and t[2][0] == 'slice':
            lo, up = full(t[2][1]), full(t[2][2])
            if not (callname(lo if up == NIL else up) == 'rfind' or any(callname(x) == 'rfind' for x in subterms(t[2]))):
                return None
            return 'ns' if lo == NIL else 'name' if up == NIL else None
        if t[0] == 'sub' and callname(t[1]) in ('rsplit', 'rpartition') and full(receiver(full(t[1]))) == A1:
            return {const(0): 'ns'}.get(full(t[2]), 'name')
        return None

    for p in ctx.paths(f):
        if not p.normal:
            ctx.ob(False, f.qual, f.where, 'a name is refused')
            continue
        fs = allfacts(p)
        r = full(p.returns)
        none = said(fs, lambda t: t == ('cmp', 'is', spaces, NIL))
        if none is None and truth(fs, spaces) is not None:
            none = not truth(fs, spaces)
        bare = said(fs, lambda t: t[0] == 'cmp' and t[1] == 'eq' and any(callname(x) == 'rfind' for x in subterms(t)) or
                    t[0] == 'cmp' and t[1] == 'lt' and callname(t[2]) == 'rfind' and full(t[3]) == const(0))
        cont = truth(fs, ('cmp', 'in', sep, A1))
        if r == A1:
            n['kept'] += 1
            ctx.ob(none or bare or cont is False or any(full(t)[0] == 'caught' and b for t, b in fs), f.qual, f.where, 'a namespace to replace is kept')
        elif cut(r) == 'name':
            n['alone'] += 1
            ctx.ob(not none and any(not b and (full(t)[0] == 'sub' and full(full(t)[1]) == spaces or callname(t) == 'get' or cut(t) == 'ns') for t, b in fs),
                   f.qual, f.where, 'a namespace is lost')
        elif callname(r) == 'join' and full(receiver(r)) == sep and full(r[2][0])[0] in ('tuple', 'list') and len(full(r[2][0])[1]) == 2:
            n['joined'] += 1
            ns, name = (full(x) for x in full(r[2][0])[1])
            ok = cut(name) == 'name'
            if ns[0] == 'sub' and full(ns[1]) == spaces:
                ok = ok and cut(ns[2]) == 'ns'
            elif callname(ns) == 'get' and full(receiver(ns)) == spaces:
                ok = ok and cut(ns[2][0]) == 'ns' and (len(ns[2]) == 2 and cut(ns[2][1]) == 'ns')
            else:
                ok = ok and cut(ns) == 'ns' and any(full(t)[0] == 'caught' and b or full(t)[0] == 'cmp' and not b for t, b in fs)
            ctx.ob(ok and not none, f.qual, f.where, 'a name is not made of its namespace and itself: %s' % show(r)[:80])
        elif r[0] == 'bin':
            n['joined'] += 1
            ctx.ob(any(cut(x) == 'name' for x in subterms(r)) and any(x == sep for x in subterms(r)), f.qual, f.where, 'a name is not made of its namespace and itself')
        else:
            ctx.ob(False, f.qual, f.where, 'a name becomes something else: %s' % show(r)[:60])
    for k, v in n.items():
        ctx.need(1, v, 'path of _build_name: ' + k)


@rule('P26', 'start', 'an element which starts is put on the path, what is being read is put aside, and its attributes are read under their names, prefixed')
def p26_start(ctx):
    f = fn(ctx, H + 'startElement')
    n = m = 0
    for p in ctx.paths(f):
        if not p.normal:
            ctx.ob(False, f.qual, f.where, 'an element is refused')
            continue
        fs = allfacts(p)
        push = [e for e in p.calls('append') if full(receiver(e.term)) == me('path')]
        ok = len(push) == 1
        if ok:
            v = full(push[0].term[2][0])
            ok = v[0] == 'tuple' and len(v[1]) == 2 and callname(v[1][0]) == '_build_name' and full(full(v[1][0])[2][0]) == A1
        ctx.ob(ok, f.qual, f.where, 'an element is not put on the path under its name')
        deep = said(fs, lambda t: t[0] == 'cmp' and t[1] in ('lt', 'le', 'gt', 'ge') and me('item_depth') in subterms(t))
        saved = [e for e in p.calls('append') if full(receiver(e.term)) == me('stack')]
        sets = {full(e.term): e for e in p.events if e.kind == 'store' and full(e.term) in (me('item'), me('data'))}
        if not deep:
            ctx.ob(not saved and not sets, f.qual, f.where, 'what is being read is put aside above the depth asked')
            continue
        n += 1
        t = [x for x, b in fs if full(x)[0] == 'cmp' and me('item_depth') in subterms(full(x))][0]
        ok = len(saved) == 1 and full(saved[0].term[2][0]) == ('tuple', (me('item'), me('data')))
        ctx.ob(ok and full(t)[1] == 'lt' and full(full(t)[2]) == me('item_depth'), f.qual, f.where, 'what is being read is not put aside below the depth asked')
        ctx.ob(ok and len(sets) == 2 and all(at(p, saved[0]) < at(p, e) for e in sets.values()), f.qual, f.where, 'what is being read is lost before it is put aside')
        if len(sets) != 2:
            continue
        d = full(sets[me('data')].value)
        ctx.ob(d == ('list', ()) or d[0] == 'list' and not d[1] or callname(d) == 'list' and not d[2], f.qual, f.where, 'an element starts with the texts of another one')
        it = full(sets[me('item')].value)
        on = truth(fs, me('xml_attribs'))
        entries = [e for e in p.calls('append') if full(receiver(e.term)) not in (me('path'), me('stack'))]
        if on is False:
            ctx.ob(it == NIL, f.qual, f.where, 'attributes are read when they are not asked')
            continue
        ctx.ob(it == NIL or callname(it) == 'dict_constructor' or it[0] == 'or' and callname(full(it[1][0])) == 'dict_constructor' or
               any(callname(x) == 'dict_constructor' for x in subterms(it)), f.qual, f.where, 'the attributes are not what the element begins with')
        post = said(fs, lambda t: t == me('postprocessor'))
        if post is None:
            post = said(fs, lambda t: t == ('cmp', 'is', me('postprocessor'), NIL))
            post = None if post is None else not post
        for e in entries:
            v = full(e.term[2][0])
            c = v
            if callname(v) == 'postprocessor':
                ctx.ob(post is not False and len(v[2]) == 3 and full(v[2][0]) == me('path'), f.qual, e.where, 'the postprocessor is not given the path')
                k, val = full(v[2][1]), full(v[2][2])
                ctx.ob(truth(fs, c) is not False and is_none(fs, c) is not True, f.qual, e.where, 'an attribute the postprocessor refuses is kept')
            elif v[0] == 'tuple' and len(v[1]) == 2:
                ctx.ob(not post, f.qual, e.where, 'the postprocessor is not asked for an attribute')
                k, val = full(v[1][0]), full(v[1][1])
            else:
                ctx.ob(False, f.qual, e.where, 'an attribute becomes something else: %s' % show(v)[:60])
                continue
            m += 1
            named = [x for x in subterms(k) if callname(x) == '_build_name']
            ctx.ob(me('attr_prefix') in subterms(k) and len(named) == 1 and side(full(named[0][2][0])) == '0' and
                   (k[0] != 'bin' or k[1] != 'Add' or full(k[2]) == me('attr_prefix')), f.qual, e.where, 'an attribute is not under its name, prefixed: %s' % show(k)[:60])
            ctx.ob(side(val) == '1', f.qual, e.where, 'an attribute has not its value: %s' % show(val)[:60])
        if any(full(t)[0] in ('loop', 'looped') and b for t, b in fs) and not entries:
            ctx.ob(post and any(callname(t) == 'postprocessor' and not b or full(t)[0] == 'cmp' and callname(full(t)[2]) == 'postprocessor' and b for t, b in fs),
                   f.qual, f.where, 'an attribute is lost')
    ctx.need(1, n, 'element put aside')
    ctx.need(1, m, 'attribute read')
    g = fn(ctx, H + 'comments')
    for p in ctx.paths(g):
        c = [full(e.term) for e in p.calls('push_data')]
        s = [full(e.value) for e in p.events if e.kind == 'store' and full(e.term) == me('item')]
        text = c and full(c[0][2][2])
        asked = truth(allfacts(p), me('strip_whitespace'))
        ctx.ob(len(c) == 1 and s == c and full(c[0][2][0]) == me('item') and full(c[0][2][1]) == me('comment_key') and
               (text == A1 and not asked or callname(text) == 'strip' and full(receiver(text)) == A1 and asked), g.qual, g.where, 'a comment is not kept under its key')


def side(t):
    """'0' for the key of an item gone through, '1' for the value of it."""
    t = full(t)
    if t[0] == 'sub' and full(t[1])[0] == 'item':
        return {const(0): '0', const(1): '1'}.get(full(t[2]))
    if t[0] == 'item':
        return '0'
    if t[0] == 'sub' and side(t[2]) == '0':
        return '1'
    return None


def joined(t):
    """What the text is made of, when all of it is joined."""
    t = full(t)
    if callname(t) == 'strip' and not t[2]:
        t = full(receiver(t))
    if callname(t) == '_join_data':
        return full(t[2][-1])
    if callname(t) == 'join' and full(receiver(t)) == me('cdata_separator'):
        c = full(t[2][0])
        if c[0] == 'comp' and len(c[3]) == 1 and full(c[2][0])[0] == 'item':
            return full(c[3][0])
        return c
    return None


@rule('P26', 'end', 'an element which ends gives back what was put aside, where it goes under its name: with its text (all before its first child), and its tail '
      '(all after), or as its text if it has nothing else; a child separates the texts; the callback is asked at its depth, and stops the reading')
def p26_end(ctx):
    f = fn(ctx, H + 'endElement')
    n = {'text': 0, 'tail': 0, 'item': 0, 'alone': 0, 'stop': 0, 'forced': 0}
    for p in ctx.paths(f):
        # the callback may change what is read: what is known last comes first
        fs = allfacts(p)[::-1]
        asked = list(p.calls('item_callback'))
        here = said(fs, lambda t: t[0] == 'cmp' and t[1] == 'eq' and me('item_depth') in subterms(t))
        ctx.ob(len(asked) == (1 if here else 0), f.qual, f.where, 'the callback is not asked at its depth, or is elsewhere')
        go = truth(fs, full(asked[0].term)) if asked else True
        if p.outcome[0] == 'raise':
            n['stop'] += 1
            ctx.ob(go is False and 'ParsingInterrupted' in show(p.outcome[1]), f.qual, f.where, 'the reading is stopped when this is not asked')
            continue
        ctx.ob(go is not False, f.qual, f.where, 'the reading goes on when it is stopped')
        if asked:
            a = [full(x) for x in asked[0].term[2]]
            it = a[1] if len(a) == 2 else NIL
            ctx.ob(len(a) == 2 and a[0] == me('path') and (it == me('item') or it == NIL and truth(fs[::-1], me('data')) is False or joined(it) == me('data')), f.qual, asked[0].where,
                   'the callback is not given the path and what is read: %s' % show(it)[:60])
        pops = [e for e in p.calls('pop') if full(receiver(e.term)) == me('path')]
        ctx.ob(len(pops) == 1 and all(at(p, pops[0]) > at(p, e) for e in p.calls('push_data')) and all(at(p, pops[0]) > at(p, e) for e in asked), f.qual, f.where,
               'the path does not lose the element which ends, or loses it before it is read')
        held = truth(fs, me('stack'))
        back = [e for e in p.calls('pop') if full(receiver(e.term)) == me('stack')]
        stores = [e for e in p.events if e.kind == 'store' and full(e.term) in (me('item'), me('data'))]
        final = {full(e.term): full(e.value) for e in stores}
        if held is None:
            held = said(fs, lambda t: t[0] == 'cmp' and any(callname(x) == 'len' and full(x[2][0]) == me('stack') for x in subterms(t)))
        if not back:
            ctx.ob(not held and final.get(me('item')) == NIL and not list(p.calls('push_data')), f.qual, f.where, 'what was put aside is not taken back')
            continue
        top = full(back[0].term)
        ctx.ob(held is not False and len(back) == 1, f.qual, f.where, 'what was put aside is taken twice')
        ctx.ob(final.get(me('data')) == ('sub', top, const(1)) and any(full(e.value) == ('sub', top, const(0)) for e in stores) or
               final.get(me('data')) == ('sub', top, const(1)) and any(('sub', top, const(0)) in subterms(full(e.value)) for e in stores), f.qual, f.where,
               'what is being read is not what was put aside')
        seps = [e for e in p.calls('append') if full(receiver(e.term)) in (me('data'), ('sub', top, const(1)))]
        ctx.ob(len(seps) == 1 and full(seps[0].term[2][0]) == NIL and at(p, seps[0]) > at(p, back[0]), f.qual, f.where, 'an element does not separate the texts around it')
        pushes = [(e, [full(x) for x in e.term[2]]) for e in p.calls('push_data')]
        restored = min([at(p, e) for e in stores if full(e.term) == me('item')] or [0])

        def parent(e):
            """What is held is put in is what was put aside."""
            t = strip(e.term)[2][0]
            return full(t) == ('sub', top, const(0)) or full(t) == me('item') and strip(t)[0] != 'old' and at(p, e) > restored
        ups = [(e, a) for e, a in pushes if len(a) == 3 and parent(e)]
        ins = [(e, a) for e, a in pushes if len(a) == 3 and not parent(e)]
        ctx.ob(len(ups) == 1 and len(ups) + len(ins) == len(pushes) and callname(ups[0][1][1]) == '_build_name' and full(ups[0][1][1][2][0]) == A1 and
               final.get(me('item')) == full(ups[0][0].term), f.qual, f.where, 'an element is not put under its name in what holds it')
        if len(ups) != 1:
            continue
        given = ups[0][1][2]
        none = is_none(fs, me('item'))
        if none is None and truth(fs, me('item')) is not None:
            none = not truth(fs, me('item'))
        made = callname(given) == 'dict_constructor'
        whole = given if joined(given) is not None else None
        if whole is not None or given in (const(''), NIL):
            n['alone'] += 1
            ctx.ob(none and not ins and (joined(given) == me('data') if whole is not None else truth(fs, me('data')) is False), f.qual, f.where,
                   'an element with nothing else is not all of its text')
            continue
        if made:
            n['forced'] += 1
            ctx.ob(none and truth(fs, me('force_cdata')), f.qual, f.where, 'a mapping is made of an element which has only a text')
        else:
            n['item'] += 1
            ctx.ob(given == me('item') and not none, f.qual, f.where, 'an element is not what was read of it: %s' % show(given)[:60])
        # the texts which are there are kept, each in its place
        texts = {k: [(e, a) for e, a in ins if a[1] == me(k)] for k in ('cdata_key', 'cdata_tail_key')}
        ctx.ob(sum(map(len, texts.values())) == len(ins) and all(a[0] == given for e, a in ins) and all(len(v) <= 1 for v in texts.values()), f.qual, f.where,
               'a text is kept somewhere else')
        cuts = {}
        for t, b in list(fs) + [(a[2], True) for e, a in ins]:
            j = joined(t)
            if j is None:
                continue
            if j[0] == 'sub' and full(j[1]) == me('data') and j[2][0] == 'slice':
                lo, up = full(j[2][1]), full(j[2][2])
                k = 'cdata_key' if lo in (NIL, const(0)) else 'cdata_tail_key'
                cuts[k] = up if k == 'cdata_key' else lo
                ctx.ob((k == 'cdata_key' or up == NIL) and (j[2][3] if len(j[2]) > 3 else NIL) in (NIL, const(1)), f.qual, f.where, 'a text is cut: %s' % show(j)[:60])
            else:
                k = 'cdata_key' if j == me('data') else None
            if k:
                ctx.ob(bool(texts[k]) == bool(b), f.qual, f.where, 'the %s of an element is lost' % ('text' if k == 'cdata_key' else 'tail'))
        for k in texts:
            for e, a in texts[k]:
                n['text' if k == 'cdata_key' else 'tail'] += 1
                j = joined(a[2])
                ctx.ob(j is not None and not (j[0] == 'sub' and full(j[2])[0] == 'const'), f.qual, e.where, 'a text is not all of its pieces: %s' % show(a[2])[:60])
                if j is not None and j[0] == 'sub' and j[2][0] == 'slice':
                    ctx.ob((k == 'cdata_key') == (full(j[2][1]) in (NIL, const(0))), f.qual, e.where, 'the text and the tail are exchanged')
        if len(cuts) == 2:
            lo, up = cuts['cdata_tail_key'], cuts['cdata_key']
            ctx.ob(lo == up or lo == ('bin', 'Add', up, const(1)), f.qual, f.where, 'what is between the text and the tail is lost')
            if callname(up) == 'index':
                ctx.ob(full(receiver(up)) == me('data') and full(up[2][0]) == NIL, f.qual, f.where, 'the text does not end at the first child')
            elif callname(up) == 'len':
                ctx.ob(full(up[2][0]) == me('data') and not truth(fs, ('cmp', 'in', NIL, me('data'))), f.qual, f.where, 'the text does not end at the first child')
        elif truth(fs, me('data')) and not ins and not any(joined(t) is not None for t, b in fs):
            ctx.ob(False, f.qual, f.where, 'the texts of an element are lost')
    for k, v in n.items():
        ctx.need(1, v, 'path of endElement: ' + k)


@rule('P26', 'texts', 'every piece of a text is kept in order, and joined with the separator, the spaces around it being removed when this is asked')
def p26_texts(ctx):
    f = fn(ctx, H + 'characters')
    n = 0
    for p in ctx.paths(f):
        fs = allfacts(p)
        adds = [e for e in p.calls('append') if full(receiver(e.term)) == me('data')]
        sets = [full(e.value) for e in p.events if e.kind == 'store' and full(e.term) == me('data')]
        n += 1
        if sets:
            v = sets[-1]
            if v[0] == 'bin':
                ctx.ob(full(v[2]) == me('data') and A1 in subterms(full(v[3])), f.qual, f.where, 'a piece of a text is lost')
            else:
                ctx.ob(truth(fs, me('data')) is False and v[0] == 'list' and [full(x) for x in v[1]] == [A1] and not adds, f.qual, f.where, 'the text read before is lost')
        else:
            ctx.ob(p.normal and len(adds) == 1 and full(adds[0].term[2][0]) == A1, f.qual, f.where, 'a piece of a text is lost')
    ctx.need(1, n, 'path of characters')
    g = [x for x in ctx.repo.all_functions() if x.key == 'ngoschema.' + H + '_join_data']
    for g in g:
        for p in ctx.paths(g):
            fs = allfacts(p)
            r = full(p.returns) if p.normal else NIL
            asked = truth(fs, me('strip_whitespace'))
            stripped = callname(r) == 'strip'
            ctx.ob(p.normal and asked is not None and stripped == asked, g.qual, g.where, 'the spaces around a text are not those asked')
            j = full(receiver(r)) if stripped else r
            if callname(j) == 'strip':
                j = full(receiver(j))
            c = full(j[2][0]) if callname(j) == 'join' else NIL
            ok = callname(j) == 'join' and full(receiver(j)) == me('cdata_separator')
            if c[0] == 'comp':
                conds = [full(x) for x, b in c[4]] if len(c[4]) and isinstance(c[4][0], tuple) and len(c[4][0]) == 2 and isinstance(c[4][0][1], bool) else []
                ok = ok and full(c[3][0]) == A1 and full(c[2][0]) == ('item', A1) and len(c[4]) <= 1 and all(NIL in subterms(x) or x == ('item', A1) for x in conds)
            elif callname(c) == 'filter':
                ok = ok and full(c[2][1]) == A1
            else:
                ok = False
            ctx.ob(ok, g.qual, g.where, 'a piece of a text is lost when they are joined: %s' % show(r)[:80])


@rule('P26', 'parse', 'a document is read whole by a handler with the options given; comments are read and namespaces cut only if this is asked, entities are not expanded when they are disabled')
def p26_parse(ctx):
    f = fn(ctx, X + 'parse')
    names = [a.arg for a in f.node.args.args]
    pos = {a: ('arg', i) for i, a in enumerate(names)}
    for a in ('xml_input', 'encoding', 'process_namespaces', 'namespace_separator', 'disable_entities', 'process_comments'):
        if a not in pos:
            ctx.ob(False, f.qual, f.where, 'parse has no argument %s' % a)
            return
    for a, d in (('encoding', None), ('process_namespaces', False), ('namespace_separator', ':'), ('disable_entities', True), ('process_comments', False)):
        ctx.ob(default_of(f, a) == ('value', d), f.qual, f.where, '%s is not %r by default' % (a, d))
    handlers = {'StartElementHandler': 'startElement', 'EndElementHandler': 'endElement', 'CharacterDataHandler': 'characters',
                'StartNamespaceDeclHandler': 'startNamespaceDecl', 'CommentHandler': 'comments'}
    n = {'file': 0, 'pieces': 0, 'text': 0, 'closed': 0, 'comments': 0}
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = allfacts(p)
        hs = [full(e.term) for e in p.calls('_DictSAXHandler')]
        ps = [full(e.term) for e in p.calls('ParserCreate')]
        if not (len(hs) == 1 and len(ps) == 1):
            ctx.ob(False, f.qual, f.where, 'a document is not read by one handler and one parser')
            continue
        h, c = hs[0], ps[0]
        kws = [(k, full(v)) for k, v in h[3]]
        ctx.ob(dict((k, v) for k, v in kws if k).get('namespace_separator') == pos['namespace_separator'] and any(k in (None, '**') for k, v in kws), f.qual, f.where,
               'the handler has not the options given')
        cut = truth(fs, pos['process_namespaces'])
        sep = arg(c, 1, 'namespace_separator')
        ctx.ob(cut is not None and sep == (pos['namespace_separator'] if cut else NIL), f.qual, f.where, 'namespaces are cut when this is not asked, or are not when it is')
        ctx.ob(arg(c, 0, 'encoding') == pos['encoding'], f.qual, f.where, 'the encoding given is not the one read')
        sets = {}
        for e in p.events:
            if e.kind == 'store' and full(e.term)[0] == 'attr' and full(e.term)[1] != h:
                sets[full(e.term)[2]] = e
        fed = [e for e in p.events if e.kind == 'call' and callname(e.term) in ('Parse', 'ParseFile')]
        for k, m in handlers.items():
            on = k != 'CommentHandler' or truth(fs, pos['process_comments'])
            if k == 'CommentHandler' and on:
                n['comments'] += 1
            ctx.ob((k in sets) == bool(on) and (not on or full(sets[k].value)[0] == 'attr' and full(sets[k].value)[2] == m and all(at(p, sets[k]) < at(p, e) for e in fed)),
                   f.qual, f.where, '%s is not read by %s' % (k, m) if on else 'comments are read when they are not asked')
        off = truth(fs, pos['disable_entities'])
        feature = any(callname(e.term) == 'setFeature' and full(e.term[2][1]) == const(True) for e in p.events if e.kind == 'call')
        both = 'DefaultHandler' in sets and 'ExternalEntityRefHandler' in sets
        caught = any(full(t)[0] == 'caught' and b and 'setFeature' in show(t) for t, b in fs)
        if off:
            n['closed'] += 1
            ctx.ob(both or feature, f.qual, f.where, 'entities are expanded when they are disabled')
            for k in ('DefaultHandler', 'ExternalEntityRefHandler'):
                if k in sets:
                    ctx.ob(all(at(p, sets[k]) < at(p, e) for e in fed) and full(sets[k].value) != NIL, f.qual, f.where, 'entities are disabled once they are read')
        else:
            ctx.ob(off is False and 'DefaultHandler' not in sets and 'ExternalEntityRefHandler' not in sets, f.qual, f.where, 'entities are disabled when this is not asked')
        file = said(fs, lambda t: callname(t) == 'hasattr' and full(t[2][0]) == pos['xml_input'] and full(t[2][1]) == const('read'))
        gen = said(fs, lambda t: callname(t) == 'isgenerator' and full(t[2][0]) == pos['xml_input'])
        whats = [(callname(e.term), [full(x) for x in e.term[2]]) for e in fed]
        if file:
            n['file'] += 1
            ctx.ob(whats == [('ParseFile', [pos['xml_input']])], f.qual, f.where, 'a file is not read whole')
        elif gen:
            n['pieces'] += 1
            ok = bool(whats) and whats[-1][0] == 'Parse' and len(whats[-1][1]) == 2 and whats[-1][1][1] in (const(True), const(1))
            went = any(full(t)[0] in ('loop', 'looped') and b for t, b in fs)
            more = whats[:-1]
            ok = ok and all(w[1][0] == ('item', pos['xml_input']) and (len(w[1]) == 1 or w[1][1] in (const(False), const(0))) for w in more)
            ctx.ob(ok and (not went or bool(more) or any(full(t)[0] == 'empty' and b for t, b in fs)), f.qual, f.where, 'the pieces of a document are not all read, or the document is not ended')
        else:
            n['text'] += 1
            ctx.ob(file is False and gen is False and len(whats) == 1 and whats[0][0] == 'Parse' and whats[0][1][0] == pos['xml_input'] and
                   whats[0][1][1:] in ([const(True)], [const(1)]), f.qual, f.where, 'a text is not read whole')
        ctx.ob(full(p.returns) == ('attr', h, 'item'), f.qual, f.where, 'what is read is not given back')
    for k, v in n.items():
        ctx.need(1, v, 'way to parse: ' + k)


def failing(f):
    """The function where what is tried fails."""
    class Fails(ast.NodeTransformer):
        def visit_Try(self, node):
            self.generic_visit(node)
            return [s for h in node.handlers for s in h.body] or node
    return FuncInfo(f.name + '_failing', ast.fix_missing_locations(Fails().visit(copy.deepcopy(f.node))), f.module, f.cls, f.outer)


def fixed(f, **vals):
    """The function where some of its options have the values told."""
    n = copy.deepcopy(f.node)
    doc = 1 if ast.get_docstring(n) else 0
    n.body = n.body[:doc] + ast.parse('\n'.join('%s = %r' % kv for kv in vals.items())).body + n.body[doc:]
    ast.fix_missing_locations(n)
    return FuncInfo(f.name, n, f.module, f.cls, f.outer)


HANDLER = A2


def parameters(f):
    return [a.arg for a in f.node.args.posonlyargs + f.node.args.args]


def made_of(t):
    """The allocated value, whatever was done to it since."""
    return unold(t)


@rule('P26', 'emit', 'every value of a key is an element, which begins with its attributes (the keys prefixed, the prefix being removed), then has its text, '
      'its children in order, written with the same options, and its tail, and ends; nothing is left out; a full document has only one root')
def p26_emit(ctx):
    f = fn(ctx, X + '_emit')
    names = parameters(f)
    at_ = {a: ('arg', i) for i, a in enumerate(names)}
    for a in ('key', 'value', 'attr_prefix', 'cdata_key', 'cdata_tail_key', 'depth', 'full_document', 'namespaces', 'namespace_separator'):
        if a not in at_:
            ctx.ob(False, f.qual, f.where, '_emit has no argument %s' % a)
            return
    g = fixed(f, pretty=False, preprocessor=None, expand_iter=None)
    n = {'element': 0, 'text': 0, 'tail': 0, 'child': 0, 'attribute': 0, 'roots': 0}
    prefix = at_['attr_prefix']

    def kind(fs, key):
        """What the key of a mapping is told to be."""
        for k in ('cdata_key', 'cdata_tail_key'):
            if truth(fs, ('cmp', 'eq', key, at_[k])) or truth(fs, ('cmp', 'eq', at_[k], key)):
                return k
        b = said(fs, lambda t: callname(t) == 'startswith' and full(receiver(t)) == key and full(t[2][0]) == prefix)
        return {True: 'attribute', False: 'child', None: None}[b]

    def held(t):
        """(key, mapping) of the value of a key of a mapping gone through, what it is written as being looked through."""
        t = full(t)
        while callname(t) in ('_to_text', 'str'):
            t = full(t[2][0])
        if t[0] == 'sub' and full(t[2])[0] == 'item':
            return full(t[2])
        if t[0] == 'sub' and full(t[1])[0] == 'item' and full(t[2]) == const(1):
            return ('sub', full(t[1]), const(0))
        return None

    def textual(fs, t):
        """The term is known to be a text, of a boolean or of a number as of others."""
        t = full(t)
        def is_a(x, c):
            return said(fs, lambda y: callname(y) == 'isinstance' and len(y[2]) == 2 and full(y[2][0]) == x and show(full(y[2][1])).split('.')[-1] in c)
        if callname(t) == '_to_text':
            return True
        if callname(t) == 'str' and len(t[2]) == 1:
            return callname(full(t[2][0])) == '_to_text' or is_a(full(t[2][0]), ('bool',)) is False
        return t[0] == 'const' or bool(is_a(t, ('str',)))

    for p in ctx.paths(g):
        fs = allfacts(p)
        ev = [e for e in p.events if e.kind == 'call' and full(receiver(e.term) or NIL) == HANDLER or e.kind == 'call' and callname(e.term) == '_emit']
        starts = [e for e in ev if callname(e.term) == 'startElement']
        ends = [e for e in ev if callname(e.term) == 'endElement']
        if p.outcome[0] == 'raise':
            if 'multiple roots' in show(p.outcome[1]):
                n['roots'] += 1
                ctx.ob(truth(fs, at_['full_document']) and (truth(fs, at_['depth']) is False or said(fs, lambda t: t[0] == 'cmp' and t[1] == 'eq' and at_['depth'] in subterms(t))), f.qual, f.where,
                       'several values are refused which are not roots')
                for t, b in fs:
                    t = full(t)
                    if t[0] == 'cmp' and t[1] in ('lt', 'le', 'eq') and [x for x in t[2:4] if counter(x)] and [x for x in t[2:4] if full(x)[0] == 'const']:
                        ctx.ob((t[:3], b) in ((('cmp', 'lt', const(0)), True), (('cmp', 'le', const(1)), True)) or (t[1], t[3], b) in (
                            ('eq', const(0), False), ('lt', const(1), False), ('le', const(0), False)), f.qual, f.where, 'a second root is written: %s' % show(t)[:60])
            continue
        if not starts:
            ctx.ob(not ends and not ev and not any(full(t)[0] in ('loop', 'looped') and b for t, b in fs), f.qual, f.where, 'a value is not written')
            continue
        if len(starts) > 1:
            continue
        n['element'] += 1
        i0, i1 = at(p, starts[0]), at(p, ends[0]) if len(ends) == 1 else -1
        ctx.ob(len(ends) == 1 and all(i0 <= at(p, e) <= i1 for e in ev) and full(starts[0].term[2][0]) == full(ends[0].term[2][0]), f.qual, starts[0].where,
               'an element does not begin before what it holds, or does not end after, under the same name')
        k = full(starts[0].term[2][0])
        ctx.ob(callname(k) == '_process_namespace' and full(k[2][0]) == at_['key'], f.qual, starts[0].where, 'an element has another name: %s' % show(k)[:60])
        # the texts
        texts = [e for e in ev if callname(e.term) == 'characters']
        emits = [e for e in ev if callname(e.term) == '_emit']
        keys = {full(t)[2] for t, b in fs if full(t)[0] == 'cmp' and full(t)[1] == 'eq' and full(t)[3] in (at_['cdata_key'], at_['cdata_tail_key'])}
        got = set()
        for t in {x for e in p.events if e.kind == 'call' and callname(e.term) == 'OrderedDict' for x in subterms(full(e.term))
                  if x[0] == 'tuple' and len(x[1]) == 2 and full(x[1][0]) == at_['cdata_key']}:
            v = full(t[1][1])
            ctx.ob(callname(v) == 'OrderedDict' or textual(fs, v), f.qual, f.where, 'a number or a boolean is not written as its text')
        for e in texts:
            ctx.ob(textual(fs, e.term[2][0]), f.qual, e.where, 'a text which is not one is written')
            key = held(e.term[2][0])
            what = key and kind(fs, key)
            if what in ('cdata_key', 'cdata_tail_key'):
                n['text' if what == 'cdata_key' else 'tail'] += 1
                got.add(key)
                ctx.ob(all((at(p, e) < at(p, c)) == (what == 'cdata_key') for c in emits), f.qual, e.where,
                       'the text is written after the children, or the tail before')
            else:
                ctx.ob(False, f.qual, e.where, 'something else is written as a text: %s' % show(e.term[2][0])[:60])
        attrs = full(starts[0].term[2][1])
        inner = strip(starts[0].term)[2][1]
        stores = [e for e in p.events if e.kind == 'store' and full(e.term)[0] == 'sub' and at(p, e) < i0]
        adds = [e for e in p.calls('append') if full(e.term[2][0])[0] == 'tuple']
        ctx.ob(callname(attrs) == 'AttributesImpl', f.qual, starts[0].where, 'an element begins without its attributes')
        for key in keys:
            what = kind(fs, key)
            if what in ('cdata_key', 'cdata_tail_key') and key not in got:
                none = any(full(t)[0] == 'cmp' and full(t)[1] == 'is' and full(t)[3] == NIL and b and held(full(t)[2]) == key for t, b in fs)
                ctx.ob(none or given_none(fs, key), f.qual, f.where, 'the %s of an element is not written' % ('text' if what == 'cdata_key' else 'tail'))
            elif what == 'attribute':
                n['attribute'] += 1
                mine = [e for e in stores if key in subterms(full(e.term)) or key in subterms(full(e.value))]
                spaces = said(fs, lambda t: t[0] == 'cmp' and t[1] == 'eq' and const('@xmlns') in (full(t[2]), full(t[3])))
                ok = bool(mine) or bool(spaces)
                for e in mine:
                    name = full(full(e.term)[2])
                    ctx.ob(textual(fs, e.value) or spaces, f.qual, e.where, 'a number or a boolean is not written as its text in an attribute')
                    if spaces and not (name[0] == 'sub' and name[2][0] == 'slice'):
                        continue
                    cut = name[0] == 'sub' and name[2][0] == 'slice' and name[2][1:3] == (('call', ('name', 'len'), (prefix,), ()), NIL)
                    other = callname(name) == 'removeprefix' and full(name[2][0]) == prefix
                    ok = ok and (cut or other) and key in subterms(name) and held(e.value) == key
                ctx.ob(ok, f.qual, f.where, 'an attribute is not written with its value, under its name without its prefix')
                ctx.ob(not any(key in subterms(full(e.term[2][0])) for e in adds), f.qual, f.where, 'an attribute is written as a child')
            elif what == 'child':
                mine = [e for e in adds if full(e.term[2][0])[0] == 'tuple' and full(full(e.term[2][0])[1][0]) == key and held(full(e.term[2][0])[1][1]) == key]
                direct = [e for e in emits if full(e.term[2][0]) == key]
                n['child'] += 1
                ctx.ob(len(mine) == 1 or len(direct) == 1, f.qual, f.where, 'a child of an element is not written')
        ctx.ob(not texts or all(held(e.term[2][0]) for e in texts), f.qual, f.where, 'a text which is not there is written')
        for e in emits:
            b = {}
            for i, a in enumerate(e.term[2]):
                b[names[i] if i < len(names) else i] = full(a)
            b.update({a: full(v) for a, v in e.term[3]})
            ctx.ob(b.get('content_handler') == HANDLER and b.get('depth') == ('bin', 'Add', at_['depth'], const(1)), f.qual, e.where, 'a child is written elsewhere, or at another depth')
            for a in names:
                if a in ('key', 'value', 'content_handler', 'depth', 'full_document', 'pretty', 'preprocessor', 'expand_iter'):
                    if a not in ('pretty', 'preprocessor', 'expand_iter') or b.get(a) is not None:
                        continue
                    ctx.ob(False, f.qual, e.where, 'a child is written without the option %s' % a)
                    continue
                ctx.ob(b.get(a) == at_[a], f.qual, e.where, 'a child is written without the option %s' % a)
            ck, cv = b.get('key', NIL), b.get('value', NIL)
            ctx.ob((side(ck), side(cv)) == ('0', '1') or ck[0] == 'sub' and cv[0] == 'sub' and full(ck[1]) == full(cv[1]) and (full(ck[2]), full(cv[2])) == (const(0), const(1)) or
                   held(cv) == ck, f.qual, e.where, 'a child is not written under its name')
    for k, v in n.items():
        ctx.need(1, v, 'path of _emit: ' + k)
    g = fn(ctx, X + '_process_namespace')
    m = 0
    for p in ctx.paths(g):
        if not p.normal:
            continue
        fs = allfacts(p)
        r = full(p.returns)
        m += 1
        told = truth(fs, A1)
        if told is False:
            ctx.ob(r == A0, g.qual, g.where, 'a name is changed when there are no namespaces')
        got = [x for x in subterms(r) if callname(x) == 'get' and full(receiver(x)) == A1]
        if r[0] in ('call', 'fstr', 'bin') and callname(r) == 'format':
            ctx.ob(bool(got) and said(fs, lambda t: t in got) is True, g.qual, g.where, 'a name loses its namespace')
            ctx.ob(any(x == A2 for x in subterms(r)), g.qual, g.where, 'a namespace is not separated of its name')
    ctx.need(2, m, 'path of _process_namespace')
    if any(x.key == 'ngoschema.' + X + '_to_text' for x in ctx.repo.all_functions()):
        h = fn(ctx, X + '_to_text')
        for p in ctx.paths(h):
            fs = allfacts(p)
            r = full(p.returns)
            flag = said(fs, lambda t: callname(t) == 'isinstance' and 'bool' in show(t[2][1]))
            v = truth(fs, A0)
            same = [full(t)[3] for t, b in fs if b and full(t)[0] == 'cmp' and full(t)[1] == 'is' and full(t)[2] == A0]
            if same and same[0] in (const(True), const(False)):
                flag, v = True, same[0] == const(True)
            elif truth(fs, ('cmp', 'is', A0, const(True))) is False and truth(fs, ('cmp', 'is', A0, const(False))) is False:
                flag = False
            if flag is None and callname(r) == 'str':
                ctx.ob(False, h.qual, h.where, 'a boolean is written as its name')
                continue
            lowered = callname(r) == 'lower' and callname(full(receiver(r))) == 'str' and full(full(receiver(r))[2][0]) == A0
            ctx.ob(p.normal and (bool(flag and lowered) or (r == const('true') and v is True if flag and v else r == const('false') and v is False if flag else callname(r) == 'str' and full(r[2][0]) == A0)),
                   h.qual, h.where, 'a value is written as %s' % show(r)[:60])


def counter(t):
    """The number of an item gone through."""
    t = full(t)
    return t[0] == 'index' or t[0] == 'sub' and full(t[2]) == const(0) and full(t[1])[0] == 'item' and callname(full(t[1])[1]) == 'enumerate'


def given_none(fs, key):
    """A text which is nothing is known to be."""
    m = key[1] if key[0] in ('item', 'sub') else key
    return any(full(t)[0] == 'cmp' and full(t)[1] == 'is' and full(t)[3] == NIL and b and
               (any(x == key for x in subterms(full(t)[2])) or any(full(t)[2] == x for x in subterms(m))) for t, b in fs)


@rule('P26', 'unparse', 'each key is written in order by the same handler, between the start and the end of a full document, which has exactly one root; '
      'the text written is given back when no output is given')
def p26_unparse(ctx):
    f = fn(ctx, X + 'unparse')
    names = parameters(f)
    pos = {a: ('arg', i) for i, a in enumerate(names)}
    for a in ('input_dict', 'output', 'encoding', 'full_document'):
        if a not in pos:
            ctx.ob(False, f.qual, f.where, 'unparse has no argument %s' % a)
            return
    ctx.ob(default_of(f, 'full_document') == ('value', True) and default_of(f, 'output') in (('value', None), ('none', None)), f.qual, f.where,
           'a document is not full, or is written elsewhere, by default')
    n = {'refused': 0, 'full': 0, 'part': 0, 'text': 0, 'output': 0}
    one = ('cmp', 'eq', ('call', ('name', 'len'), (pos['input_dict'],), ()), const(1))
    for p in ctx.paths(f):
        fs = allfacts(p)
        whole = truth(fs, pos['full_document'])
        if p.outcome[0] == 'raise':
            n['refused'] += 1
            ctx.ob(whole and truth(fs, one) is False and not list(p.calls('startDocument')), f.qual, f.where, 'what has one root, or is not a full document, is refused')
            continue
        ctx.ob(whole is False or truth(fs, one), f.qual, f.where, 'a full document has not exactly one root')
        hs = list(p.calls('XMLGenerator'))
        st, en, em = list(p.calls('startDocument')), list(p.calls('endDocument')), list(p.calls('_emit'))
        n['full' if whole else 'part'] += 1
        ctx.ob(len(st) == len(en) == (1 if whole else 0) and len(hs) == 1, f.qual, f.where, 'a document is not begun and ended')
        if len(hs) != 1:
            continue
        none = is_none(fs, pos['output'])
        a = [full(x) for x in hs[0].term[2]]
        out = arg(hs[0].term, 0, 'out')
        ctx.ob(arg(hs[0].term, 1, 'encoding') == pos['encoding'] and (callname(out) == 'StringIO' if none else out == pos['output']), f.qual, hs[0].where,
               'a document is not written where it is asked, in its encoding')
        for e in st + en + em:
            x = full(e.term[2][2]) if callname(e.term) == '_emit' else full(receiver(e.term))
            ctx.ob(x == full(hs[0].term), f.qual, e.where, 'a document is written by several handlers')
        for e in em:
            ctx.ob(all(at(p, s) < at(p, e) for s in st) and all(at(p, s) > at(p, e) for s in en), f.qual, e.where, 'an element is written out of the document')
            b = [full(x) for x in e.term[2]]
            kws = [(k, full(v)) for k, v in e.term[3]]
            ctx.ob(side(b[0]) == '0' and side(b[1]) == '1' and dict((k, v) for k, v in kws if k).get('full_document') == pos['full_document'] and
                   any(k in (None, '**') for k, v in kws), f.qual, e.where, 'a root is not written as it is given, with the options given')
        if any(full(t)[0] == 'loop' and b for t, b in fs):
            ctx.ob(len(em) >= 1, f.qual, f.where, 'a root is not written')
        r = full(p.returns)
        if none:
            n['text'] += 1
            ctx.ob(any(callname(x) == 'getvalue' and full(receiver(x)) == out for x in subterms(r)), f.qual, f.where, 'the text written is not given back')
        else:
            n['output'] += 1
    for k, v in n.items():
        ctx.need(1, v, 'path of unparse: ' + k)
