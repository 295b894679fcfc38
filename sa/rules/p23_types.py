"""P23: a value of a type is what the type says, whatever the form it is given in."""
import ast
from ..core import rule
from ..lib import *
from .p17_contexts import fn, kw, A0, A1, A2, A3, KW, ARGS
from .p22_files import full


def last(t):
    t = full(t)
    if t[0] == 'name':
        return t[1].split('.')[-1]
    if t[0] == 'attr':
        return t[2]
    return None


def classes(t):
    t = full(t)
    if t[0] in ('tuple', 'list') and len(t) > 1 and isinstance(t[1], tuple):
        return [c for x in t[1] for c in classes(x)]
    if t[0] == 'bin' and t[1] in ('Add', 'BitOr'):
        return classes(t[2]) + classes(t[3])
    return [last(t)]


def kinds(fs, subject):
    """({classes one of which the subject is an instance of}..., {classes it is no instance of})."""
    yes, no = [], set()
    for t, b in fs:
        t = full(t)
        if callname(t) == 'isinstance' and len(t[2]) == 2 and full(t[2][0]) == subject:
            if b:
                yes.append(set(classes(t[2][1])))
            else:
                no |= set(classes(t[2][1]))
    return yes, no


def is_a(fs, subject, names):
    """Certainly an instance of one of names."""
    yes, no = kinds(fs, subject)
    return any(y - no <= set(names) and y - no for y in yes)


def is_none(fs, subject):
    return holds_none(fs, subject) is True


def holds_none(fs, subject):
    for t, b in fs:
        t = full(t)
        if t[0] == 'cmp' and t[1] in ('is', 'eq') and {full(t[2]), full(t[3])} == {subject, const(None)}:
            return b
    return None


def truth(fs, term):
    for t, b in fs:
        if full(t) == term:
            return b
    return None


def settings_of(t):
    return {x[2] if x[0] == 'attr' else x[1] for x in subterms(full(t)) if x[0] in ('attr', 'name') and isinstance(x[-1], str) and x[-1].isupper()}


def text_of(t, subject=A1):
    """The text given: the value itself or what its conversion to a string is."""
    t = full(t)
    return t == subject or (callname(t) in ('convert', '_convert', 'str', 'strip') and any(x == subject for x in subterms(t)) and
                            ('String' in show(t) or callname(t) in ('str', 'strip')))


def is_read(t, subject=A1):
    """(text, formats) of arrow.get(text, formats)."""
    t = full(t)
    if any(x[0] == 'bin' and x[1] != 'Add' for a in (t[2][1:2] if t[0] == 'call' else ()) for x in subterms(full(a))):
        return None
    if t[0] == 'call' and show(t[1]).endswith('arrow.get') and t[2] and text_of(t[2][0], subject):
        return t[2][0], (settings_of(t[2][1]) if len(t[2]) > 1 else None)
    return None


def method_of(t, *names):
    """X of X.name()."""
    t = full(t)
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in names and not t[2]:
        return full(t[1][1])
    return None


def listed(fs, names, want=True):
    for t, b in fs:
        t = full(t)
        if t[0] == 'cmp' and t[1] == 'in' and text_of(t[2]) and b is want:
            s = settings_of(t[3])
            if s and (s <= set(names) if want else s & set(names)):
                return True
    return False


def bare(fs, subject, part, zero):
    """The fact that the other part of the value is not set (True / False / None)."""
    for t, b in fs:
        t = full(t)
        if t[0] == 'cmp' and t[1] == 'eq':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if method_of(x, part) == subject and callname(full(y)) in zero[0] and full(y)[2] in zero[1]:
                    return b
                if method_of(x, part) == subject and last(y) == zero[2]:
                    return b
        if method_of(t, part) == subject and part == 'time':
            return None
    return None


ZERO = {'time': (('time',), ((const(0), const(0)), (), (const(0),), (const(0), const(0), const(0))), 'min'),
        'date': (('date',), ((const(1), const(1), const(1)),), 'min')}
NOW, TODAY = 'DATETIME_NOW_STRINGS', 'DATE_TODAY_STRINGS'


def now(t):
    return full(t)[0] == 'call' and show(full(t)[1]).endswith(('utcnow',)) and not full(t)[2]


def half(ctx, key, own, other, formats):
    """The conversion to the half of a datetime, the other half being unset."""
    f = fn(ctx, key)
    seen, halves = set(), set()
    own_m = (own,) if own == 'date' else ('time', 'timetz')
    for p in ctx.paths(f, implicit=True):
        fs = allfacts(p)
        caught = any(t[0] == 'caught' for t, b in fs)
        if p.normal:
            t = full(p.returns)
            x = method_of(t, *own_m)
            if t in (A1, const(None)):
                none = is_none(fs, A1)
                yes, no = kinds(fs, A1)
                ok = none or t == A1 and is_a(fs, A1, [own]) and (own == 'time' or {'datetime'} <= no)
                ctx.ob(ok, f.qual, f.where, '%s is given back although it may not be a %s' % (show(t), own))
                seen.add('none' if none else 'same')
            elif x == A1:
                halves |= set().union(*kinds(fs, A1)[0])
                ctx.ob(is_a(fs, A1, ['datetime', 'Arrow']) and bare(fs, A1, other, ZERO[other]) is True, f.qual, f.where,
                       'the %s of a datetime is kept although its %s may be set' % (own, other))
                seen.add('half')
            elif x is not None and now(x):
                ctx.ob(listed(fs, [NOW, TODAY]), f.qual, f.where, 'the present %s stands for a text which does not say it' % own)
                ctx.ob(truth_check(fs) is True, f.qual, f.where, 'what may not be a text is read as one')
                seen.add('now')
            elif x is not None and is_read(x) and is_read(x)[1]:
                s = is_read(x)[1]
                ctx.ob(s <= set(formats), f.qual, f.where, 'a %s is read with %s' % (own, ', '.join(sorted(s))))
                ctx.ob(bare(fs, x, other, ZERO[other]) is True, f.qual, f.where, 'a text is read as a %s although it may give a %s too' % (own, other))
                ctx.ob(not listed(fs, [NOW, TODAY]), f.qual, f.where, 'a text which stands for the present is read as another one')
                ctx.ob(truth_check(fs) is True, f.qual, f.where, 'what may not be a text is read as one')
                seen |= s
            else:
                ctx.ob(False, f.qual, f.where, 'a value becomes %s' % show(t)[:120])
        elif p.outcome[0] == 'raise':
            ctx.ob(exc_name(p.outcome[1]) in ('InvalidValue', 'ConversionError'), f.qual, f.where, 'a value is refused with %s' % exc_name(p.outcome[1]))
            good = is_none(fs, A1) or is_a(fs, A1, [own]) and 'datetime' in kinds(fs, A1)[1] | ({'datetime'} if own == 'time' else set()) or \
                is_a(fs, A1, ['datetime', 'Arrow']) and bare(fs, A1, other, ZERO[other]) is True or listed(fs, [NOW, TODAY]) and not caught
            ctx.ob(not good, f.qual, f.where, 'a %s is refused' % own)
            ctx.ob(caught or truth_check(fs) is not True, f.qual, f.where, 'a text is refused without being read')
        elif not caught and 'AssertionError' in str(p.outcome[1]):
            ctx.ob(False, f.qual, f.where, 'what is not a %s is refused by an assertion' % own)
    ctx.ob({'Arrow', 'datetime'} <= halves, f.qual, f.where, 'a datetime of either kind whose %s is not set is no %s' % (other, own))
    for w in ['none', 'same', 'half', 'now'] + list(formats):
        ctx.ob(w in seen, f.qual, f.where, 'no path: %s' % {
            'none': 'None stays None', 'same': 'a %s stays what it is' % own, 'half': 'a datetime is a %s when its %s is not set' % (own, other),
            'now': 'a text stands for the present'}.get(w, 'a text is read with %s' % w))


@rule('P23', 'datetimes', 'a date is made of a date, of a datetime whose time is not set, of the texts which stand for today, or of a text read with the formats of dates; '
      'a time likewise; a datetime is made of a datetime, with its time zone, of the texts which stand for now and today, of the ISO form, or of both halves of the text; '
      'anything else is refused as invalid')
def p23_datetimes(ctx):
    half(ctx, 'types.datetime:Date._convert', 'date', 'time', ['DATE_FORMATS', 'ALT_DATE_FORMATS'])
    half(ctx, 'types.datetime:Time._convert', 'time', 'date', ['ALT_TIME_FORMATS'])
    f = fn(ctx, 'types.datetime:Datetime._convert')
    seen = set()
    for p in ctx.paths(f, implicit=True):
        fs = allfacts(p)
        if p.normal:
            t = full(p.returns)
            iso = any(full(x)[0] == 'cmp' and full(x)[1] == 'in' and full(x)[2] == const('T') and b for x, b in fs)
            said = {k for k in (NOW, TODAY) if listed(fs, [k])}
            if t in (A1, const(None)):
                none = is_none(fs, A1)
                ctx.ob(none or t == A1 and is_a(fs, A1, ['Arrow']), f.qual, f.where, '%s is given back although it may not be a datetime' % show(t))
                seen.add('none' if none else 'same')
            elif now(t):
                ctx.ob(said == {NOW}, f.qual, f.where, 'a text which does not say it becomes the present')
                ctx.ob(truth_check(fs) is True, f.qual, f.where, 'what may not be a text is read as one')
                seen.add('now')
            elif t[0] == 'call' and show(t[1]).endswith('arrow.get') and len(t[2]) == 1:
                x = full(t[2][0])
                if x == A1 and is_a(fs, A1, ['datetime']):
                    ctx.ob(not t[3] or all(k != 'tzinfo' for k, v in t[3]), f.qual, f.where, 'the time zone of a datetime is replaced')
                    seen.add('datetime')
                elif text_of(x):
                    ctx.ob(iso and not said, f.qual, f.where, 'a text is read in the ISO form although it may not be in that form')
                    ctx.ob(truth_check(fs) is True, f.qual, f.where, 'what may not be a text is read as one')
                    seen.add('iso')
                elif method_of(x, 'date') is not None and now(method_of(x, 'date')):
                    ctx.ob(said == {TODAY}, f.qual, f.where, 'a text which does not say it becomes the present day')
                    seen.add('today')
                elif callname(x) == 'combine' and len(x[2]) == 2:
                    d, h = method_of(x[2][0], 'date'), method_of(x[2][1], 'timetz')
                    ok = d is not None and is_read(d) and (is_read(d)[1] or set()) and is_read(d)[1] <= {'DATE_FORMATS', 'ALT_DATE_FORMATS'}
                    ctx.ob(bool(ok), f.qual, f.where, 'the date of a datetime is %s' % show(x[2][0])[:120])
                    ok = h is not None and is_read(h) and (is_read(h)[1] or set()) and is_read(h)[1] <= {'ALT_TIME_FORMATS'}
                    ctx.ob(bool(ok), f.qual, f.where, 'the time of a datetime, its time zone included, is %s' % show(x[2][1])[:120])
                    ctx.ob(not said and not iso, f.qual, f.where, 'a text which is in another form is read as a date and a time')
                    ctx.ob(truth_check(fs) is True, f.qual, f.where, 'what may not be a text is read as one')
                    seen.add('halves')
                else:
                    ctx.ob(False, f.qual, f.where, 'a value becomes %s' % show(t)[:120])
            else:
                ctx.ob(False, f.qual, f.where, 'a value becomes %s' % show(t)[:120])
        elif p.outcome[0] == 'raise':
            ctx.ob(exc_name(p.outcome[1]) in ('InvalidValue', 'ConversionError'), f.qual, f.where, 'a value is refused with %s' % exc_name(p.outcome[1]))
            ctx.ob(not (is_none(fs, A1) or is_a(fs, A1, ['Arrow', 'datetime'])), f.qual, f.where, 'a datetime is refused')
            ctx.ob(truth_check(fs) is not True or any(t[0] == 'caught' for t, b in fs), f.qual, f.where, 'a text is refused without being read')
        elif not any(t[0] == 'caught' for t, b in fs):
            # what a text which is not understood raises
            ctx.ob(truth_check(fs) is not True, f.qual, f.where, 'a text which is not understood is refused otherwise than as invalid')
    for w, what in (('none', 'None stays None'), ('same', 'a datetime stays what it is'), ('now', 'a text stands for now'), ('today', 'a text stands for today'),
                    ('datetime', 'a datetime of the standard library is one'), ('iso', 'the form in which a datetime is serialized is read'),
                    ('halves', 'a text is read as a date and a time')):
        ctx.ob(w in seen, f.qual, f.where, 'no path: %s' % what)


def truth_check(fs):
    for t, b in fs:
        t = full(t)
        if callname(t) == 'check' and 'String' in show(t[1]) or callname(t) == 'isinstance' and last(t[2][1]) == 'str':
            return b
    return None


@rule('P23', 'datetimes-out', 'a date, a time or a datetime is serialized with the format asked, else that of its type, a name standing for the format it is that of; '
      'without a format in the ISO form, which reads back')
def p23_datetimes_out(ctx):
    f = fn(ctx, 'types.datetime:_dt_serialize')
    n, forms = 0, set()
    for p in ctx.paths(f, implicit=True):
        fs = allfacts(p)
        if not p.normal:
            ctx.ob(p.outcome[0] != 'raise', f.qual, f.where, 'a date is refused')
            continue
        n += 1
        t = full(p.returns)
        given = [b for x, b in fs if find("KWARGS.get('format')", x) is not None and find('A0._schema', x) is None and full(x)[0] != 'cmp'
                 and find('DATETIME_FORMATS', x) is None and find('settings.DATETIME_FORMATS', x) is None]
        given += [not b for x, b in fs if match("KWARGS.get('format') is None", full(x)) is not None]
        if t == const(None):
            ctx.ob(truth(fs, A1) is False or is_none(fs, A1), f.qual, f.where, 'a date is serialized as nothing')
        elif method_of(t, 'isoformat') is not None:
            ctx.ob(method_of(t, 'isoformat') == A1, f.qual, f.where, 'another date is serialized')
            fmt = [b for x, b in fs if find('settings.DATETIME_FORMATS', x) is not None and full(x)[0] != 'cmp']
            ctx.ob(False in fmt or not fmt, f.qual, f.where, 'the format is not used')
        elif callname(t) in ('strftime', 'format') and t[1][0] == 'attr':
            ctx.ob(full(t[1][1]) == A1, f.qual, f.where, 'another date is serialized')
            pct = [b for x, b in fs if full(x)[0] == 'cmp' and full(x)[1] == 'in' and full(x)[2] == const('%')]
            ctx.ob(bool(pct) and pct[-1] == (callname(t) == 'strftime'), f.qual, f.where,
                   'a format %s "%%" is given to %s' % ('without' if callname(t) == 'strftime' else 'with', callname(t)))
            s = full(t[2][0]) if t[2] else const(None)
            a, o = find("KWARGS.get('format')", s) is not None, find("A0._schema.get('format')", s) is not None
            ctx.ob(a or o, f.qual, f.where, 'the format used is %s' % show(s)[:100])
            if given and given[0]:
                ctx.ob(a, f.qual, f.where, 'the format asked is not the one used')
            ctx.ob(a or False in given, f.qual, f.where, 'the format of the type is used though another one may be asked')
            if given and not given[0]:
                ctx.ob(o, f.qual, f.where, 'the format of the type is not used')
            name = find('settings.DATETIME_FORMATS', s) is not None
            ctx.ob(name, f.qual, f.where, 'the name of a format is used as a format')
            forms |= {k for k, b in (('asked', a), ('own', o)) if b}
            if s[0] == 'call' and callname(s) == 'get':
                ctx.ob(len(s[2]) == 2 and full(s[2][0]) == full(s[2][1]), f.qual, f.where, 'what is not the name of a format is not used as one: %s' % show(s)[:120])
        else:
            ctx.ob(False, f.qual, f.where, 'a date is serialized as %s' % show(t)[:120])
    ctx.need(6, n, 'paths of the serialization of dates')
    for w, what in (('asked', 'asked'), ('own', 'of the type')):
        ctx.ob(w in forms, f.qual, f.where, 'the format %s is not used' % what)
    for c in ('Date', 'Time', 'Datetime'):
        f = fn(ctx, 'types.datetime:%s._serialize' % c)
        for p in ctx.paths(f, inline=()):
            if p.normal:
                t = full(p.returns)
                ctx.ob(callname(t) == '_dt_serialize' and len(t[2]) == 2 and t[2][0] == A0 and t[2][1] == A1 and any(v == KW for k, v in t[3]), f.qual, f.where,
                       'a %s is serialized as %s' % (c.lower(), show(t)[:100]))


CHECKS = ('protocols.checker:Checker.check', 'protocols.converter:Converter.check', 'protocols.validator:Validator.check')


@rule('P23', 'asked', 'asking whether a value is of a type answers yes or no and raises nothing: yes when the type accepts it (what it is converted to, when conversion is asked; '
      'once validated, when this is asked), no otherwise')
def p23_asked(ctx):
    n = 0
    for key in CHECKS:
        f = fn(ctx, key)
        conv, val = 'Converter' in key or 'Validator' in key, 'Validator' in key
        spec = f.node.args
        names = [a.arg for a in spec.posonlyargs + spec.args]
        given = dict(zip(names[len(names) - len(spec.defaults):], spec.defaults))
        for k in ('convert', 'validate'):
            if k in names:
                ctx.ob(k in given and isinstance(given[k], ast.Constant) and not given[k].value, f.qual, f.where,
                       'a value is %s when this is not asked' % ('converted' if k == 'convert' else 'validated'))
        for p in ctx.paths(f, implicit=True):
            fs = allfacts(p)
            ctx.ob(p.normal, f.qual, f.where, 'asking for the type of a value raises %s' % (show(strip(p.outcome[1]))[:80] if isinstance(p.outcome[1], tuple) else p.outcome[1]))
            if not p.normal:
                continue
            n += 1
            t = full(p.returns)
            caught = any(x[0] == 'caught' for x, b in fs)
            ctx.ob(t in (TRUE, FALSE), f.qual, f.where, 'the answer is %s' % show(t)[:80])
            if t == FALSE:
                ctx.ob(caught, f.qual, f.where, 'a value which is accepted is said not to be')
            if t != TRUE:
                continue
            ctx.ob(not caught, f.qual, f.where, 'a value which is refused is said to be accepted')
            asked = truth(fs, A2) if conv else None
            calls = [e.term for e in p.events if e.kind == 'call']
            chk = [full(c) for c in calls if callname(c) == '_check' and full(c)[1][0] == 'attr' and full(full(c)[1][1]) == A0]
            ctx.ob(bool(chk), f.qual, f.where, 'a value is accepted which is not checked')
            for c in chk:
                v = full(c[2][1]) if len(c[2]) > 1 else None
                if callname(v) == '_check':
                    v = full(v[2][1])
                ctx.ob(c[2][0] == A0 and any(x == KW for _, x in c[3]), f.qual, f.where, 'the check is not that of the type asked')
                if asked:
                    ctx.ob(v is not None and callname(v) == '_convert' and v[2][:2] == (A0, A1), f.qual, f.where,
                           'what is checked is not what the value is converted to: %s' % (v and show(v)[:80]))
                else:
                    ctx.ob(v == A1, f.qual, f.where, 'what is checked is not the value: %s' % (v and show(v)[:80]))
                if asked is None and conv:
                    ctx.ob(False, f.qual, f.where, 'conversion is not looked at')
            if val and truth(fs, A3):
                ctx.ob(any(callname(c) == '_validate' and full(c)[2][:1] == (A0,) and len(full(c)[2]) > 1 and any(x == A1 for x in subterms(full(c)[2][1]))
                           for c in calls), f.qual, f.where, 'a value is accepted which is not validated')
            if val and truth(fs, A3) is None:
                ctx.ob(False, f.qual, f.where, 'validation is not looked at')
    ctx.need(8, n, 'paths which answer')
    f = fn(ctx, 'protocols.converter:Converter.convert')
    for p in ctx.paths(f):
        if p.normal:
            t = full(p.returns)
            ctx.ob(callname(t) == '_convert' and t[2][:2] == (A0, A1) and any(x == KW for _, x in t[3]), f.qual, f.where, 'converting gives %s' % show(t)[:80])


def inorder(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from inorder(x)


def evidence(fs):
    """What says that the value is accepted: the facts about it."""
    out = []
    for t, b in fs:
        t = full(t)
        c = callname(t)
        if c in ('_check', 'check_symbol', 'check', 'isinstance', 'callable', 'issubclass') and b and any(full(x) == A1 for x in t[2]):
            out.append(t)
        elif t[0] == 'cmp' and t[1] == 'in' and full(t[2]) == A1 and b:
            out.append(t)
        elif t[0] == 'cmp' and t[1] in ('is', 'eq') and full(t[2]) == A1 and b:
            out.append(t)
    return out


PYT = (('attr', A0, '_pyType'), ('call', ('attr', KW, 'get'), (const('pyType'), ('attr', A0, '_pyType')), ()))


@rule('P23', 'accepted', 'a type accepts a value only when something says it is of the type, gives it back as it is, and refuses with a TypeError what nothing says to be of the type')
def p23_accepted(ctx):
    n = 0
    for f in functions(ctx.repo):
        if f.name != '_check' or f.cls is None or f.cls.name in ('TypeProxy', 'Ref', 'ForeignKey', 'CanonicalName') or not f.key.startswith(('ngoschema.types.', 'ngoschema.protocols.')):
            continue
        q = f.key.replace('ngoschema.', '')
        for p in ctx.paths(f):
            fs = [(full(t), b) for t, b in allfacts(p)]
            n += 1
            ev = evidence(fs)
            typed = [b for t, b in fs if t in PYT]
            if p.normal:
                t = full(p.returns)
                same = t == A1 or callname(t) in ('_check', '_collType') and len(t[2]) > 1 and full(t[2][1]) == A1 or \
                    callname(t) in ('_check',) and any(full(x) == A1 or callname(x) == '_collType' and full(x[2][0]) == A1 for x in t[2]) or (f.cls.name in ('Id', 'ForeignKey', 'Collection', 'Object', 'Array', 'ObjectDeserializer')
                                                                                       and any(x == A1 for x in subterms(t)))
                ctx.ob(same, f.qual, f.where, 'what is checked becomes %s' % show(t)[:100])
                base = any(e.kind == 'call' and callname(e.term) == '_check' and any(full(x) == A1 for x in full(e.term)[2]) for e in p.events)
                ok = bool(ev) or base or False in typed and f.cls.name in ('Checker', 'Primitive') or f.cls.name == 'Constant' and True in typed
                ctx.ob(ok, f.qual, f.where, 'a value is accepted although nothing says it is of the type')
            elif p.outcome[0] == 'raise':
                ctx.ob(exc_name(p.outcome[1]) in ('TypeError', 'ConversionError', 'InvalidValue'), f.qual, f.where, 'a value is refused with %s' % exc_name(p.outcome[1]))
                hard = [e for e in ev if callname(e) not in ('isinstance',)]
                if f.cls.name not in ('Primitive', 'Collection', 'Array', 'Object', 'ObjectDeserializer', 'Id', 'Expr', 'Pattern'):
                    ctx.ob(not ev, f.qual, f.where, 'a value is refused although it is of the type: %s' % ', '.join(show(e)[:60] for e in ev))
    ctx.need(20, n, 'paths of checks')
    PT = "KWARGS.get('pyType', A0._pyType)"
    behave(ctx, fn(ctx, 'protocols.checker:Checker._check'), {'typed': [PT, '!%s is None' % PT], 'inst': 'isinstance(A1, %s)' % PT}, lambda e: {
        'raises': 'TypeError'} if e['typed'] and not e['inst'] else {'ret': 'A1', 'raises': False}, 'the check of a type')
    STR = lambda t: callname(t) == 'check' and 'String' in show(t[1]) or callname(t) == 'isinstance' and last(t[2][1]) == 'str'
    behave(ctx, fn(ctx, 'types.strings:Expr._check'), {'str': STR, 'bq': lambda t: callname(t) == 'startswith' and t[2] == (const('`'),)}, lambda e: {
        'ret': 'A1', 'raises': False} if e['str'] and e['bq'] else {'raises': 'TypeError'}, 'an expression')
    behave(ctx, fn(ctx, 'types.strings:Pattern._check'), {
        'str': STR, 'var': lambda t: t[0] == 'cmp' and t[1] == 'in' and t[2] == const('{{'), 'block': lambda t: t[0] == 'cmp' and t[1] == 'in' and t[2] == const('{%')},
        lambda e: {'ret': 'A1', 'raises': False} if e['str'] and (e['var'] or e['block']) else {'raises': 'TypeError'}, 'a pattern')
    behave(ctx, fn(ctx, 'types.symbols:Symbol._check'), {'sym': 'A0.check_symbol(A1)', 'typed': 'A0._pyType', 'base': lambda t: callname(t) == '_check'}, lambda e: {
        'ret': 'A1', 'raises': False} if e['sym'] or e['typed'] and e['base'] else {'raises': 'TypeError'}, 'a symbol')
    behave(ctx, fn(ctx, 'types.symbols:Callable.check_symbol'), {}, lambda e: {'ret': 'callable(A1)'}, 'a callable')
    behave(ctx, fn(ctx, 'types.symbols:Symbol.check_symbol'), {'typed': 'A0._pyType'}, lambda e: {
        'ret': ['isinstance(A1, A0._pyType)', lambda t, p: t == TRUE and holds(allfacts(p), 'isinstance(A1, A0._pyType)', True),
                lambda t, p: t == FALSE and holds(allfacts(p), 'isinstance(A1, A0._pyType)', False)]} if e['typed'] else {'ret': 'True'}, 'a symbol of a Python type')
    f = fn(ctx, 'types.numerics:Number._check')
    for p in ctx.paths(f):
        if p.normal:
            ctx.ob(is_a(allfacts(p), A1, ['Number', 'Decimal', 'float', 'int', 'Integral', 'Real', 'Rational', 'Complex']), f.qual, f.where, 'a value which is not a number is accepted as one')
    accepted = set()
    for p in ctx.paths(f):
        if p.normal:
            accepted |= set().union(*kinds(allfacts(p), A1)[0])
    ctx.ob('Number' in accepted or {'Decimal', 'float', 'int'} <= accepted, f.qual, f.where, 'a number of some kind is not accepted as one')
    for c in ('Date', 'Time', 'Datetime'):
        f = fn(ctx, 'types.datetime:%s._check' % c)
        acc = set()
        for p in ctx.paths(f):
            fs = [(full(t), b) for t, b in allfacts(p)]
            yes, no = kinds(fs, A1)
            chk = [(t, b) for t, b in fs if callname(t) == '_check']
            for t, b in chk:
                ctx.ob(t[2][:2] == (A0, A1) and any(v == KW for k, v in t[3]), f.qual, f.where, 'another value or another type is checked: %s' % show(t)[:80])
            if p.normal:
                acc |= set().union(*yes)
                acc |= {'own'} if any(b for t, b in chk) else set()
            elif p.outcome[0] == 'raise':
                ctx.ob({'Arrow', 'datetime'} <= set(no) and any(not b for t, b in chk), f.qual, f.where, 'what may be a %s is refused' % c.lower())
        ctx.ob({'Arrow', 'datetime', 'own'} <= acc, f.qual, f.where, 'a %s of some kind is not accepted: only %s' % (c.lower(), ', '.join(sorted(acc))))
    f = fn(ctx, 'types.type:Primitive._check')
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        typed = [b for t, b in fs if t in PYT] + [not b for t, b in fs if t[0] == 'cmp' and t[1] == 'is' and t[2] in PYT and t[3] == const(None)]
        ctx.ob(bool(typed), f.qual, f.where, 'the Python type is not looked at')
        yes, no = kinds(fs, A1)
        if typed and typed[0]:
            ctx.ob(not p.normal or callname(full(p.returns)) == '_check' or any(e.kind == 'call' and callname(e.term) == '_check' for e in p.events), f.qual, f.where,
                   'a value is accepted although it may not be of the Python type')
        elif p.normal:
            ctx.ob({'Mapping', 'Sequence'} <= no or any('str' in y for y in yes), f.qual, f.where, 'a collection is accepted as a primitive')
        elif p.outcome[0] == 'raise':
            ctx.ob(any(y & {'Mapping', 'Sequence'} for y in yes) and 'str' in no, f.qual, f.where, 'a value which is not a collection is refused')


@rule('P23', 'constants', 'null is the type of None only, the type which accepts nothing refuses anything but the absence of a value, the type which accepts anything keeps it')
def p23_constants(ctx):
    none = {'none': ['A1 is None', 'A1 == None']}
    for key, exc in (('Null._check', 'TypeError'), ('Null._convert', 'ConversionError'), ('_False._convert', ('InvalidValue', 'ConversionError'))):
        behave(ctx, fn(ctx, 'types.constants:' + key), none, lambda e, exc=exc: {'ret': ['A1', 'None'], 'raises': False} if e['none'] else {'raises': exc}, 'a constant type')
    behave(ctx, fn(ctx, 'types.constants:_False._validate'), {}, lambda e: {'raises': 'InvalidValue'}, 'the type which accepts nothing')
    behave(ctx, fn(ctx, 'types.constants:_True._validate'), {}, lambda e: {'ret': 'A1', 'raises': False}, 'the type which accepts anything')
    f = fn(ctx, 'types.constants:_True._convert')
    for p in ctx.paths(f):
        if p.normal:
            t = full(p.returns)
            ev = [b for x, b in allfacts(p) if callname(x) == 'check']
            ctx.ob(t == A1 and True not in ev or True in ev and callname(t) in ('convert', '_convert') and any(x == A1 for x in subterms(t)), f.qual, f.where,
                   'a value of any type becomes %s' % show(t)[:80])
    # serializing goes through the conversion, which refuses
    for f in functions(ctx.repo):
        if f.name == '_serialize' and f.cls is not None and f.cls.name in ('Constant', 'Null', '_False'):
            for p in ctx.paths(f):
                if p.normal:
                    t = full(p.returns)
                    ctx.ob(callname(t) == '_serialize' and any(x == A1 for x in t[2]) or t in (A1, const(None)) and is_none(allfacts(p), A1), f.qual, f.where,
                           'what is refused is serialized as %s' % show(t)[:80])


@rule('P23', 'uris', 'a uri is the one its text or the absolute form of its path says, a path the one its text, or the text of its uri unquoted, says; its user directory is expanded and it '
      'is made absolute only when asked; no value stays none, and is serialized as none')
def p23_uris(ctx):
    f = fn(ctx, 'types.uri:Uri._convert')
    seen = set()
    for p in ctx.paths(f):
        fs = allfacts(p)
        if not p.normal:
            ctx.ob(p.outcome[0] != 'raise', f.qual, f.where, 'a uri is refused')
            continue
        t = full(p.returns)
        if t in (A1, const(None)):
            ctx.ob(is_none(fs, A1) or t == A1 and is_a(fs, A1, ['ParseResult']), f.qual, f.where, '%s is given back although it may not be a uri' % show(t))
        else:
            ok = callname(t) == 'urlparse' and len(t[2]) == 1
            x = full(t[2][0]) if ok else None
            ctx.ob(ok, f.qual, f.where, 'a value becomes %s' % show(t)[:80])
            if ok and callname(x) == 'as_uri':
                y = full(x[1][1])
                ctx.ob(callname(y) in ('resolve', 'absolute') and full(y[1][1]) == A1 and is_a(fs, A1, ['Path', 'PurePath']), f.qual, f.where,
                       'the uri of a path is not that of its absolute form')
                seen.add('path')
            elif ok:
                ctx.ob(text_of(x) and 'Path' in kinds(fs, A1)[1] and not is_none(fs, A1), f.qual, f.where, 'the text which is read is %s' % show(x)[:80])
                seen.add('text')
    ctx.ob(seen == {'path', 'text'}, f.qual, f.where, 'paths or texts are not made uris')
    f = fn(ctx, 'types.uri:Uri._serialize')
    for p in ctx.paths(f):
        if p.normal:
            t = full(p.returns)
            fs = [(full(x), b) for x, b in allfacts(p)]
            absent = [x for x, b in fs if x[0] == 'cmp' and x[1] == 'is' and x[3] == const(None) and b]
            x = method_of(t, 'geturl')
            conv = lambda y: y is not None and callname(y) in ('_convert', 'convert') and any(z == A1 for z in y[2])
            ctx.ob(conv(x) and not absent or bool(absent) and (t in (const(None), A1) or conv(t)), f.qual, f.where, 'a uri is serialized as %s' % show(t)[:80])
    f = fn(ctx, 'types.uri:Path._convert')
    EXP = ('call', ('attr', KW, 'get'), (const('expand_user'), ('attr', A0, '_expandUser')), ())
    for p in ctx.paths(f):
        fs = [(full(x), b) for x, b in allfacts(p)]
        if not p.normal:
            ctx.ob(p.outcome[0] != 'raise', f.qual, f.where, 'a path is refused')
            continue
        t, did = full(p.returns), []
        while method_of(t, 'expanduser', 'resolve', 'absolute') is not None:
            did.append(t[1][2])
            t = method_of(t, 'expanduser', 'resolve', 'absolute')
        exp, res = truth(fs, EXP), truth(fs, A2)
        ctx.ob('expanduser' not in did or exp is True, f.qual, f.where, 'the user directory is expanded although it is not asked')
        ctx.ob('resolve' not in did and 'absolute' not in did or res is True, f.qual, f.where, 'a path is made absolute although it is not asked')
        ctx.ob(did in ([], ['resolve'], ['expanduser'], ['resolve', 'expanduser']), f.qual, f.where, 'a path is changed by %s' % ', '.join(did))
        if t == A1:
            ctx.ob(not did and (truth(fs, A1) is False or is_none(fs, A1)), f.qual, f.where, '%s is given back as a path although it may not be one' % show(t))
            continue
        ok = callname(t) == 'Path' and len(t[2]) == 1
        x = full(t[2][0]) if ok else None
        ctx.ob(ok, f.qual, f.where, 'a value becomes %s' % show(t)[:80])
        if not ok:
            continue
        empty = [b for y, b in fs if not b and callname(y) in ('Path', 'expanduser')]
        if not empty:
            ctx.ob('expanduser' in did or exp is not True, f.qual, f.where, 'the user directory is not expanded although it is asked')
            ctx.ob('resolve' in did or res is not True, f.qual, f.where, 'a path is not made absolute although it is asked')
        if is_a(fs, A1, ['ParseResult']):
            ctx.ob(callname(x) == 'unquote' and full(x[2][0]) == ('call', ('attr', A1, 'geturl'), (), ()), f.qual, f.where, 'the path of a uri is %s' % show(x)[:80])
        else:
            ctx.ob(callname(x) == 'str' and full(x[2][0]) == A1 or callname(x) in ('convert', '_convert') and any(y == A1 for y in subterms(x)) and callname(full(x[2][-1] if x[1][2] == '_convert' else x[2][0])) == 'str',
                   f.qual, f.where, 'the text of a path is %s' % show(x)[:80])
    f = fn(ctx, 'types.uri:Path._serialize')
    for p in ctx.paths(f):
        if p.normal:
            t = full(p.returns)
            ok = callname(t) == 'str' and t[2] == (A1,) and holds_none([(full(x), b) for x, b in allfacts(p)], A1) is False or \
                t in (A1, const(None)) and (is_none(allfacts(p), A1) or truth([(full(x), b) for x, b in allfacts(p)], A1) is False)
            ctx.ob(ok, f.qual, f.where, 'a path is serialized as %s' % show(t)[:80])


@rule('P23', 'symbols', 'a symbol is the object of that name: a builtin, else what is found from the longest module of its name by following the rest of it; what is of another kind is refused with a '
      'ConversionError; it is serialized as its module and its qualified name')
def p23_symbols(ctx):
    f = fn(ctx, 'types.symbols:Symbol._convert')
    n, seen = 0, set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        if p.normal:
            n += 1
            t = full(p.returns)
            sym = [b for x, b in fs if callname(x) == 'check_symbol' and full(x[2][0]) == t and full(x[1][1]) == A0]
            ctx.ob(True in sym or holds_none(fs, t) is True, f.qual, f.where, 'a symbol which may be of another kind is accepted')
            text = [b for x, b in fs if callname(x) == 'check' and 'String' in show(x[1])]
            if text and text[0] is False:
                ctx.ob(any(x == A1 for x in subterms(t)), f.qual, f.where, 'what is not a text becomes %s' % show(t)[:80])
                seen.add('same')
            for x in subterms(t):
                if callname(x) == 'get' and '_builtins' in show(x[1], -9):
                    ctx.ob(len(x[2]) == 2 and full(x[2][0]) == A1 and full(x[2][1]) == A1, f.qual, f.where, 'what is not the name of a builtin becomes %s' % show(x)[:80])
            if text and text[0] and any(callname(x) == 'import_module' for x in subterms(t)):
                over = any(x[0] == 'looped' and b and any(callname(y) in ('finditer', 'reversed') for y in subterms(x)) and
                           not any(callname(y) == 'split' for y in [full(x[1])]) for x, b in fs)
                ctx.ob(not over, f.qual, f.where, 'a shorter module of the name is looked for once one is found')
                seen.add('module')
                at = [x for x in subterms(t) if callname(x) == 'getattr' or x[0] == 'getattr']
                if at:
                    seen.add('attr')
                for x in at:
                    o, a = (full(x[2][0]), full(x[2][1])) if x[0] == 'call' else (full(x[1]), full(x[2]))
                    if a[0] == 'item':
                        ctx.ob(not any(full(y) == a and not b for y, b in fs), f.qual, f.where, 'an empty name is followed')
                    ctx.ob(not any(callname(y) == 'hasattr' and full(y[2][1]) == a and not b for y, b in fs), f.qual, f.where, 'a name which is not there is followed')
        elif p.outcome[0] == 'raise':
            ctx.ob(exc_name(p.outcome[1]) == 'ConversionError', f.qual, f.where, 'a symbol is refused with %s' % exc_name(p.outcome[1]))
            ctx.ob(any(callname(x) == 'check_symbol' and not b for x, b in fs), f.qual, f.where, 'a symbol of the kind asked is refused')
        for e in p.events:
            if e.kind != 'call':
                continue
            c = full(e.term)
            if callname(c) == 'import_module':
                ctx.ob(truth_check([(full(t3), b3) for t3, b3 in e.facts]) is True, f.qual, f.where, 'what may not be a text is imported')
                x = full(c[2][0])
                ctx.ob(any(y == A1 for y in subterms(x)), f.qual, f.where, 'the module imported is not in the name: %s' % show(x)[:80])
                if x[0] == 'sub' and full(x[2])[0] == 'slice':
                    sl = full(x[2])
                    ctx.ob(sl[1] in (const(None), const(0)) and full(sl[2])[0] == 'item' and sl[3] in (const(None), const(1)), f.qual, f.where,
                           'the module is not the beginning of the name, up to a dot: %s' % show(sl)[:60])
                    if full(sl[2])[0] == 'item':
                        it = full(full(sl[2])[1])
                        back = callname(it) == 'reversed' or callname(it) == 'sorted' and kw(it, 'reverse') == TRUE or it[0] == 'sub' and '-1' in show(it[2])
                        ctx.ob(back, f.qual, f.where, 'the longest module of the name is not looked for first')
                        rest = [full(y) for t2, b in fs for y in subterms(t2) if y[0] == 'slice' and any(z == full(sl[2]) for z in subterms(y)) and full(y) != sl]
                        for y in rest:
                            ctx.ob(full(y[1]) in (('bin', 'Add', full(sl[2]), const(1)), ('bin', 'Add', const(1), full(sl[2]))), f.qual, f.where,
                                   'the rest of the name starts at %s' % show(y[1])[:60])
            if callname(c) == 'getattr' and len(c[2]) >= 2:
                ok = any(callname(y) == 'hasattr' and y[2] == c[2][:2] and b for y, b in [(full(t3), b3) for t3, b3 in e.facts])
                ctx.ob(len(c[2]) == 2 or ok, f.qual, f.where, 'a name which is not there is replaced')
    ctx.need(2, n, 'paths which give a symbol')
    for w, what in (('same', 'what is not a text is kept'), ('module', 'a module of the name is imported'), ('attr', 'the rest of the name is followed in the module')):
        ctx.ob(w in seen, f.qual, f.where, 'no path: %s' % what)
    f = fn(ctx, 'types.symbols:Symbol._serialize')
    seen = set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        if not p.normal:
            ctx.ob(p.outcome[0] != 'raise', f.qual, f.where, 'a symbol is refused')
            continue
        t = full(p.returns)
        base = lambda x: full(x) == A1 or callname(full(x)) in ('_serialize', 'serialize') and any(y == A1 for y in subterms(full(x)))
        mod = lambda x: full(x) if full(x)[0] == 'attr' else None
        module = any(b and callname(x) == 'isinstance' and last(x[2][1]) == 'ModuleType' and base(x[2][0]) for x, b in fs)
        if base(t):
            ctx.ob(any(not b and base(x) for x, b in fs) or any(b and callname(x) == 'check' and 'String' in show(x[1]) for x, b in fs), f.qual, f.where,
                   'a symbol which is not a text is serialized as it is')
        elif t[0] == 'attr' and t[2] == '__name__' and base(t[1]):
            ctx.ob(module, f.qual, f.where, 'only the name of a symbol is serialized')
            seen.add('module')
        elif callname(t) == 'qualname':
            ctx.ob(base(t[2][0]) and any(not b and '__module__' in show(x, -9) for x, b in fs), f.qual, f.where, 'a symbol is serialized without its module')
        else:
            parts = [x for x in subterms(t) if callname(x) == 'qualname' and base(x[2][0])]
            mods = [x for x in subterms(t) if x in (('attr', A1, '__module__'),) or callname(x) == 'getattr' and x[2][1] == const('__module__') or x[0] in ('attr', 'getattr') and x[2] == '__module__']
            sep = any(x[0] == 'const' and '.' in str(x[1]) for x in subterms(t))
            flat = list(inorder(t))
            order = bool(mods and parts) and flat.index(mods[0]) < flat.index(parts[0])
            ctx.ob(bool(parts) and bool(mods) and sep and order and not module, f.qual, f.where, 'a symbol is serialized as %s' % show(t)[:100])
            seen.add('qual')
    ctx.ob({'module', 'qual'} <= seen, f.qual, f.where, 'modules or symbols are not serialized by their names')


@rule('P23', 'enumerations', 'a member of an enumeration is the value if it is one, else the one at this index, from 0 to its size; nothing stands for the first one; anything else is refused with a ConversionError')
def p23_enumerations(ctx):
    f = fn(ctx, 'types.type:Enum._convert')
    ENUM = ('attr', A0, '_enum')
    seen = set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        member = [full(t[2]) for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and t[3] == ENUM and b]
        if p.normal:
            t = full(p.returns)
            if t[0] == 'sub' and t[1] == ENUM and t[2] == const(0):
                void = any(not b and (x == A1 or callname(x) in ('convert', '_convert')) for x, b in fs) or is_none(fs, A1)
                ctx.ob(void, f.qual, f.where, 'the first member stands for a value which is not nothing')
                seen.add('first')
            elif t[0] == 'sub' and t[1] == ENUM:
                ctx.ob(callname(full(t[2])) in ('convert', '_convert', 'int') and any(x == A1 for x in subterms(t[2])), f.qual, f.where, 'the index is %s' % show(t[2])[:80])
                seen.add('index')
            else:
                ctx.ob(t in member and any(x == A1 for x in subterms(t)), f.qual, f.where, '%s may not be in the enumeration' % show(t)[:80])
                seen.add('member')
        elif p.outcome[0] == 'raise':
            ctx.ob(exc_name(p.outcome[1]) in ('ConversionError', 'InvalidValue'), f.qual, f.where, 'a value is refused with %s' % exc_name(p.outcome[1]))
            ctx.ob(not member, f.qual, f.where, 'a member is refused')
            low = [b for x, b in fs if x[0] == 'cmp' and x[1] == 'lt' and x[3] == const(0)]
            high = [b for x, b in fs if x[0] == 'cmp' and x[1] == 'lt' and callname(x[3]) == 'len' and x[3][2] == (ENUM,)]
            ctx.ob(not (low == [False] and high == [True]), f.qual, f.where, 'an index in the enumeration is refused')
    ctx.ob(seen == {'first', 'index', 'member'}, f.qual, f.where, 'only %s are accepted' % ', '.join(sorted(seen)))


DFT = ('attr', A0, '_default')


@rule('P23', 'defaults', 'the default of a type stands for a value which is not given, and for no other: 0, False, the empty string and empty collections are values; a type has a default when '
      'a value is given or declared, 0, False and the empty string included; the default of an object or an array is made of those of its properties or items')
def p23_defaults(ctx):
    has = {'absent': ['A1 is None'], 'nodef': 'A0._default is None', 'set': [lambda t: full(t) in (A1, DFT) or callname(t) == 'bool' and full(t[2][0]) in (A1, DFT)],
           'coll': lambda t: callname(t) in ('is_collection',)}
    f = fn(ctx, 'protocols.type_protocol:TypeProtocol._has_default')
    bool_table(ctx, ctx.paths(f), has, lambda e: not (e['absent'] and e['nodef']) and (e['set'] or not e['coll']), f.qual, 'having a default',
               valid=lambda e: not (e['absent'] and e['nodef'] and (e['set'] or e['coll'])))
    f = fn(ctx, 'types.type:Primitive._has_default')
    bool_table(ctx, ctx.paths(f), {'absent': 'A1 is None', 'nodef': 'A0._default is None'}, lambda e: not (e['absent'] and e['nodef']), f.qual, 'having a default')
    f = fn(ctx, 'types.array:Array._has_default')
    behave(ctx, f, {}, lambda e: {'ret': 'True'}, 'having a default')
    n = 0
    for key in ('protocols.type_protocol:TypeProtocol.default', 'protocols.validator:Validator._evaluate', 'types.collection:Collection._deserialize',
                'types.object:Object._deserialize', 'types.object:Object.default', 'types.array:Array.default', 'types.object:Object.__call__'):
        f = fn(ctx, key)
        for p in ctx.paths(f):
            if not p.normal:
                continue
            fs = allfacts(p)
            none = holds_none([(full(t), b) for t, b in fs], A1)
            n += 1
            done = [full(p.returns)] + [full(e.term) for e in p.events if e.kind == 'call'] + [full(e.value) for e in p.events if e.value is not None]
            cond = [full(t) for t, b in fs]
            used = any(x == DFT for t in done for x in subterms(t)) and not any(x == ('ifexp',) for x in cond)
            ctx.ob(not used or none is True or all(x in cond or t in cond for t in done for x in [t] if DFT in list(subterms(t))), f.qual, f.where,
                   'the default is used although a value may be given')
            if none is False:
                ctx.ob(any(x == A1 for t in done for x in subterms(t)), f.qual, f.where, 'the value given is not used')
            if none is True and f.name != '__call__' and not (f.name == '_evaluate' and holds_none([(full(t), b) for t, b in fs], DFT)):
                ctx.ob(used, f.qual, f.where, 'a value which is not given is not replaced by the default')
    ctx.need(12, n, 'paths which use a default')
    # the default of an object: what is given, completed
    f = fn(ctx, 'types.object:Object.default')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'store' or full(e.term)[0] != 'sub':
                continue
            base, k, v = full(e.term)[1], full(full(e.term)[2]), full(e.value)
            fs = [(full(t), b) for t, b in e.facts]
            n += 1
            own = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'is' and t[3] == const(None) and callname(t[2]) == 'get' and full(t[2][2][0]) == k] + \
                [not b for t, b in fs if t[0] == 'cmp' and t[1] == 'in' and full(t[2]) == k]
            if callname(v) == 'default':
                ctx.ob(True in own, f.qual, f.where, 'a property which is given is replaced by its default')
                ctx.ob(any(x == k for x in subterms(v)), f.qual, f.where, 'the default of a property is %s' % show(v)[:80])
            else:
                ctx.ob(False in own and any(x == k for x in subterms(v)), f.qual, f.where, 'a property becomes %s' % show(v)[:80])
            ctx.ob(k[0] == 'item' and '_propertiesWithDefault' in show(k, -9), f.qual, f.where, 'the properties completed are %s' % show(k)[:80])
    ctx.need(1, n, 'properties with a default')
    f = fn(ctx, 'types.array:Array.default')
    n = 0
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind != 'store' or full(e.term)[0] != 'sub':
                continue
            n += 1
            v = full(e.value)
            fs = [(full(t), b) for t, b in e.facts]
            asked = [b for t, b in fs if callname(t) in ('has_default', '_has_default')]
            if callname(v) == 'default':
                ctx.ob(False not in asked and len(v[2]) >= 1 and (A1 in list(subterms(v[2][0])) or DFT in list(subterms(v[2][0]))), f.qual, f.where,
                       'the default of an item is %s' % show(v)[:80])
            else:
                ctx.ob(v == const(None) and asked == [False], f.qual, f.where, 'an item becomes %s' % show(v)[:80])
    ctx.need(1, n, 'items')


def is_delimiter(t):
    return match("KWARGS.get('strDelimiter', A0._strDelimiter)", full(t)) is not None or match('A0._strDelimiter', full(t)) is not None


@rule('P23', 'arrays', 'an array given as a text is made of its parts between the delimiters when it is to be split, else of the text itself, and is empty when the text is; a sequence, a set or a queue '
      'gives its items, anything else is the only item; more than one item is refused where only one is expected; serialized as a text, it is made of its serialized items between the delimiters')
def p23_arrays(ctx):
    f = fn(ctx, 'types.array:ArrayDeserializer._deserialize')
    SPL, MANY = "KWARGS.get('split_string', A0._splitString)", "KWARGS.get('many', A0._many)"
    base = lambda t: full(t) == A1 or callname(full(t)) in ('_deserialize',) and any(full(x) == A1 for x in full(t)[2])
    seen = set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        text = [b for t, b in fs if callname(t) == 'check' and 'String' in show(t[1]) and base(t[2][0]) or callname(t) == 'isinstance' and last(t[2][1]) == 'str' and base(t[2][0])]
        some = [b for t, b in fs if base(t)] + [not b for t, b in fs if t[0] == 'not' and base(t[1])]
        split = [b for t, b in fs if match(SPL, t) is not None]
        many = [b for t, b in fs if match(MANY, t) is not None]
        more = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'lt' and full(t[2]) == const(1) and callname(full(t[3])) == 'len']
        if not p.normal:
            if p.outcome[0] == 'raise':
                ctx.ob(exc_name(p.outcome[1]) == 'ConversionError' and False in many and False not in more, f.qual, f.where, 'several values are refused although they may be')
                seen.add('refused')
            continue
        ctx.ob(True in many or False in more or not more and 'comp' in show(p.returns, -9) and not many, f.qual, f.where, 'several values are accepted where one is expected') \
            if not (True in more and True in many) and (more or many) else None
        t = full(p.returns)
        x = full(t[2][0]) if callname(t) in ('_collType', 'list') and t[2] else t
        while x[0] == 'bin' and x[1] == 'Add':
            x = full(x[2])
        ctx.ob(bool(text), f.qual, f.where, 'a text is not told from a list')
        if text and text[0] and False in some:
            ctx.ob(x == ('list', ()), f.qual, f.where, 'an empty text becomes %s' % show(x)[:80])
            seen.add('empty')
        elif text and text[0] and True in split:
            ok = x[0] == 'comp' and len(x[3]) == 1 and not x[4] and callname(full(x[3][0])) == 'split' and base(full(x[3][0])[1][1]) and len(full(x[3][0])[2]) == 1 and \
                is_delimiter(full(x[3][0])[2][0]) and full(x[2][0]) in (('call', ('attr', ('item', full(x[3][0])), 'strip'), (), ()),)
            ctx.ob(ok, f.qual, f.where, 'a text which is to be split becomes %s' % show(x)[:100])
            seen.add('split')
        elif text and text[0]:
            ctx.ob(False in split and x[0] == 'list' and len(x[1]) == 1 and base(x[1][0]), f.qual, f.where, 'a text becomes %s' % show(x)[:100])
            seen.add('whole')
        elif text:
            subj = next((full(t2[2][0]) for t2, b in fs if callname(t2) == 'isinstance' and base(t2[2][0])), A1)
            yes, no = kinds(fs, subj)
            if callname(x) == 'list':
                ctx.ob(base(x[2][0]) and bool(yes), f.qual, f.where, 'what may not be a collection is taken for one')
                for c in yes:
                    seen |= c
            else:
                ctx.ob(x[0] == 'list' and len(x[1]) == 1 and base(x[1][0]) and bool(no), f.qual, f.where, 'a value becomes %s' % show(x)[:100])
                seen.add('one')
        ctx.ob(any('_minItems' in show(e.value if e.value is not None else e.term, -9) for e in p.events) or '_minItems' in show(p.returns, -9), f.qual, f.where,
               'an array is not completed to its minimal size')
    for w, what in (('empty', 'an empty text is an empty array'), ('split', 'a text is split'), ('whole', 'a text is an item'), ('one', 'a value is an item'),
                    ('refused', 'several values are refused where one is expected'), ('Sequence', 'a sequence gives its items'), ('deque', 'a queue gives its items')):
        ctx.ob(w in seen, f.qual, f.where, 'no path: %s' % what)
    ctx.ob(bool({'Set', 'AbstractSet', 'set', 'MutableSet'} & seen), f.qual, f.where, 'no path: a set gives its items')
    for key in ('types.array:Array._serialize', 'types.array:ArraySerializer._serialize'):
        f = fn(ctx, key)
        for p in ctx.paths(f):
            if not p.normal:
                continue
            t = full(p.returns)
            asked = truth(allfacts(p), A2)
            src = lambda x: any(callname(y) == '_serialize' and A1 in y[2] for y in subterms(x))
            if callname(t) == 'join':
                x = full(t[2][0])
                ctx.ob(asked is True, f.qual, f.where, 'an array is serialized as a text although it is not asked')
                ok = is_delimiter(t[1][1]) and x[0] == 'comp' and not x[4] and len(x[3]) == 1 and src(x[3][0]) and callname(full(x[2][0])) in ('serialize', 'str') and \
                    any(full(y)[0] == 'item' for y in subterms(x[2][0]))
                ctx.ob(ok, f.qual, f.where, 'the text of an array is %s' % show(t)[:100])
            else:
                ctx.ob(asked is False and src(t), f.qual, f.where, 'an array is serialized as %s' % show(t)[:100])
    # the properties an object type is made with are added to those it has
    f = fn(ctx, 'types.object:Object.__init__')
    n = {}
    for p in ctx.paths(f):
        for e in p.events:
            if e.kind == 'store' and full(e.term) in (('attr', A0, '_properties'), ('attr', A0, '_propertiesPattern')):
                a = full(e.term)[2]
                n[a] = n.get(a, 0) + 1
                whole = [e.value] + [x.value for x in p.events if x.kind == 'mutate' and x.value is not None]
                text = [show(x, -9) for x in whole] + [show(x.term, -9) for x in p.events if x.kind in ('mutate', 'store', 'call')]
                ctx.ob(full(e.term) in list(subterms(full(e.value))), f.qual, f.where, 'the %s it has are lost' % a)
                ctx.ob(any('type_builder.build' in x or "'build'" in x for x in text), f.qual, f.where, 'no type is built for the %s' % a)
    ctx.ob(len(n) == 2, f.qual, f.where, 'properties or patterns are not taken')


@rule('P23', 'collections', 'an array accepts a sequence, a set, and a text when it may be split; an object accepts a mapping; their items are checked with their types when this is asked; '
      'an array is completed with nothing up to its minimal size, each of its items is converted in its order, and its default is made of the defaults of its items')
def p23_collections(ctx):
    f = fn(ctx, 'types.array:Array._check')
    shapes = set()
    for p in ctx.paths(f):
        fs = [(full(t), b) for t, b in allfacts(p)]
        text = [b for t, b in fs if callname(t) == 'check' and 'String' in show(t[1]) and full(t[2][0]) == A1 or callname(t) == 'isinstance' and last(t[2][1]) == 'str' and full(t[2][0]) == A1]
        ctx.ob(bool(text), f.qual, f.where, 'a text is not told from a sequence')
        if not text:
            continue
        split = truth(fs, A2)
        if p.normal:
            ctx.ob(not text[0] or split is True, f.qual, f.where, 'a text is accepted although it may not be split')
            t = full(p.returns)
            ok = callname(t) == '_check' and t[2][0] == A0 and len(t[2]) > 1 and any(v == KW for k, v in t[3])
            ctx.ob(ok, f.qual, f.where, 'the items of an array are not checked: %s' % show(t)[:80])
            if ok:
                x = full(t[2][1])
                ctx.ob(x == A1 if not text[0] else x[0] == 'call' and any(y == A1 for y in subterms(x)), f.qual, f.where, 'what is checked is %s' % show(x)[:80])
                yes, no = kinds(fs, x)
                ctx.ob(any(y & {'Sequence', 'AbstractSet', 'Set'} for y in yes), f.qual, f.where, 'what may not be a sequence nor a set is accepted')
                for y in yes:
                    shapes |= y
        elif p.outcome[0] == 'raise':
            yes = [t for t, b in fs if callname(t) == 'isinstance' and b and set(classes(t[2][1])) & {'Sequence', 'AbstractSet', 'Set'}]
            ctx.ob(not yes and not (text[0] and split and not any(callname(t) == 'isinstance' and not b for t, b in fs)), f.qual, f.where, 'a sequence or a text which may be split is refused')
    ctx.ob('Sequence' in shapes and bool(shapes & {'AbstractSet', 'Set'}), f.qual, f.where, 'a sequence or a set is not accepted')
    behave(ctx, fn(ctx, 'types.object:ObjectDeserializer._check'), {'map': 'isinstance(A1, Mapping)'}, lambda e: {
        'ret': 'A1', 'raises': False} if e['map'] else {'raises': 'TypeError'}, 'an object')
    f = fn(ctx, 'types.collection:Collection._check')
    n = 0
    for p in ctx.paths(f):
        if not p.normal:
            continue
        fs = [(full(t), b) for t, b in allfacts(p)]
        asked = truth(fs, A2)
        ctx.ob(asked is not None, f.qual, f.where, 'whether items are to be checked is not looked at')
        base = [full(e.term) for e in p.events if e.kind == 'call' and callname(full(e.term)) == '_check' and full(e.term)[2][:1] == (A0,)]
        ctx.ob(any(c[2][:2] == (A0, A1) for c in base), f.qual, f.where, 'the collection itself is not checked')
        inc = [b for t, b in fs if callname(t) == '_is_included']
        items = [full(e.term) for e in p.events if e.kind == 'call' and callname(full(e.term)) == '_check' and full(e.term) not in base]
        some = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'is' and const(None) in (full(t[2]), full(t[3])) and any(full(x)[0] == 'sub' for x in t[2:])]
        if asked and inc and inc[0] and False in some:
            n += 1
            ctx.ob(any(full(c[1])[0] == 'attr' and len(c[2]) > 1 and full(c[1][1]) == full(c[2][0]) and full(c[2][1])[0] == 'sub' and
                       full(full(c[2][1])[1]) in base for c in items), f.qual, f.where, 'an item is not checked with its type')
        if asked is False or inc and not inc[0]:
            ctx.ob(not items, f.qual, f.where, 'items are checked although this is not asked')
    ctx.need(1, n, 'paths where items are checked')
    # a minimal size
    f = fn(ctx, 'types.array:ArrayDeserializer._deserialize')
    MIN = ('attr', A0, '_minItems')
    for p in ctx.paths(f):
        if not p.normal:
            continue
        sums = [x for x in list(subterms(full(p.returns))) + [y for e in p.events for y in subterms(e.value if e.value is not None else e.term)] if x[0] == 'bin' and any(full(y) == MIN for y in subterms(x))]
        for x in sums:
            if x[1] == 'Mult':
                a, c = full(x[2]), full(x[3])
                if c[0] == 'list':
                    a, c = c, a
                ctx.ob(a == ('list', (const(None),)), f.qual, f.where, 'an array is completed with %s' % show(a)[:60])
                d = [y for y in subterms(c) if y[0] == 'bin' and full(y[2]) == MIN]
                ctx.ob(bool(d) and d[0][1] == 'Sub' and callname(full(d[0][3])) == 'len', f.qual, f.where, 'an array is completed with %s items' % show(c)[:80])
                if callname(c) == 'max':
                    ctx.ob(const(0) in [full(y) for y in c[2]], f.qual, f.where, 'an array is completed with %s items' % show(c)[:80])
    order = lambda x: callname(full(x)) == '_call_order'
    f = fn(ctx, 'types.array:ArrayDeserializer._convert')
    for p in ctx.paths(f):
        if p.normal:
            t = full(p.returns)
            comps = [x for x in subterms(t) if x[0] == 'comp']
            c = comps[0] if len(comps) == 1 else None
            ok = c and len(c[3]) == 1 and not c[4] and order(c[3][0]) and full(c[2][0])[0] == 'sub' and full(full(c[2][0])[1]) == A1 and full(full(c[2][0])[2]) == ('item', full(c[3][0]))
            ctx.ob(bool(ok) and callname(t) == '_convert' and t[2][0] == A0, f.qual, f.where, 'the items of an array become %s' % show(t)[:120])
    for key in ('types.array:ArrayDeserializer._call_order', 'types.array:ArraySerializer._print_order'):
        behave(ctx, fn(ctx, key), {}, lambda e: {'ret': 'range(len(A1))'}, 'the order of the items of an array')
    f = fn(ctx, 'types.array:Array.default')
    some = set()
    for p in ctx.paths(f):
        if not p.normal:
            ctx.ob(p.outcome[0] != 'raise', f.qual, f.where, 'an array has no default')
            continue
        fs = [(full(t), b) for t, b in allfacts(p)]
        v = A1 if holds_none(fs, A1) is False else ('attr', A0, '_default')
        ctx.ob(holds_none(fs, A1) is not None, f.qual, f.where, 'the default of an array is not told from the value given')
        t = full(p.returns)
        ok = callname(t) in ('_serialize', 'serialize') and len(t[2]) > (callname(t) == '_serialize') and kw(t, 'items') == FALSE and any(x == KW for _, x in t[3])
        ctx.ob(ok, f.qual, f.where, 'the default of an array is %s' % show(t)[:100])
        if ok:
            r = t[2][-1]
            ctx.ob(any(callname(x) == 'len' and full(x[2][0]) == v or x[0] == 'comp' for x in subterms(full(r))), f.qual, f.where, 'the default of an array has not as many items as it: %s' % show(r)[:80])
        for e in p.events:
            if e.kind == 'store' and full(e.term)[0] == 'sub':
                x = full(e.value)
                has = [(t2, b) for t2, b in fs if callname(t2) == 'has_default']
                if x == const(None):
                    ctx.ob(bool(has) and not has[-1][1], f.qual, f.where, 'the default of an item is lost')
                    some.add('none')
                else:
                    ok = callname(x) == 'default' and x[2] and full(x[2][0])[0] == 'sub' and full(full(x[2][0])[1]) == v and full(full(x[2][0])[2]) == full(full(e.term)[2])
                    ctx.ob(ok and bool(has) and has[-1][1], f.qual, f.where, 'the default of an item is %s' % show(x)[:100])
                    some.add('item')
    f = fn(ctx, 'types.constants:_True._convert')
    behave(ctx, f, {'expr': lambda t: callname(t) == 'check' and 'Expr' in show(t[1]), 'pat': lambda t: callname(t) == 'check' and 'Pattern' in show(t[1])}, lambda e: {
        'ret': lambda t, p: callname(full(t)) in ('convert', '_convert') and any(full(x) == A1 for x in full(t)[2]) and any(x == KW for _, x in full(t)[3])}
        if e['expr'] or e['pat'] else {'ret': 'A1', 'raises': False}, 'a value of any type')


@rule('P23', 'joined', 'an array serialized as a text is made of the texts of its items, whatever they are, in their order, joined by the delimiter of the array; it is a text only when this is asked')
def p23_joined(ctx):
    n = 0
    for key in ('types.array:Array._serialize', 'types.array:ArraySerializer._serialize'):
        f = fn(ctx, key)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(names[len(names) - len(a.defaults):], a.defaults)).get('as_string')
        ctx.ob(isinstance(d, ast.Constant) and not d.value, f.qual, f.where, 'an array is serialized as a text without being asked')
        AS = ('arg', names.index('as_string'))
        for p in ctx.paths(f, inline=()):
            if not p.normal:
                continue
            asked = truth(allfacts(p), AS)
            for t in flat_alts(p.returns):
                t = full(t)
                if callname(t) != 'join':
                    ctx.ob(asked is not True, f.qual, f.where, 'an array asked as a text is serialized as %s' % show(t)[:80])
                    continue
                n += 1
                ctx.ob(asked is True, f.qual, f.where, 'an array is serialized as a text without being asked')
                ctx.ob(full(receiver(t)) == ('attr', A0, '_strDelimiter'), f.qual, f.where, 'items are joined by %s' % show(receiver(t))[:60])
                c = full(t[2][0])
                ok = c[0] == 'comp' and len(c[2]) == 1 and len(c[3]) == 1 and not c[4]
                el = full(c[2][0]) if ok else None
                ok = ok and el[0] == 'call' and callname(el) in ('serialize', 'convert', 'str') and len(el[2]) > 0 and full(el[2][-1]) == ('item', full(c[3][0]))
                ctx.ob(ok or callname(c) == 'map', f.qual, f.where, 'what is joined is not the text of each item')
                if ok and callname(el) == 'serialize':
                    given = [v for k, v in el[3] if k == 'deserialize']
                    ctx.ob(KW not in [v for k, v in el[3]] or any(v == const(True) for v in given), f.qual, f.where,
                           'items are joined which are not made texts, when they have not to be deserialized')
                ctx.ob(any(callname(x) == '_serialize' and A1 in x[2] for x in subterms(c)), f.qual, f.where, 'what is joined is not what is serialized')
    ctx.need(2, n, 'arrays serialized as texts')
