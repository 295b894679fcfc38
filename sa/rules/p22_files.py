"""P22: files are read, written and appended to as asked, and what cannot be written leaves them as they were."""
import ast

from ..core import rule
from ..lib import *
from .p17_contexts import A0, A1, A2, A3, KW, fn, kw

FL = 'protocols.file_loader:FileLoader.'
FS = 'protocols.file_loader:FileSaver.'
LD = 'protocols.loader:'
TO_PATH = {'str', 'Path', 'convert', 'set_filepath', 'resolve', 'PathFile', 'PathFileExists', 'fspath', '_str', 'absolute', 'expanduser', 'deserialize'}


def full(t):
    return unold(strip(t))


def is_path(t, src=A2):
    """t is the path src, made a path, a string or absolute."""
    t = full(t)
    if t == src:
        return True
    if callname(t) == 'set_filepath' and t[0] == 'call':
        return (full(t[2][0]) == A0 and is_path(t[2][1], src)) if len(t[2]) == 2 else (len(t[2]) == 1 and full(t[1][1]) == A0 and is_path(t[2][0], src))
    if t[0] == 'call' and callname(t) in TO_PATH:
        return any(is_path(a, src) for a in t[2]) or t[1][0] == 'attr' and is_path(t[1][1], src)
    return False


def own_path(t):
    """t is the path of the loader itself."""
    t = full(t)
    if t[0] == 'attr' and t[1] == A0:
        return t[2] in ('filepath', '_filepath')
    return t[0] == 'getattr' and len(t) > 3 and t[1] == A0 and full(t[2]) in (const('filepath'), const('_filepath'), 'filepath', '_filepath') or \
        callname(t) == 'getattr' and t[1][0] == 'name' and len(t[2]) == 3 and full(t[2][0]) == A0 and full(t[2][1]) in (const('filepath'), const('_filepath'))


def option(t, name, own):
    """t is the option given under a name, else what the loader was made with."""
    t = full(t)
    if t[0] == 'call' and callname(t) in ('get', 'pop', 'setdefault') and t[1][0] == 'attr' and full(t[1][1]) == KW and len(t[2]) == 2 and \
            full(t[2][0]) == const(name):
        return full(t[2][1]) == ('attr', A0, own)
    return False


def options_of(p, name, own):
    """How the path takes the option: True, False or None if it does not matter to it."""
    for t, b in allfacts(p):
        if option(t, name, own):
            return b
        if t[0] == 'cmp' and t[1] == 'in' and full(t[2]) == const(name):
            continue
    return None


def given_options(t):
    """The options of the caller are handed on by the call t."""
    t = full(t)
    return any(k in (None, '**') and full(v) == KW for k, v in t[3])


def own_args(ctx, f, t):
    """The arguments of an operation of the object itself, which is given first when the operation is not bound to it."""
    t = full(t)
    args = [full(a) for a in t[2]]
    if args and args[0] == A0:
        return args[1:]
    bound = t[1][0] == 'attr' and full(t[1][1]) == A0 and not callname(t).startswith('_')
    ctx.ob(bound, f.qual, f.where, '%s is not given the object' % callname(t))
    return args


def default_of(f, name):
    """The default value of a parameter."""
    a = f.node.args
    for x, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name and isinstance(d, ast.Constant):
            return d.value
    return Ellipsis


def openings(p):
    return [e for e in p.events if e.kind == 'call' and callname(e.term) in ('open', '_open_file', 'open_file', 'fdopen')]


def mode_of(t):
    t = full(t)
    for k, v in t[3]:
        if k == 'mode':
            return const_value(v)
    i = {'open': 1, '_open_file': 2, 'open_file': 1}.get(callname(t), 1)
    if callname(t) == 'open' and t[1][0] == 'attr' and is_path(t[1][1]):
        i = 0
    return const_value(t[2][i]) if len(t[2]) > i else (True, 'r')


def opened_path(t, src):
    t = full(t)
    return any(is_path(a, src) for a in t[2]) or any(is_path(v, src) for k, v in t[3] if k not in (None, '**')) or t[1][0] == 'attr' and is_path(t[1][1], src)


def written(p):
    """[(event, what)] of what is written to a file opened on the path."""
    out = []
    for e in p.events:
        t = full(e.term)
        if e.kind == 'call' and callname(t) in ('write', 'writelines', 'write_text', 'write_bytes') and t[1][0] == 'attr':
            out.append((e, [full(a) for a in t[2]]))
    return out


def one_writing(ctx, f, p, modes, src=A2, what=A1):
    """The path opens the file once, in one of these modes, and writes what it was given to it."""
    ops = [e for e in openings(p) if not str(mode_of(e.term)[1]).startswith('r')]
    ws = written(p)
    ctx.ob(len(ops) == 1, f.qual, f.where, 'the file is opened %d times to be written' % len(ops))
    if len(ops) != 1:
        return None
    known, mode = mode_of(ops[0].term)
    binary = options_of(p, 'binary', '_binary')
    good = modes[1] if binary else modes[0] if binary is not None else None
    ctx.ob(known and (mode == good if good else mode in modes), f.qual, ops[0].where, 'the file is opened in mode %s instead of %s' % (mode, good or '/'.join(modes)))
    ctx.ob(binary is not None or callname(ops[0].term) != '_open_file', f.qual, f.where, 'the file is opened in the same mode whether it is binary or not')
    if callname(ops[0].term) == '_open_file':
        own_args(ctx, f, ops[0].term)
    ctx.ob(opened_path(ops[0].term, src), f.qual, ops[0].where, 'the file which is opened is not the one asked: %s' % show(full(ops[0].term))[:120])
    ctx.ob(callname(ops[0].term) == 'open' or given_options(ops[0].term), f.qual, ops[0].where, 'the options given (charset, binary) are not those the file is opened with')
    ctx.ob(len(ws) == 1 and ws[0][1] and (ws[0][1][0] == what or ws[0][1][0][0] == 'call' and callname(ws[0][1][0]) == 'encode' and full(receiver(ws[0][1][0])) == what), f.qual, f.where,
           'what is written is not once what was given')
    ctx.ob(all(ops[0].term in list(subterms(e.term)) or full(ops[0].term) in [full(x) for x in subterms(e.term)] for e, _ in ws), f.qual, f.where,
           'what is given is not written to the file which is opened')
    return ops[0]


def nothing_removed(ctx, f, p):
    bad = [e for e in p.events if e.kind == 'call' and callname(e.term) in ('remove', 'unlink', 'rmtree', 'rmdir', 'rename', 'replace', 'truncate') and
           (full(e.term)[1][0] == 'name' or full(e.term)[1][0] == 'attr' and (is_path(full(e.term)[1][1]) or full(e.term)[1][1][0] == 'name'))]
    ctx.ob(not bad, f.qual, f.where, 'a file is removed or renamed')


@rule('P22', 'write', 'writing a file puts in it exactly what is given, in the charset asked (bytes if binary), its folder being made if it is missing; a file with '
      'the same content is not opened for writing; what cannot be encoded, or is not bytes, is refused before the file is opened, which would empty it')
def write(ctx):
    f = fn(ctx, FS + '_write_file')
    n = {'same': 0, 'other': 0, 'new': 0, 'folder': 0, 'text': 0, 'bytes': 0}
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        fs = allfacts(p)
        if any(t[0] == 'cmp' and t[1] in ('is', 'eq') and full(t[2]) == A1 and full(t[3]) == const(None) and b for t, b in fs):
            continue            # nothing cannot be encoded
        nothing_removed(ctx, f, p)
        for e in p.events:
            if e.kind == 'call' and callname(e.term) in ('read_file', '_read_file', 'read_text', 'read_bytes'):
                t = full(e.term)
                there = [b for x, b in fs if callname(x) in ('exists', 'isfile', 'is_file') and x[2] != () or callname(x) in ('exists', 'is_file') and is_path(x[1][1])]
                ctx.ob(there == [True] or any(x[0] == 'caught' and set(x[1]) & {'OSError', 'IOError', 'FileNotFoundError', 'Exception', 'EnvironmentError'} for x, b in fs),
                       f.qual, e.where, 'a file is read before it is known to exist, or not when it does')
                ctx.ob(any(is_path(a) for a in t[2]) and given_options(t), f.qual, e.where, 'what is compared is not the content of the file, read as it is written')
        if not any(e.kind == 'call' and callname(e.term) in ('read_file', '_read_file', 'read_text', 'read_bytes') for e in p.events):
            ctx.ob(not any(b for x, b in fs if callname(x) in ('exists', 'is_file') and x[0] == 'call' and x[1][0] == 'attr' and is_path(x[1][1])), f.qual, f.where,
                   'a file which exists is written whatever its content')
        same = [b for t, b in fs if t[0] == 'cmp' and t[1] == 'eq' and A1 in (full(t[2]), full(t[3])) and
                any(callname(x) in ('read_file', '_read_file', 'read', 'read_text', 'read_bytes') for y in (t[2], t[3]) for x in subterms(full(y)))]
        ops = [e for e in openings(p) if not str(mode_of(e.term)[1]).startswith('r')]
        if same == [True]:
            n['same'] += 1
            ctx.ob(not ops, f.qual, f.where, 'a file with the same content is written again')
            continue
        n['other' if same else 'new'] += 1
        op = one_writing(ctx, f, p, ('w', 'wb'))
        if op is None:
            continue
        before = p.events[:p.events.index(op)]
        # the folder
        made = [e for e in before if e.kind == 'call' and callname(e.term) in ('makedirs', 'mkdir')]
        there = [b for t, b in fs if callname(t) in ('exists', 'isdir', 'is_dir') and any(
            x[0] == 'attr' and x[2] == 'parent' and is_path(x[1]) or callname(x) == 'dirname' and is_path(x[2][0]) for x in subterms(t))]
        ctx.ob(bool(made) or True in there, f.qual, f.where, 'the folder of the file is not made when it is missing')
        for e in made:
            n['folder'] += 1
            t = full(e.term)
            ctx.ob(callname(t) == 'makedirs' or kw(t, 'parents') == TRUE, f.qual, e.where, 'the folders above that of the file are not made')
            ctx.ob(False in there or kw(t, 'exist_ok') == TRUE, f.qual, e.where, 'a folder which exists is made again')
            ctx.ob(any(x[0] == 'attr' and x[2] == 'parent' and is_path(x[1]) or callname(x) == 'dirname' and x[2] and is_path(x[2][0]) for x in subterms(t)), f.qual, e.where,
                   'the folder which is made is not that of the file')
        # refused before
        binary = options_of(p, 'binary', '_binary')
        enc = [full(e.term) for e in before if e.kind == 'call' and callname(e.term) == 'encode' and full(receiver(full(e.term))) == A1]
        enc += [full(e.term) for e in before if e.kind == 'call' and callname(e.term) == 'bytes' and len(full(e.term)[2]) == 2 and full(full(e.term)[2][0]) == A1]
        raw = [full(e.term) for e in before if e.kind == 'call' and callname(e.term) in ('memoryview', 'bytes', 'bytearray', 'isinstance') and full(e.term)[2] and
               full(full(e.term)[2][0]) == A1 and len(full(e.term)[2]) == (2 if callname(e.term) == 'isinstance' else 1)]
        if binary is not True:
            n['text'] += 1
            ctx.ob(bool(enc), f.qual, f.where, 'the file is opened, which empties it, before it is known that the content can be encoded')
            for t in enc:
                cs = t[2][-1] if t[2] else kw(t, 'encoding')
                ctx.ob(cs is not None and option(cs, 'charset', '_charset'), f.qual, f.where, 'the content is encoded in a charset which is not that of the file')
        if binary is not False:
            n['bytes'] += 1
            ctx.ob(bool(raw), f.qual, f.where, 'the file is opened, which empties it, before it is known that the content is made of bytes')
    for k, v in n.items():
        ctx.need(1, v, 'writings: %s' % k)


@rule('P22', 'guarded', 'the operations which write are only given a path as the file')
def guarded(ctx):
    n = 0
    R = 'repositories.file_repositories:'
    for name in (FS + '_write_file', FS + '_append_file', FS + '_save_file', R + 'load_object_from_file', R + 'load_json_from_file', R + 'load_yaml_from_file',
                 R + 'load_xml_from_file', R + 'serialize_object_to_file'):
        f = fn(ctx, name)
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'assert_arg':
                n += 1
                i = d.args[0] if d.args else None
                i = i.value if isinstance(i, ast.Constant) else None
                names = [a.arg for a in f.node.args.args]
                which = names.index(i) if isinstance(i, str) and i in names else i
                t = ast.unparse(d.args[1]) if len(d.args) > 1 else ''
                path = next((k for k, x in enumerate(names) if x in ('filepath', 'fp', 'path', 'file', 'filename')), None)
                ctx.ob((path is None or which == path) and 'Path' in t, f.qual, f.where, 'the argument which is guarded is not the path of the file')
    ctx.need(8, n, 'guards of paths')


@rule('P22', 'append', 'appending to a file adds exactly what is given at its end: the file is never opened in a mode which empties it')
def append(ctx):
    f = fn(ctx, FS + '_append_file')
    n = 0
    for p in ctx.paths(f):
        if p.outcome[0] == 'return':
            n += 1
            nothing_removed(ctx, f, p)
            one_writing(ctx, f, p, ('a', 'ab'))
    ctx.need(2, n, 'appendings')


@rule('P22', 'opened', 'a file is opened at the path and in the mode asked, in bytes when it is binary, else in the charset asked: of the options given, else of the loader')
def opened(ctx):
    f = fn(ctx, FL + '_open_file')
    n = {True: 0, False: 0}
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        binary = options_of(p, 'binary', '_binary')
        ops = [e for e in openings(p)]
        ctx.ob(len(ops) == 1 and full(p.returns) == full(ops[0].term), f.qual, f.where, 'what is returned is not the file which is opened')
        ctx.ob(binary is not None, f.qual, f.where, 'the file is opened the same way whether it is binary or not')
        if len(ops) != 1 or binary is None:
            continue
        n[binary] += 1
        t = full(ops[0].term)
        mode = kw(t, 'mode') or (t[2][1] if len(t[2]) > 1 else None)
        ctx.ob(bool(t[2]) and is_path(t[2][0], A1), f.qual, f.where, 'the file which is opened is not the one asked')
        ctx.ob(mode is not None and full(mode) == A2, f.qual, f.where, 'the file is not opened in the mode asked')
        module = t[1][1] if t[1][0] == 'attr' else None
        if binary:
            ctx.ob(module in (None, ('name', 'io')) and not kw(t, 'encoding'), f.qual, f.where, 'a binary file is decoded')
        else:
            cs = kw(t, 'encoding') or (t[2][2] if len(t[2]) > 2 and module == ('name', 'codecs') else None)
            ctx.ob(cs is not None and option(cs, 'charset', '_charset'), f.qual, f.where, 'a text is not read and written in the charset asked')
    for k, v in n.items():
        ctx.need(1, v, 'openings')
    f = fn(ctx, FL + '_read_file')
    k = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        k += 1
        ops = openings(p)
        if ops and callname(ops[0].term) == '_open_file':
            own_args(ctx, f, ops[0].term)
        ctx.ob(len(ops) == 1 and mode_of(ops[0].term) in ((True, 'rb' if options_of(p, 'binary', '_binary') else 'r'), (True, 'rb' if options_of(p, 'binary', '_binary') else 'rt')),
               f.qual, f.where, 'the file is not read in the mode of its content')
        r = full(p.returns)
        ctx.ob(callname(r) == 'read' and not r[2] and bool(ops) and full(ops[0].term) in [full(x) for x in subterms(r)], f.qual, f.where, 'what is returned is not all the content of the file')
        ctx.ob(bool(ops) and opened_path(ops[0].term, A1) and given_options(ops[0].term), f.qual, f.where, 'the file which is read is not the one asked, with the options asked')
    ctx.need(2, k, 'readings')


@rule('P22', 'saved', 'saving serializes the value (unless it is said not to) and writes the result, or appends it when asked by the options, else as the saver was '
      'made; loading deserializes what is in the file and makes an object of it when a class is asked')
def saved(ctx):
    f = fn(ctx, FS + '_save_file')
    n = {True: 0, False: 0}
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        ap = options_of(p, 'append', '_append')
        ctx.ob(ap is not None, f.qual, f.where, 'the value is saved the same way whether it is to be appended or not')
        if ap is None:
            continue
        n[ap] += 1
        name = '_append_file' if ap else '_write_file'
        cs = [full(e.term) for e in p.events if e.kind == 'call' and callname(e.term) in ('_append_file', '_write_file', 'append_file', 'write_file')]
        ctx.ob(len(cs) == 1 and callname(cs[0]) in (name, name[1:]), f.qual, f.where, 'the value is not %s' % ('appended' if ap else 'written'))
        for t in cs:
            args = own_args(ctx, f, t)
            ctx.ob(len(args) >= 1 and is_saved(args[0]), f.qual, f.where, 'what is written is not the value serialized')
            ctx.ob(len(args) >= 2 and is_path(args[1], A2), f.qual, f.where, 'the file which is written is not the one asked')
            ctx.ob(given_options(t), f.qual, f.where, 'the options given are not handed on')
        ctx.ob(is_saved(full(p.returns)), f.qual, f.where, 'what is returned is not the value serialized')
    for k, v in n.items():
        ctx.need(1, v, 'savings')

    f = fn(ctx, LD + 'Saver._save')
    ctx.ob(not default_of(f, 'load') and default_of(f, 'load') is not Ellipsis and default_of(f, 'serialize') is True, f.qual, f.where,
           'by default, it is not the value given, serialized, which is saved')
    k = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        k += 1
        env = dict(allfacts(p))
        want = A1
        load, ser = env.get(A2, False), env.get(A3, False)
        t = full(p.returns)
        if ser:
            ctx.ob(callname(t) == '_serialize' and given_options(t), f.qual, f.where, 'the value is not serialized with the options given')
            own_args(ctx, f, t)
            t = value_arg(t) if callname(t) == '_serialize' else t
        if load:
            ctx.ob(callname(t) == '_load' and given_options(t), f.qual, f.where, 'the value is not loaded with the options given')
            own_args(ctx, f, t)
            t = value_arg(t) if callname(t) == '_load' else t
        ctx.ob(t == want, f.qual, f.where, 'what is saved is not the value%s%s: %s' % (' loaded' if load else '', ' serialized' if ser else '', show(t)[:120]))
    ctx.need(4, k, 'savings of a value')

    f = fn(ctx, FL + '_load_file')
    k = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        k += 1
        t, chain = full(p.returns), []
        while t[0] == 'call' and len(chain) < 4 and not is_path(t, A1):
            chain.append(callname(t))
            ctx.ob(given_options(t), f.qual, f.where, 'the options given are not handed on to %s' % callname(t))
            if callname(t) == 'deserialize':
                ctx.ob(kw(t, 'evaluate') == FALSE, f.qual, f.where, 'what is decoded is evaluated before it is given to the class')
            else:
                own_args(ctx, f, t)
            t = value_arg(t)
        ctx.ob(is_path(t, A1) and chain[:2] == ['_load', 'deserialize'] and chain[2:] in (['_deserialize'], ['_read_file'], ['read_file']), f.qual, f.where,
               'what is loaded is not the content of the file, decoded')
    ctx.need(1, k, 'loadings of a file')

    f = fn(ctx, LD + 'Loader._load')
    ctx.ob(not default_of(f, 'many') and default_of(f, 'many') is not Ellipsis and default_of(f, 'deserialize') is True, f.qual, f.where,
           'by default, it is not one value deserialized which is loaded')
    seen = set()
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        env = {t: b for t, b in allfacts(p)}
        many, des = env.get(A2), env.get(A3)
        klass = next((b for t, b in allfacts(p) if callname(t) == 'convert' and t[2] and option(t[2][0], 'instance_class', '_instanceClass')), None)
        if many:
            for t in flat_alts(p.returns):
                t = full(t)
                ctx.ob(t[0] == 'comp' and not t[4] or callname(t) == 'list' or t[0] in ('list', 'new', 'alias'), f.qual, f.where, 'not every element is loaded')
            sub = [full(x) for x in subterms(full(p.returns))]
            made = [x for x in sub if x[0] == 'call' and callname(full(x[1])) == 'convert']
            read_ = [x for x in sub if callname(x) == '_deserialize' and x[0] == 'call']
            arr = [x for x in sub if callname(x) == 'deserialize' and x[0] == 'call']
            if any(x[0] == 'comp' for x in sub):
                ctx.ob(bool(made) and all(given_options(x) and full(x[2][0])[0] == 'item' for x in made), f.qual, f.where, 'the elements are not made objects of the class asked')
                ctx.ob(bool(read_) and all(given_options(x) and kw(x, 'evaluate') == FALSE and value_arg(x)[0] == 'item' for x in read_), f.qual, f.where, 'the elements are not deserialized')
                ctx.ob(bool(arr) and all(full(x[2][0]) == A1 and kw(x, 'split_string') == TRUE for x in arr), f.qual, f.where, 'the elements are not those of the value given')
            seen.add('many')
            continue
        seen.add((des, klass))
        t = full(p.returns)
        if klass:
            ctx.ob(t[0] == 'call' and callname(full(t[1])) == 'convert' and given_options(t), f.qual, f.where, 'what is returned is not an object of the class asked')
            t = full(t[2][0]) if t[0] == 'call' and t[2] else t
        if des:
            ctx.ob(callname(t) == '_deserialize' and given_options(t) and kw(t, 'evaluate') == FALSE, f.qual, f.where, 'the value is not deserialized with the options given')
            own_args(ctx, f, t)
            t = value_arg(t) if callname(t) == '_deserialize' else t
        ctx.ob(t == A1, f.qual, f.where, 'what is loaded is not the value given: %s' % show(t)[:100])
    ctx.need(4, len(seen), 'loadings of a value')


def is_saved(t):
    t = full(t)
    return t[0] == 'call' and callname(t) in ('_save', '_serialize') and value_arg(t) == A1 and full(t[2][0]) == A0 and given_options(t)


def value_arg(t):
    """The value a protocol function is given (after the object when it is given first)."""
    args = [full(a) for a in full(t)[2]]
    if args and args[0] == A0:
        args = args[1:]
    return args[0] if args else (None,)


#: public operation -> (function it is made of, number of the value, number of the path, path optional)
FRONT = [(FL + 'open_file', '_open_file', None, A1, False), (FL + 'read_file', '_read_file', None, A1, False), (FL + 'load_file', '_load_file', None, A1, False),
         (FL + 'load', '_load', None, A1, True), (FL + '_load', '_load_file', None, A1, True), (FL + '_deserialize', '_read_file', None, A1, False),
         (FS + '_save', '_save_file', A1, A2, True), (FS + 'write_file', '_write_file', A1, A2, False), (FS + 'append_file', '_append_file', A1, A2, False),
         (FS + 'save_file', '_save_file', A1, A2, False), (FS + 'save', '_save_file', A1, A2, True)]


@rule('P22', 'operations', 'the operations on files do what they are named after, on the value and the path given (else the path the object was made with), with the options given')
def operations(ctx):
    n = 0
    for key, name, value, path, optional in FRONT:
        f = fn(ctx, key)
        for p in ctx.paths(f):
            if p.outcome[0] != 'return':
                continue
            n += 1
            t = full(p.returns)
            ctx.ob(callname(t) == name and t[0] == 'call', f.qual, f.where, 'it is not made by %s' % name)
            if callname(t) != name:
                continue
            cs = [e for e in p.events if e.kind == 'call' and callname(e.term) == name]
            ctx.ob(len(cs) == 1, f.qual, f.where, 'it is done %d times' % len(cs))
            ctx.ob(given_options(t), f.qual, f.where, 'the options given are not handed on')
            args = own_args(ctx, f, t)
            if value is not None:
                ctx.ob(bool(args) and args[0] == value, f.qual, f.where, 'the value is not the one given')
                args = args[1:]
            path_ = args[0] if args else next((full(v) for k, v in t[3] if k == 'filepath'), None)
            given = next((b for x, b in allfacts(p) if x == path), next((not b for x, b in allfacts(p) if x[0] == 'cmp' and x[1] == 'is' and full(x[2]) == path and
                                                                        full(x[3]) == const(None)), None)) if optional else True
            stored = any(e.kind == 'store' and full(e.term) == ('attr', A0, 'filepath') and is_path(e.value, path) for e in p.events)
            ctx.ob(given is not None or path_ is not None and any(own_path(x) for x in flat_alts(path_)), f.qual, f.where, 'without a path, it is not done on that of the object')
            if given is not False:
                ctx.ob(path_ is not None and (is_path(path_, path) or stored and own_path(path_) or any(is_path(x, path) for x in flat_alts(path_))), f.qual, f.where,
                       'the file is not the one given: %s' % (show(path_)[:100] if path_ else 'none'))
            if given is False:
                ctx.ob(path_ is not None and any(own_path(x) for x in flat_alts(path_)), f.qual, f.where, 'the file is not the one the object was made with')
    ctx.need(11, n, 'operations on files')


@rule('P22', 'documents', 'a document written to is its own file, or refused when it has none but a URL; the raw content of a file is what is in it and none when it does not '
      'exist; what is told of a file (dates, size, hash of its whole content) is told of that file')
def documents(ctx):
    D = 'models.files:'
    f = fn(ctx, D + 'Document.write')
    n = {'append': 0, 'write': 0, 'url': 0}
    ctx.ob(default_of(f, 'append') is False or default_of(f, 'append') is None, f.qual, f.where, 'a content is appended though it is not asked')
    for p in ctx.paths(f):
        env = {t: b for t, b in allfacts(p)}
        has = env.get(('attr', A0, 'filepath'))
        cs = [full(e.term) for e in p.events if e.kind == 'call' and callname(e.term) in ('_append_file', '_write_file', 'append_file', 'write_file', 'save', '_save_file')]
        if has:
            ap = env.get(A2)
            if ap is None:
                continue
            n['append' if ap else 'write'] += 1
            ctx.ob(len(cs) == 1 and ('append' in callname(cs[0])) == ap, f.qual, f.where, 'the content is not %s' % ('appended' if ap else 'written'))
            for t in cs:
                args = own_args(ctx, f, t)
                ctx.ob(args[:1] == [A1] and len(args) > 1 and own_path(args[1]) and given_options(t), f.qual, f.where, 'the content is not written as given to the file of the document')
        else:
            ctx.ob(not cs, f.qual, f.where, 'a document without a file is written')
            if env.get(('attr', A0, 'uri')):
                n['url'] += 1
                ctx.ob(p.outcome[0] == 'raise', f.qual, f.where, 'writing on a URL is not refused')
    for k, v in n.items():
        ctx.need(1, v, 'writings of a document: %s' % k)

    f = fn(ctx, D + 'File.get_contentRaw')
    k = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        fs = allfacts(p)
        ok = all(b for t, b in fs if own_path(t) or callname(t) == 'exists')
        r = full(p.returns)
        k += 1
        if ok and fs:
            own_args(ctx, f, r)
            ctx.ob(callname(r) in ('_load_file', '_read_file', 'read_file', 'load_file') and any(own_path(a) for a in r[2]), f.qual, f.where, 'the raw content is not that of the file')
        else:
            ctx.ob(r == const(None), f.qual, f.where, 'there is a raw content without a file')
    ctx.need(2, k, 'raw contents')

    for name, attr in (('get_dateCreated', 'st_ctime'), ('get_dateModified', 'st_mtime'), ('get_contentSize', 'st_size')):
        f = fn(ctx, D + 'FileInfo.' + name)
        for p in ctx.paths(f):
            if p.outcome[0] == 'return':
                ts = [full(x) for x in subterms(full(p.returns))]
                ctx.ob(any(x[0] == 'attr' and x[2] == attr and callname(full(x[1])) in ('stat', 'lstat') and any(y == ('attr', ('attr', A0, 'file'), 'filepath') for y in subterms(x[1]))
                           for x in ts) or name == 'get_contentSize' and callname(full(p.returns)) == 'getsize', f.qual, f.where, 'it is not the %s of the file' % attr)
    f = fn(ctx, D + 'FileInfo.get_contentSizeHuman')
    units = ['bytes', 'KB', 'MB', 'GB', 'TB']
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        said = [x[1][1:-1] for x in subterms(full(p.returns)) if x[0] == 'const' and x[1][1:-1] in units]
        if len(set(said)) != 1:
            continue
        # as many divisions as the unit says, of which the last one only gives less than 1024
        divs = max([sum(1 for y in subterms(x) if y[0] == 'bin' and y[1] == 'Div') for x in subterms(full(p.returns))] + [0])
        lt = [(full(t), b) for t, b in allfacts(p) if full(t)[0] == 'cmp' and full(t)[1] == 'lt']
        if len(lt) == len([1 for t, b in allfacts(p)]) and all(callname(y) is None or callname(y) in ('int', 'float') for y in subterms(full(p.returns)) if y[0] == 'call'):
            ctx.ob(divs == units.index(said[0]), f.qual, f.where, 'a size divided %d times is in %s' % (divs, said[0]))
            ctx.ob(bool(lt) and lt[-1][1] and lt[-1][0][3] in (const(1024), const(1024.0)) and not any(b for _, b in lt[:-1]), f.qual, f.where,
                   'a size is told in %s when %s' % (said[0], show(lt[-1][0])[-60:] if lt else 'whatever it is'))
    f = fn(ctx, D + 'FileInfo.get_sha1')
    # the content is read again until nothing is, by the function or by one it calls
    others = [g for g in functions(ctx.repo) if g.module is f.module and g.key != f.key]
    for w in [w for w in ast.walk(f.node) if isinstance(w, ast.With)] or [f.node]:
        used, todo = [w], [w]
        while todo:
            said = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(todo.pop()) if isinstance(x, (ast.Name, ast.Attribute))}
            new = [g.node for g in others if g.name in said and g.node not in used]
            used, todo = used + new, todo + new
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('read', 'read1', 'readinto') and x.args for u in used for x in ast.walk(u)):
            ctx.ob(any(isinstance(x, (ast.While, ast.For)) for u in used for x in ast.walk(u)), f.qual, f.where, 'only the beginning of the content is read')
    k = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        r = full(p.returns)
        ctx.ob(callname(r) == 'hexdigest' and 'sha1' in show(r), f.qual, f.where, 'it is not a SHA1')
        ops = [e for e in p.events if e.kind == 'call' and callname(e.term) in ('open', 'urlopen')]
        has = {full(t): b for t, b in allfacts(p)}
        local = has.get(('attr', ('attr', A0, 'file'), 'filepath'))
        if local or has.get(('attr', A0, 'uri')):
            want = 'open' if local else 'urlopen'
            ctx.ob([callname(e.term) for e in ops] == [want], f.qual, f.where, 'the content is not read')
        for e in ops:
            k += 1
            if callname(e.term) == 'open':
                ctx.ob(mode_of(e.term) == (True, 'rb'), f.qual, e.where, 'the hash is not that of the bytes of the file')
                ctx.ob(any(x == ('attr', ('attr', A0, 'file'), 'filepath') for x in subterms(full(e.term))), f.qual, e.where, 'the hash is that of another file')
        seq = [(callname(e.term), full(e.term)) for e in p.events if e.kind == 'call' and callname(e.term) in ('read', 'update')]
        reads = [t for c, t in seq if c == 'read']
        iterated = any(callname(x) == 'iter' for e in p.events for x in subterms(full(e.term)))
        ctx.ob(not seq or seq[-1][0] == 'read' or iterated or not seq[-1][1][2] or not reads[-1][2], f.qual, f.where, 'the content is not read until its end')
        if len(seq) == 1 and reads and reads[0][2]:
            # nothing is hashed when nothing is read only
            t = reads[0]
            empty = None
            for x, b in allfacts(p):
                x = full(x)
                if x == t or callname(x) == 'len' and full(x[2][0]) == t:
                    empty = not b
                elif x[0] == 'cmp' and x[1] == 'eq' and (callname(full(x[2])) == 'len' and full(full(x[2])[2][0]) == t and full(x[3]) == const(0) or full(x[2]) == t):
                    empty = b
                elif x[0] == 'cmp' and x[1] == 'lt' and full(x[2]) == const(0):
                    empty = not b
            ctx.ob(empty is True, f.qual, f.where, 'what is read of the file is left out of its hash')
        ctx.ob(len(ops) == 0 or bool(seq), f.qual, f.where, 'the content is not read')
        for i, (c, t) in enumerate(seq):
            if c == 'read':
                nxt = seq[i + 1] if i + 1 < len(seq) else None
                last = nxt is None and t[2]
                ctx.ob(last or nxt is not None and nxt[0] == 'update', f.qual, f.where, 'what is read of the file is left out of its hash')
            else:
                ctx.ob(bool(t[2]) and any(x[0] == 'call' and callname(x) in ('read', 'iter') or x[0] in ('lambda', 'item') for x in subterms(full(t[2][0]))) and
                       (i == 0 or seq[i - 1][0] == 'read' or not reads), f.qual, f.where, 'what is hashed is not what is read')
    ctx.need(2, k, 'files hashed')


@rule('P22', 'repositories', 'what is saved to a file in a format is read back by the repository of this format, and committing writes the whole content to the file')
def repositories(ctx):
    R = 'repositories.file_repositories:'
    for name, cls in (('load_json_from_file', 'JsonFileRepository'), ('load_yaml_from_file', 'YamlFileRepository'), ('load_xml_from_file', 'XmlFileRepository')):
        f = fn(ctx, R + name)
        for p in ctx.paths(f):
            if p.outcome[0] != 'return':
                continue
            t = full(p.returns)
            ctx.ob(callname(t) == 'load_object_from_file' and is_path(t[2][0] if t[2] else kw(t, 'fp') or (None,), A0), f.qual, f.where, 'it is not the file given which is loaded')
            ctx.ob(kw(t, 'repository_class') is not None and full(kw(t, 'repository_class')) == ('name', cls), f.qual, f.where, 'it is not loaded by %s' % cls)
            ctx.ob(kw(t, 'session') is not None and full(kw(t, 'session')) == A1 and given_options(t), f.qual, f.where, 'the session and options given are not handed on')
    f = fn(ctx, R + 'FileRepository._commit')
    n = 0
    for p in ctx.paths(f):
        if p.outcome[0] != 'return':
            continue
        n += 1
        ws = [full(e.term) for e in p.events if e.kind == 'call' and callname(e.term) in ('_write_file', 'write_file')]
        ctx.ob(len(ws) == 1, f.qual, f.where, 'the content is written %d times' % len(ws))
        for t in ws:
            args = own_args(ctx, f, t)
            ser = args[0] if args else (None,)
            ctx.ob(callname(ser) in ('serialize', '_serialize') and any(callname(x) in ('_commit', 'commit') for x in subterms(ser)), f.qual, f.where, 'what is written is not the content serialized')
            ctx.ob(len(args) > 1 and (option(args[1], 'filepath', '_filepath') or option(args[1], 'filepath', 'filepath') or own_path(args[1])), f.qual, f.where,
                   'the file which is written is not that of the repository')
    ctx.need(1, n, 'commits')
