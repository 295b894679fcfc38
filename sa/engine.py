"""Path-wise dataflow over the syntax tree.

A function is unfolded into its control-flow paths (loops 0 and 1 times, literal tuples unrolled,
short-circuits and conditional expressions split, exceptions inside try bodies followed into the
handlers and through finally).  On each path local variables are replaced by what they were
assigned, so that a path is a list of *events* (calls, stores, deletions, yields) each with the
*facts* (branch conditions) under which it happens, whatever the locals are called and however the
code is cut in helpers: calls to functions that are not in the baseline list (helpers extracted
since) are unfolded in place.  No code of the package is run and no solver is involved.
"""
import ast
import builtins
import os

from .model import AnalysisError, ClassInfo, FuncInfo, Module

MAX_PATHS = 20000
MUTATORS = {'append', 'extend', 'add', 'update', 'pop', 'remove', 'insert', 'clear', 'discard', 'popitem',
            'move_to_end', 'sort', 'reverse', 'setdefault', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'appendleft', 'popleft', 'extendleft'}
NORAISE = {'isinstance', 'issubclass', 'len', 'hasattr', 'getattr', 'list', 'dict', 'set', 'tuple', 'str', 'repr', 'id',
           'type', 'super', 'bool', 'debug', 'info', 'warning', 'error', 'exception', 'get', 'keys', 'items',
           'values', 'setdefault', 'copy', 'union', 'defaultdict', 'OrderedDict', 'enumerate', 'range', 'zip',
           'append', 'add', 'startswith', 'endswith', 'format', 'join', 'lower', 'upper', 'strip', 'print',
           'getLogger', 'exc_info', 'frozenset', 'callable', 'extend'}
LOGGING = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}
TRANSPARENT = {'list', 'tuple', 'iter'}
MAXDEPTH = 10

NONE, TRUE, FALSE = ('const', 'None'), ('const', 'True'), ('const', 'False')


class TooComplex(AnalysisError):
    pass


def const(v):
    return ('const', repr(v))


def strip(t):
    """Term without the allocation marks."""
    if isinstance(t, tuple):
        if t and t[0] == 'new':
            return strip(t[2])
        return tuple(strip(x) for x in t)
    return t


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def root(t):
    """Root of an access path: a.b[c].d -> a."""
    while isinstance(t, tuple) and t and t[0] in ('attr', 'sub', 'old', 'enter'):
        t = t[1]
    return t


def callname(t):
    """Last name of the function called by a call term."""
    if isinstance(t, tuple) and t and t[0] == 'call':
        f = t[1]
        if f[0] == 'attr':
            return f[2]
        if f[0] == 'name':
            return f[1]
    return None


def receiver(t):
    if isinstance(t, tuple) and t and t[0] == 'call' and t[1][0] == 'attr':
        return t[1][1]
    return None


def const_value(t):
    """(True, value) of a constant term."""
    t = strip(t)
    if t and t[0] == 'const':
        try:
            return True, ast.literal_eval(t[1])
        except Exception:
            return False, None
    if t and t[0] in ('tuple', 'list', 'set') and len(t) == 2:
        vs = [const_value(x) for x in t[1]]
        if all(ok for ok, _ in vs):
            v = [x for _, x in vs]
            return True, tuple(v) if t[0] == 'tuple' else v if t[0] == 'list' else set(v)
    return False, None


def show(t, depth=0):
    """Readable form of a term, for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if depth > 6:
        return '...'
    s = lambda x: show(x, depth + 1)
    if k == 'arg':
        return '<arg %s>' % (t[2] if len(t) > 2 else t[1])
    if k == 'name':
        return t[1]
    if k == 'const':
        return t[1]
    if k == 'attr':
        return '%s.%s' % (s(t[1]), t[2])
    if k == 'sub':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'call':
        return '%s(%s)' % (s(t[1]), ', '.join([s(a) for a in t[2]] + ['%s=%s' % (a, s(b)) for a, b in t[3]]))
    if k == 'new':
        return s(t[2])
    if k == 'old':
        return 'earlier(%s)' % s(t[1])
    if k == 'item':
        return 'item of %s' % s(t[1])
    if k == 'neg':
        return '-%s' % s(t[1])
    if k == 'not':
        return 'not %s' % s(t[1])
    if k == 'cmp':
        return '%s %s %s' % (s(t[2]), {'lt': '<', 'eq': '==', 'in': 'in', 'is': 'is'}[t[1]], s(t[3]))
    if k == 'bin':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k in ('list', 'tuple', 'set'):
        return '%s(%s)' % (k, ', '.join(s(x) for x in t[1]))
    if k == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (s(a), s(b)) for a, b in t[1])
    return '%s(%s)' % (k, ', '.join(s(x) for x in t[1:]))


class Event:
    __slots__ = ('kind', 'term', 'value', 'facts', 'node', 'func', 'loops', 'idx')

    def __init__(self, kind, term, value, facts, node, func):
        self.kind, self.term, self.value, self.facts, self.node, self.func = kind, term, value, facts, node, func

    @property
    def where(self):
        return '%s:%d (%s)' % (self.func.module.relpath, getattr(self.node, 'lineno', 0), self.func.qual)

    def __repr__(self):
        return '<%s %s%s>' % (self.kind, show(self.term), ' := ' + show(self.value) if self.value is not None else '')


class State:
    __slots__ = ('frames', 'facts', 'events', 'kw', 'fid')

    def __init__(self):
        self.frames, self.facts, self.events, self.kw, self.fid = {}, (), [], {}, 0

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.facts, s.events, s.fid = self.facts, list(self.events), self.fid
        s.kw = {k: dict(v) for k, v in self.kw.items()}
        return s


class Path:
    """One path: events, facts at the end, outcome ('return', term) / ('raise', term) / ('exc', event)."""

    def __init__(self, events, facts, outcome):
        self.events, self.facts, self.outcome = events, facts, outcome
        self.locals = {}        # name: (term, position) at the end

    @property
    def returns(self):
        return self.outcome[1] if self.outcome[0] == 'return' else None

    @property
    def normal(self):
        return self.outcome[0] == 'return'

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and (not names or callname(e.term) in names)]

    def stores(self):
        return [e for e in self.events if e.kind == 'store']

    def __repr__(self):
        return '<Path %s -> %s %s | %s>' % (self.events, self.outcome[0],
                                            show(self.outcome[1]) if isinstance(self.outcome[1], tuple) else self.outcome[1],
                                            '; '.join(('' if b else 'not ') + show(t) for t, b in self.facts))


class Frame:
    def __init__(self, func, cls, self_term, parent=None):
        self.func, self.cls, self.self_term, self.parent = func, cls, self_term, parent


def load_baseline(path=os.path.join(os.path.dirname(__file__), 'baseline_functions.txt')):
    with open(path) as f:
        return set(l.strip() for l in f if l.strip())


class Analyzer:
    """Unfolds functions into paths.

    inline:   names ('Class.method', 'function') unfolded in place although they are in the baseline
    types:    class of a term ({('arg', 1): 'ObjectProtocol'}), to resolve calls on it
    implicit: also report paths leaving by an exception raised by a callee
    """

    def __init__(self, repo, baseline, inline=(), types=None, implicit=False, max_paths=MAX_PATHS, may_raise=None,
                 loop2=False, share=None, unroll=True, zero=True):
        self.refids = {}
        self.share, self.refs, self.unroll, self.zero = share, {}, unroll, zero
        self.repo, self.baseline = repo, baseline
        self.inline, self.types = set(inline), types or {}
        self.implicit, self.max_paths = implicit, max_paths
        self.may_raise = may_raise
        self.loop2 = loop2
        self.nframes = 0
        self.frames = {}
        self.closures = {}
        self.nnew = 0
        self.stack = []
        self.sinks = []
        self.unresolved = set()
        self._excs = {}

    # ------------------------------------------------------------- public API
    def paths(self, func, cls=None):
        """All paths of a function. cls: class of the receiver (default: the defining class)."""
        if isinstance(func, str):
            func = self.repo.func(func)
        st = State()
        node = func.node
        c = cls or func.cls
        if isinstance(c, str):
            c = self.repo.cls(c)
        self_term = None
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        if c is not None and params and (func.kind in ('method', 'property', 'class', 'setter') or params[0] in ('self', 'cls')):
            self_term = ('arg', 0)
        fid = self._frame(func, c, self_term)
        env = st.frames[fid] = {}
        st.fid = fid
        for i, p in enumerate(params):
            env[p] = (('arg', i), 0)
        for p in a.kwonlyargs:
            env[p.arg] = (('arg', p.arg), 0)
        if a.vararg:
            env[a.vararg.arg] = (('args',), 0)
        if a.kwarg:
            env[a.kwarg.arg] = (('kwargs',), 0)
        self.stack.append(func.node)
        self.sinks.append([])
        try:
            if isinstance(node, ast.Lambda):
                res = [(s, ('return', t)) for s, t in self.ev(node.body, st)]
            else:
                res = self.block(node.body, st)
        finally:
            self.stack.pop()
            sink = self.sinks.pop()
        out = []
        for s, o in res:
            if o is None:
                o = ('return', NONE)
            if o[0] in ('break', 'continue'):
                continue
            out.append(Path(s.events, s.facts, o))
            out[-1].locals = s.frames[st.fid]
        for s, t, explicit in sink:
            if explicit:
                out.append(Path(s.events, s.facts, ('raise', t)))
            elif self.implicit:
                out.append(Path(s.events, s.facts, ('exc', t)))
        for p in out:
            for i, e in enumerate(p.events):
                pass
        return out

    def _frame(self, func, cls, self_term, parent=None):
        self.nframes += 1
        self.frames[self.nframes] = Frame(func, cls, self_term, parent)
        return self.nframes

    # ------------------------------------------------------------ environment
    def lookup(self, name, st):
        fid = st.fid
        while fid is not None:
            env = st.frames.get(fid)
            if env is not None and name in env:
                return env[name]
            fid = self.frames[fid].parent
        return None

    def load(self, name, st):
        v = self.lookup(name, st)
        if v is None:
            return ('name', name)
        t, born = v
        return self._aged(t, born, st)

    def _aged(self, t, born, st):
        if not isinstance(t, tuple) or t[0] in ('const', 'arg', 'name', 'kwargs', 'args', 'closure', 'new', 'old'):
            return t
        for e in st.events[born:]:
            if e.kind in ('store', 'del', 'mutate') and self._affects(e.kind, e.term, t):
                return ('old', t)
        return t

    @staticmethod
    def _affects(kind, target, t):
        """Does a write to target change what term t evaluates to?"""
        target = strip(target)
        t = strip(t)
        if kind == 'mutate':
            base = target
        elif target[0] == 'sub':
            base = target[1]
        else:
            return contains(t, target)
        if base[0] in ('dict', 'list', 'set', 'const', 'call'):
            return False
        if t == base:
            return False
        # reads of the container: its items, its get/keys/..., membership
        for x in subterms(t):
            if x[0] == 'sub' and x[1] == base:
                if kind != 'mutate' and target[0] == 'sub' and x[2][0] == 'const' and target[2][0] == 'const' and x[2] != target[2]:
                    continue
                return True
            if x[0] == 'call' and (x[1][0] == 'attr' and x[1][1] == base or base in x[2]):
                return True
            if x[0] in ('cmp', 'item', 'bin') and base in x:
                return True
        return False

    def bind(self, name, term, st):
        fid = st.fid
        fr = self.frames[fid]
        if isinstance(fr.func.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in ast.walk(fr.func.node):
                if isinstance(n, ast.Nonlocal) and name in n.names:
                    f = fr.parent
                    while f is not None and name not in st.frames.get(f, {}):
                        f = self.frames[f].parent
                    if f is not None:
                        fid = f
                    break
        if isinstance(term, tuple) and term[0] in ('dict', 'list', 'set', 'comp') or (
                isinstance(term, tuple) and term[0] == 'call' and callname(term) in (
                    'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'copy', 'deepcopy', 'union', 'difference',
                    'intersection', 'frozenset', 'sorted')):
            self.nnew += 1
            if term[0] == 'dict' and all(k[0] == 'const' for k, _ in term[1]):
                kw = {k[1]: v for k, v in term[1]}
            else:
                kw = None
            term = ('new', self.nnew, self.shared(term))
            if kw is not None:
                st.kw[term] = kw
        else:
            term = self.shared(term)
        st.frames[fid][name] = (term, len(st.events))

    def shared(self, term):
        """Reference standing for a term that got large (functions building many tables from one another)."""
        if self.share is None:
            return term
        if isinstance(term, tuple) and term[0] in ('item', 'new', 'star'):
            return term
        n, todo = 0, [term]
        while todo and n <= self.share:
            x = todo.pop()
            n += 1
            if isinstance(x, tuple):
                todo.extend(x)
        if n <= self.share:
            return term
        k = self.refids.get(term)
        if k is None:
            k = self.refids[term] = len(self.refids) + 1
            self.refs[k] = term
        return ('ref', k)

    def shared_iter(self, it):
        """The same for the iterable of a loop, keeping the calls whose elements are known (items, enumerate, ...)."""
        if it[0] == 'ref':
            r = self.refs[it[1]]
            if r[0] == 'call' and (r[1][0] == 'name' and callname(r) in (set(TRANSPARENT) | {'enumerate', 'zip'})
                                   or r[1][0] == 'attr' and r[1][2] in ('items', 'keys', 'values')):
                return self.shared_iter(r)
        if it[0] == 'call' and it[1][0] == 'name' and callname(it) in (set(TRANSPARENT) | {'enumerate', 'zip'}):
            return it[:2] + (tuple(self.shared_iter(a) for a in it[2]),) + it[3:]
        if it[0] == 'call' and it[1][0] == 'attr' and it[1][2] in ('items', 'keys', 'values') and not it[2]:
            return it[:1] + (('attr', self.shared(it[1][1]), it[1][2]),) + it[2:]
        return self.shared(it)

    def emit(self, st, kind, term, value=None, node=None):
        st.events.append(Event(kind, term, value, st.facts, node, self.frames[st.fid].func))
        if kind in ('store', 'del', 'mutate'):
            st.facts = tuple(f for f in st.facts if not self._affects(kind, term, f[0]))
            tgt = strip(term)
            if tgt[0] == 'attr' or kind == 'mutate':
                pass
        if len(st.events) > 3000:
            raise TooComplex('path too long in %s' % self.frames[st.fid].func.key)

    # ----------------------------------------------------------------- facts
    def grown(self, st, t, v):
        """(known, what a collection made on the path contains at least) once the path changed it."""
        known = True
        for e in st.events:
            if e.kind in ('store', 'del') and e.term[0] == 'sub' and e.term[1] == t:
                v, known = ([t], True) if e.kind == 'store' else (v, False)
            elif e.kind == 'mutate' and e.term == t:
                how = callname(e.value) if isinstance(e.value, tuple) and e.value[0] == 'call' else None
                if how in ('append', 'add', 'insert', 'appendleft'):
                    v, known = [t], True
                else:
                    known = False
        return known, v

    def decide(self, st, t):
        """Truth of a condition term under the facts of the state, or None."""
        s = strip(t)
        ok, v = const_value(s)
        if ok and t[0] == 'new' and isinstance(v, (list, set)):
            ok, v = self.grown(st, t, v)
        if ok:
            return bool(v)
        if s[0] == 'dict' or s[0] in ('list', 'tuple', 'set') and len(s) == 2:
            if t[0] != 'new' and not any(x and x[0] == 'star' for x in s[1] if isinstance(x, tuple)):
                return bool(s[1])
        if s[0] in ('closure', 'fstr'):
            return True
        for f, b in st.facts:
            f = strip(f)
            if f == s:
                return b
            if b and s[0] == 'cmp' and s[1] == 'is' and s[3] == NONE and f == s[2]:
                return False
            if b and f[0] == 'cmp' and f[1] == 'is' and f[3] == NONE and f[2] == s:
                return False
            if f[0] == 'cmp' and f[1] in ('eq', 'is') and b and s[0] == 'cmp' and s[1] in ('eq', 'is') and f[2] == s[2]:
                if f[3][0] == 'const' and s[3][0] == 'const' and f[3] != s[3]:
                    return False
            if b and f[0] == 'cmp' and f[1] in ('eq', 'is') and f[2] == s and f[3][0] == 'const':
                okv, vv = const_value(f[3])
                if okv:
                    return bool(vv)
        if s[0] == 'cmp' and s[1] in ('is', 'eq'):
            ok1, v1 = const_value(s[2])
            ok2, v2 = const_value(s[3])
            if ok1 and ok2:
                return v1 == v2 if s[1] == 'eq' else (v1 is v2 or v1 == v2 and type(v1) is type(v2))
            if ok2 and v2 is None and s[2][0] in ('dict', 'list', 'tuple', 'set', 'fstr', 'closure', 'comp', 'bin'):
                return False
            if s[2] == s[3]:
                return True
        if s[0] == 'cmp' and s[1] == 'in':
            ok1, v1 = const_value(s[2])
            ok2, v2 = const_value(s[3])
            if ok1 and ok2:
                try:
                    return v1 in v2
                except TypeError:
                    return None
        return None

    def assume(self, st, t, b):
        s = st.copy()
        if (t, b) not in s.facts:
            s.facts = s.facts + ((t, b),)
        return s

    def branch(self, st, t):
        """[(state, truth)] of a canonical condition term."""
        flip = False
        while t[0] == 'not':
            t, flip = t[1], not flip
        d = self.decide(st, t)
        if d is not None:
            return [(st, d != flip)]
        return [(self.assume(st, t, True), not flip), (self.assume(st, t, False), flip)]

    def cond(self, node, st):
        """Evaluate an expression as a condition: [(state, bool)]."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st)]
        if isinstance(node, ast.BoolOp):
            stop = isinstance(node.op, ast.Or)
            done, cur = [], [st]
            for v in node.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s):
                        if b == stop:
                            done.append((s2, stop))
                        else:
                            nxt.append(s2)
                cur = nxt
            return self._cap(done + [(s, not stop) for s in cur])
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            parts, left = [], node.left
            for op, r in zip(node.ops, node.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [r]), node))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), node), st)
        if isinstance(node, ast.IfExp):
            out = []
            for s, b in self.cond(node.test, st):
                out.extend(self.cond(node.body if b else node.orelse, s))
            return out
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'bool' and len(node.args) == 1 \
                and not node.keywords:
            return self.cond(node.args[0], st)
        out = []
        for s, t in self.ev(node, st):
            t = self.canon_cond(t)
            out.extend(self.branch(s, t))
        return self._cap(out)

    @staticmethod
    def canon_cond(t):
        # len(x) == 0, len(x) > 0
        if t[0] == 'cmp' and t[1] in ('eq', 'lt'):
            l, r = t[2], t[3]
            zero = const(0)
            if t[1] == 'eq' and r == zero and callname(l) == 'len':
                return ('not', l[2][0])
            if t[1] == 'eq' and l == zero and callname(r) == 'len':
                return ('not', r[2][0])
            if t[1] == 'lt' and l == zero and callname(r) == 'len':
                return r[2][0]
        if callname(t) == 'bool' and t[1] == ('name', 'bool') and len(t[2]) == 1:
            return Analyzer.canon_cond(t[2][0])
        if callname(t) == 'len' and t[1] == ('name', 'len'):
            return t[2][0]
        return t

    def _cap(self, l):
        if len(l) > self.max_paths:
            raise TooComplex('more than %d paths in %s' % (
                self.max_paths, self.frames[l[0][0].fid].func.key))
        return l

    # ------------------------------------------------------------- statements
    def block(self, body, st):
        cur, done = [st], []
        for stmt in body:
            nxt = []
            for s in cur:
                for s2, o in self.stmt(stmt, s):
                    if o is None:
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            cur = nxt
            self._cap([(s, 0) for s in cur] + done)
            if not cur:
                break
        return done + [(s, None) for s in cur]

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return [(st, None)]
        return m(n, st)

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, _ in self.ev(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ('return', NONE))]
        return [(s, ('return', t)) for s, t in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        if n.exc is None:
            t = self.lookup('@exc', st)
            return [(st, ('raise', t[0] if t else ('reraise',)))]
        return [(s, ('raise', t)) for s, t in self.ev(n.exc, st)]

    def s_Assert(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out.append((s, None) if b else (s, ('raise', ('name', 'AssertionError'))))
        return out

    def s_Break(self, n, st):
        return [(st, ('break',))]

    def s_Continue(self, n, st):
        return [(st, ('continue',))]

    def s_FunctionDef(self, n, st):
        f = FuncInfo(n.name, n, self.frames[st.fid].func.module, self.frames[st.fid].cls)
        cid = ('closure', id(n), st.fid)
        self.closures[cid] = (n, f, st.fid)
        # a decorated local function: what it does is still what its body does, but for those which decorate others
        if any(ast.unparse(d) in ('wrapt.decorator', 'decorator') for d in n.decorator_list):
            cid = ('decorator', n.name)
        st.frames[st.fid][n.name] = (cid, len(st.events))
        return [(st, None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_If(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out.extend(self.block(n.body if b else n.orelse, s))
        return self._cap(out)

    def s_Assign(self, n, st):
        out = []
        for s, t in self.ev(n.value, st):
            sts = [s]
            for tgt in n.targets:
                sts = [s3 for s2 in sts for s3 in self.assign(tgt, t, s2, n)]
            out.extend((s2, None) for s2 in sts)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        return [(s2, None) for s, t in self.ev(n.value, st) for s2 in self.assign(n.target, t, s, n)]

    def s_AugAssign(self, n, st):
        op = type(n.op).__name__
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(n.target, ast.Name):
                cur = self.load(n.target.id, s)
                new = ('bin', op, cur, v)
                c = strip(cur)
                fr = s.frames.get(s.fid, {})
                # in place on a container reached through the heap
                if c[0] in ('attr', 'sub', 'args', 'arg', 'item') and op in ('Add', 'BitOr', 'BitAnd', 'Sub', 'BitXor'):
                    self.emit(s, 'mutate', cur, ('bin', op, cur, v), n)
                elif cur[0] == 'new':
                    self.emit(s, 'mutate', cur, ('bin', op, cur, v), n)
                    out.append((s, None))
                    continue
                self.bind(n.target.id, new, s)
                out.append((s, None))
            else:
                for s2, tgt in self.target(n.target, s):
                    self.emit(s2, 'aug', tgt, ('bin', op, tgt, v), n)
                    self.emit(s2, 'store', tgt, ('bin', op, tgt, v), n)
                    out.append((s2, None))
        return out

    def s_Delete(self, n, st):
        sts = [st]
        for t in n.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Name):
                    nxt.append(s)
                else:
                    for s2, tgt in self.target(t, s):
                        self.maybe_raise(s2, ('delete', tgt), n, force=True)
                        self.emit(s2, 'del', tgt, None, n)
                        nxt.append(s2)
            sts = nxt
        return [(s, None) for s in sts]

    def target(self, node, st):
        """Evaluate the target of a store to a term."""
        if isinstance(node, ast.Attribute):
            return [(s, ('attr', b, node.attr)) for s, b in self.ev(node.value, st)]
        if isinstance(node, ast.Subscript):
            out = []
            for s, b in self.ev(node.value, st):
                for s2, i in self.ev(node.slice, s):
                    out.append((s2, ('sub', b, i)))
            return out
        raise TooComplex('unsupported target')

    def assign(self, tgt, term, st, node):
        if isinstance(tgt, ast.Name):
            self.bind(tgt.id, term, st)
            return [st]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            sts = [st]
            s = strip(term)
            parts = s[1] if s[0] in ('tuple', 'list') and len(s) == 2 else None
            if parts is not None and term[0] in ('tuple', 'list'):
                parts = term[1]
            if parts is None or len(parts) != len(tgt.elts) or any(isinstance(e, ast.Starred) for e in tgt.elts):
                parts = [('sub', term, const(i)) for i in range(len(tgt.elts))]
            for e, p in zip(tgt.elts, parts):
                e = e.value if isinstance(e, ast.Starred) else e
                sts = [s3 for s2 in sts for s3 in self.assign(e, p, s2, node)]
            return sts
        out = []
        for s, t in self.target(tgt, st):
            self.store(s, t, term, node)
            out.append(s)
        return out

    def store(self, s, t, value, node):
        self.emit(s, 'store', t, value, node)
        if t[0] == 'sub' and t[2][0] == 'const':
            s.kw.setdefault(t[1], {})[t[2][1]] = value

    # loops
    def iter_terms(self, it, node):
        """Term bound to the loop variable(s) for an iterable term."""
        c = callname(it)
        if it[0] == 'call':
            if it[1][0] == 'name':
                if c == 'enumerate' and it[2]:
                    return ('tuple', (('index', strip_iter(it[2][0])), self.iter_terms(it[2][0], node)))
                if c == 'zip':
                    return ('tuple', tuple(self.iter_terms(a, node) for a in it[2]))
                if c in TRANSPARENT and len(it[2]) == 1:
                    return self.iter_terms(it[2][0], node)
            if c == 'items' and it[1][0] == 'attr' and not it[2]:
                d = it[1][1]
                k = ('item', strip_iter(d))
                return ('tuple', (k, ('sub', d, k)))
            if c == 'keys' and it[1][0] == 'attr' and not it[2]:
                return ('item', strip_iter(it[1][1]))
            if c == 'values' and it[1][0] == 'attr' and not it[2]:
                d = it[1][1]
                return ('sub', d, ('item', strip_iter(d)))
        return ('item', strip_iter(it))

    def s_For(self, n, st):
        out = []
        for s, it in self.ev(n.iter, st):
            it = self.shared_iter(it)
            lit = strip(it)
            if self.unroll and lit[0] in ('tuple', 'list') and len(lit) == 2 and 0 < len(lit[1]) <= 12 and not any(
                    x[0] == 'star' for x in lit[1]):
                out.extend(self._unroll(n, s, lit[1]))
                continue
            # no iteration
            if self.zero:
                z = self.assume(s, ('empty', strip_iter(it)), True) if self.decide(s, ('empty', strip_iter(it))) is None else s.copy()
                out.extend(self.block(n.orelse, z))
            # one iteration (or two)
            s1 = self.assume(s, ('loop', strip_iter(it)), True)
            cur, rounds = [s1], 2 if self.loop2 else 1
            for r in range(rounds):
                nxt = []
                for c in cur:
                    c = c.copy()
                    for c2 in self.assign(n.target, self.iter_terms(it, n), c, n):
                        for s2, o in self.block(n.body, c2):
                            if o is None or o[0] == 'continue':
                                nxt.append(s2)
                                if r == rounds - 1:
                                    s3 = s2.copy()
                                    s3.facts = tuple(f for f in s3.facts if f != (('loop', strip_iter(it)), True)) + \
                                        ((('looped', strip_iter(it)), True),)
                                    out.extend(self.block(n.orelse, s3))
                            elif o[0] == 'break':
                                out.append((s2, None))
                            else:
                                out.append((s2, o))
                cur = nxt
        return self._cap(out)

    s_AsyncFor = s_For

    def _unroll(self, n, st, elts):
        cur, out = [st], []
        for e in elts:
            nxt = []
            for s in cur:
                for s1 in self.assign(n.target, e, s.copy(), n):
                    for s2, o in self.block(n.body, s1):
                        if o is None or o[0] == 'continue':
                            nxt.append(s2)
                        elif o[0] == 'break':
                            out.append((s2, None))
                        else:
                            out.append((s2, o))
            cur = nxt
            self._cap([(c, 0) for c in cur] + out)
        for s in cur:
            out.extend(self.block(n.orelse, s))
        return out

    def s_While(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if not b:
                out.extend(self.block(n.orelse, s))
                continue
            for s2, o in self.block(n.body, s):
                if o is None or o[0] == 'continue':
                    # the condition is looked at again, without what was assumed about it
                    s3 = s2.copy()
                    s3.facts = st.facts
                    for s4, b2 in self.cond(n.test, s3):
                        if not b2:
                            out.extend(self.block(n.orelse, s4))
                        elif not isinstance(n.test, ast.Constant):
                            out.append((s4, None))
                        else:
                            # a loop without condition: another turn leaves it
                            for s5, o5 in self.block(n.body, s4):
                                if o5 is not None and o5[0] == 'break':
                                    out.append((s5, None))
                                elif o5 is not None and o5[0] != 'continue':
                                    out.append((s5, o5))
                elif o[0] == 'break':
                    out.append((s2, None))
                else:
                    out.append((s2, o))
        return self._cap(out)

    # with / try
    def s_With(self, n, st):
        cur = [(st, [])]
        for item in n.items:
            nxt = []
            for s, ctxs in cur:
                for s2, t in self.ev(item.context_expr, s):
                    self.emit(s2, 'with', t, None, n)
                    sts = [s2]
                    if item.optional_vars is not None:
                        sts = self.assign(item.optional_vars, ('enter', t), s2, n)
                    nxt.extend((x, ctxs + [t]) for x in sts)
            cur = nxt
        out = []
        for s, ctxs in cur:
            self.sinks.append([])
            try:
                res = self.block(n.body, s)
            finally:
                sink = self.sinks.pop()
            for s2, o in res:
                for t in reversed(ctxs):
                    self.emit(s2, 'endwith', t, None, n)
                out.append((s2, o))
            for s2, t, explicit in sink:
                for c in reversed(ctxs):
                    self.emit(s2, 'endwith', c, None, n)
                self.sinks[-1].append((s2, t, explicit))
        return self._cap(out)

    s_AsyncWith = s_With

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '?') for t in ts]

    def exc_matches(self, raised, names):
        """True / False / None (unknown) for a raised exception term and the names of a handler."""
        if names is None or 'BaseException' in names or 'Exception' in names:
            return True
        n = None
        t = raised
        if isinstance(t, tuple):
            if t[0] == 'call':
                n = callname(t)
            elif t[0] == 'name':
                n = t[1]
            elif t[0] == 'delete' or t[0] == 'sub':
                n = 'KeyError'
        if n is None:
            return None
        if t[0] in ('delete', 'sub'):
            return True if {'KeyError', 'IndexError', 'LookupError'} & set(names) else None
        sup = self.exc_supers(n)
        if sup is None:
            return None
        if set(names) & sup:
            return True
        return False

    def is_exception_class(self, n):
        if not n:
            return False
        if n not in self._excs:
            s = self.exc_supers(n)
            self._excs[n] = bool(s) and ('BaseException' in s or 'Exception' in s)
        return self._excs[n]

    def exc_supers(self, n, seen=()):
        b = getattr(builtins, n, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return {k.__name__ for k in b.__mro__}
        c = None
        for m in self.repo.modules.values():
            if n in m.classes:
                c = m.classes[n]
        if c is None:
            return {n, 'Exception'} if n in ('ValidationError', 'SchemaError', 'FormatError') else None
        out = {n}
        for x in c.node.bases:
            bn = getattr(x, 'id', getattr(x, 'attr', None))
            s = self.exc_supers(bn) if bn and bn != n else None
            out |= s or {bn}
        return out

    def s_Try(self, n, st):
        self.sinks.append([])
        try:
            res = self.block(n.body, st)
        finally:
            sink = self.sinks.pop()
        out = []
        raised = [(s, t, e) for s, t, e in sink]
        for s, o in res:
            if o is None:
                self.sinks.append([])
                r2 = self.block(n.orelse, s)
                esc = self.sinks.pop()
                out.extend(r2)
                out.extend((s2, ('@exc', t, e)) for s2, t, e in esc)
            elif o[0] == 'raise':
                raised.append((s, o[1], True))
            else:
                out.append((s, o))
        seen = {}
        for s, t, explicit in raised:
            pending = [s]
            for h in n.handlers:
                names = self.handler_names(h)
                m = self.exc_matches(t, names) if (explicit or t[0] in ('sub', 'delete')) else (
                    True if names is None or 'Exception' in names or 'BaseException' in names else None)
                if m is False:
                    continue
                for p in pending:
                    p2 = p.copy()
                    p2.fid = st.fid
                    p2.facts = p2.facts + ((('caught', tuple(names or ())), True),)
                    old = p2.frames[p2.fid].get('@exc')
                    exc = t if explicit else ('exception', t)
                    p2.frames[p2.fid]['@exc'] = (exc, len(p2.events))
                    if h.name:
                        p2.frames[p2.fid][h.name] = (exc, len(p2.events))
                    self.sinks.append([])
                    r = self.block(h.body, p2)
                    esc = self.sinks.pop()
                    for s2, o in r:
                        if old is None:
                            s2.frames[s2.fid].pop('@exc', None)
                        else:
                            s2.frames[s2.fid]['@exc'] = old
                        out.append((s2, o))
                    out.extend((s2, ('@exc', t2, e2)) for s2, t2, e2 in esc)
                if m is True:
                    pending = []
                    break
            for p in pending:
                out.append((p, ('@exc', t, explicit)))
        final = []
        for s, o in out:
            s.fid = st.fid
            if n.finalbody:
                for s2, o2 in self.block(n.finalbody, s):
                    final.append((s2, o2 if o2 is not None else o))
            else:
                final.append((s, o))
        res = []
        for s, o in final:
            if o is not None and o[0] == '@exc':
                if o[2] and False:
                    res.append((s, ('raise', o[1])))
                else:
                    self.sinks[-1].append((s, o[1], o[2]))
            else:
                res.append((s, o))
        return self._cap(res)

    def maybe_raise(self, st, t, node, force=False):
        """Record that evaluating t may raise, for the enclosing try (or the implicit outcomes)."""
        if len(self.sinks) == 1 and not self.implicit:
            return
        if not force and callname(t) in NORAISE:
            return
        if t[0] == 'call' and not force and self.is_exception_class(callname(t)):
            return
        if self.may_raise is not None and t[0] == 'call' and callname(t) not in self.may_raise:
            return
        if self.may_raise is not None and t[0] != 'call':
            return
        s = st.copy()
        self.sinks[-1].append((s, t, False))
        if len(self.sinks[-1]) > self.max_paths:
            raise TooComplex('too many exceptional paths')

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(st, ('unknown', type(n).__name__, getattr(n, 'lineno', 0)))]
        return m(n, st)

    def evs(self, nodes, st):
        """Evaluate several expressions in order: [(state, [terms])]."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, ts in cur:
                if isinstance(n, ast.Starred):
                    for s2, t in self.ev(n.value, s):
                        nxt.append((s2, ts + [('star', t)]))
                else:
                    for s2, t in self.ev(n, s):
                        nxt.append((s2, ts + [t]))
            cur = self._cap(nxt)
        return cur

    def e_Constant(self, n, st):
        return [(st, const(n.value))]

    def e_Name(self, n, st):
        return [(st, self.load(n.id, st))]

    def e_Attribute(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            t = ('attr', b, n.attr)
            f = self.resolve_property(b, n.attr, s)
            if f is not None:
                out.extend(self.inline_call(f, [b], [], s, n, t))
            else:
                out.append((s, t))
        return out

    def e_Subscript(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            for s2, i in self.ev(n.slice, s):
                t = ('sub', b, i)
                sb = strip(b)
                ok, v = const_value(i)
                if ok and isinstance(v, int) and sb[0] in ('tuple', 'list') and len(sb) == 2 and b[0] == 'tuple' \
                        and -len(sb[1]) <= v < len(sb[1]) and not any(x[0] == 'star' for x in sb[1]):
                    out.append((s2, b[1][v]))
                    continue
                if b in s2.kw and i[0] == 'const' and i[1] in s2.kw[b]:
                    out.append((s2, s2.kw[b][i[1]]))
                    continue
                self.emit(s2, 'load', t, None, n)
                self.maybe_raise(s2, t, n)
                out.append((s2, t))
        return out

    def e_Slice(self, n, st):
        parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        return [(s, ('slice',) + tuple(ts)) for s, ts in self.evs(parts, st)]

    def e_BinOp(self, n, st):
        return [(s, ('bin', type(n.op).__name__, ts[0], ts[1])) for s, ts in self.evs([n.left, n.right], st)]

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(s, FALSE if b else TRUE) for s, b in self.cond(n.operand, st)]
        out = []
        for s, t in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                ok, v = const_value(t)
                out.append((s, const(-v) if ok and isinstance(v, (int, float)) else ('neg', t)))
            else:
                out.append((s, ('un', type(n.op).__name__, t)))
        return out

    def e_Compare(self, n, st):
        if len(n.ops) > 1:
            return [(s, TRUE if b else FALSE) for s, b in self.cond(n, st)]
        op = type(n.ops[0]).__name__
        out = []
        for s, (l, r) in self.evs([n.left, n.comparators[0]], st):
            out.append((s, self.compare(op, l, r)))
        return out

    @staticmethod
    def compare(op, l, r):
        if op in ('NotEq', 'IsNot', 'NotIn'):
            return ('not', Analyzer.compare({'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op], l, r))
        if op == 'Gt':
            return ('cmp', 'lt', r, l)
        if op == 'GtE':
            return ('not', ('cmp', 'lt', l, r))
        if op == 'LtE':
            return ('not', ('cmp', 'lt', r, l))
        if op == 'Lt':
            return ('cmp', 'lt', l, r)
        if op == 'Is':
            if strip(l)[0] == 'const' and strip(r)[0] != 'const':
                l, r = r, l
            return ('cmp', 'is', l, r)
        if op == 'Eq':
            if r == NONE or l == NONE:
                return ('cmp', 'is', l if r == NONE else r, NONE)
            if strip(l)[0] == 'const' and strip(r)[0] != 'const':
                l, r = r, l
            return ('cmp', 'eq', l, r)
        if op == 'In':
            rs = strip(r)
            if rs[0] in ('tuple', 'list', 'set') and len(rs) == 2 and len(rs[1]) == 1:
                return ('cmp', 'eq', l, rs[1][0])
            if rs[0] == 'call' and callname(rs) == 'keys' and not rs[2]:
                return ('cmp', 'in', l, receiver(r) if r[0] == 'call' else rs[1][1])
            return ('cmp', 'in', l, r)
        return ('cmp', op, l, r)

    def e_BoolOp(self, n, st):
        stop = isinstance(n.op, ast.Or)
        done, cur = [], [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                if last:
                    done.extend(self.ev(v, s))
                    continue
                if isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and not (
                        isinstance(v, ast.UnaryOp) and not isinstance(v.op, ast.Not)) and self._is_bool(v):
                    for s2, b in self.cond(v, s):
                        if b == stop:
                            done.append((s2, const(stop)))
                        else:
                            nxt.append(s2)
                    continue
                for s2, t in self.ev(v, s):
                    for s3, b in self.branch(s2, self.canon_cond(t)):
                        if b == stop:
                            done.append((s3, t))
                        else:
                            nxt.append(s3)
            cur = nxt
        return self._cap(done)

    def _is_bool(self, v):
        if isinstance(v, ast.Compare):
            return True
        if isinstance(v, ast.UnaryOp):
            return isinstance(v.op, ast.Not)
        if isinstance(v, ast.BoolOp):
            return all(self._is_bool(x) for x in v.values)
        return False

    def e_IfExp(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, s))
        return self._cap(out)

    def e_NamedExpr(self, n, st):
        out = []
        for s, t in self.ev(n.value, st):
            self.bind(n.target.id, t, s)
            out.append((s, t))
        return out

    def _coll(self, kind, n, st):
        return [(s, (kind, tuple(ts))) for s, ts in self.evs(n.elts, st)]

    def e_Tuple(self, n, st):
        return self._coll('tuple', n, st)

    def e_List(self, n, st):
        return self._coll('list', n, st)

    def e_Set(self, n, st):
        return self._coll('set', n, st)

    def e_Dict(self, n, st):
        cur = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, kvs in cur:
                for s2, ts in self.evs(([k] if k is not None else []) + [v], s):
                    nxt.append((s2, kvs + [(ts[0], ts[1]) if k is not None else (('star',), ts[0])]))
            cur = nxt
        return [(s, ('dict', tuple(kvs))) for s, kvs in cur]

    def e_JoinedStr(self, n, st):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        return [(s, ('fstr', tuple(ts))) for s, ts in self.evs(parts, st)]

    def e_Starred(self, n, st):
        return [(s, ('star', t)) for s, t in self.ev(n.value, st)]

    def e_Lambda(self, n, st):
        f = FuncInfo('<lambda>', _lambda_def(n), self.frames[st.fid].func.module, self.frames[st.fid].cls)
        f.node = n
        cid = ('closure', id(n), st.fid)
        self.closures[cid] = (n, f, st.fid)
        return [(st, cid)]

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        out = []
        for s, t in (self.ev(n.value, st) if n.value is not None else [(st, NONE)]):
            self.emit(s, 'yield', t, None, n)
            if self.implicit:       # an exception can be thrown in, or the generator be closed
                self.maybe_raise(s, ('thrown', t), n, force=True)
            out.append((s, ('sent', t)))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for s, t in self.ev(n.value, st):
            self.emit(s, 'yield', ('item', strip_iter(t)), None, n)
            out.append((s, ('sent', t)))
        return out

    def _comp(self, kind, n, elts, st):
        """A comprehension: its parts are evaluated once for one generic item; the first iterable is evaluated before."""
        out = []
        for c, it in self.ev(n.generators[0].iter, st):
            out += self._comp_over(kind, n, elts, c, it)
        return out

    def _comp_over(self, kind, n, elts, st, first):
        s = st.copy()
        # inner evaluation in the same frame, on shadowed targets
        saved = dict(s.frames[s.fid])
        gens, conds = [], []
        cur = [(s, [], [])]
        for g in n.generators:
            nxt = []
            for c, gs, cs in cur:
                for c2, it in ([(c, first)] if g is n.generators[0] else self.ev(g.iter, c)):
                    it = self.shared(it)
                    c2 = self.assume(c2, ('loop', strip_iter(it)), True)
                    for c3 in self.assign(g.target, self.iter_terms(it, n), c2, n):
                        sts = [(c3, [])]
                        for cond in g.ifs:
                            sts = [(c5, acc + extra) for c4, acc in sts for c5, extra in self._cond_true(cond, c4)]
                        for c4, extra in sts:
                            nxt.append((c4, gs + [strip_iter(it)], cs + extra))
            cur = nxt
        res = []
        for c, gs, cs in cur:
            for c2, ts in self.evs(elts, c):
                res.append((c2, ('comp', kind, tuple(ts), tuple(gs), tuple(cs))))
        if not res:
            # conditions never true
            return [(st, ('comp', kind, (), (), ()))]
        out = []
        # several ways to compute the element: keep the events of all of them, alternatives in the term
        merged = st.copy()
        alts = []
        for c, t in res:
            for e in c.events[len(st.events):]:
                merged.events.append(e)
            if t not in alts:
                alts.append(t)
        if len(alts) == 1:
            term = alts[0]
        else:
            term = ('alts', tuple(alts))
        merged.frames[merged.fid] = dict(merged.frames[merged.fid])
        return [(merged, term)]

    def _cond_true(self, cond, st):
        """States in which a comprehension filter holds, with the facts it added."""
        out = []
        for s, b in self.cond(cond, st):
            if b:
                out.append((s, [f for f in s.facts if f not in st.facts]))
        return out

    def e_ListComp(self, n, st):
        return self._comp('list', n, [n.elt], st)

    def e_SetComp(self, n, st):
        return self._comp('set', n, [n.elt], st)

    def e_GeneratorExp(self, n, st):
        return self._comp('gen', n, [n.elt], st)

    def e_DictComp(self, n, st):
        return self._comp('dict', n, [n.key, n.value], st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        out = []
        for s, f in self._callee(n.func, st):
            for s1, args in self.evs(n.args, s):
                cur = [(s1, [])]
                for k in n.keywords:
                    cur = [(s3, kws + [(k.arg, t)]) for s2, kws in cur for s3, t in self.ev(k.value, s2)]
                for s2, kws in cur:
                    out.extend(self.call(f, args, kws, s2, n))
        return self._cap(out)

    def _callee(self, n, st):
        if isinstance(n, ast.Attribute):
            return [(s, ('attr', b, n.attr)) for s, b in self.ev(n.value, st)]
        return self.ev(n, st)

    def call(self, f, args, kws, st, node):
        # expand **kwargs whose content is known
        kw2, known = [], set(k for k, _ in kws if k)
        for k, t in kws:
            if k is None:
                if t in st.kw:
                    for kk, vv in st.kw[t].items():
                        ok, name = const_value(('const', kk))
                        if ok and isinstance(name, str) and name not in known:
                            kw2.append((name, vv))
                ts = strip(t)
                if ts[0] == 'dict' and all(a[0] == 'const' for a, _ in ts[1]):
                    for a, b in ts[1]:
                        ok, name = const_value(a)
                        if ok and t not in st.kw and name not in known:
                            kw2.append((name, b))
                    if t[0] != 'new':
                        continue
                kw2.append(('**', t))
            else:
                kw2.append((k, t))
        # *args of a literal
        a2 = []
        for a in args:
            if a[0] == 'star' and strip(a[1])[0] in ('tuple', 'list') and len(strip(a[1])) == 2 and a[1][0] != 'new':
                a2.extend(a[1][1])
            else:
                a2.append(a)
        args = a2
        kws = kw2
        # closures
        if f[0] == 'closure':
            n, fi, fid = self.closures[f]
            if not (n in self.stack) and len(self.stack) < MAXDEPTH and not has_yield(n):
                return self.inline_body(fi, n, args, kws, st, node, parent=fid,
                                        cls=self.frames[fid].cls, self_term=self.frames[fid].self_term)
        name = f[1] if f[0] == 'name' else None
        # builtins with a canonical form
        if name == 'getattr' and len(args) >= 2 and not kws:
            ok, v = const_value(args[1])
            if ok and isinstance(v, str):
                if len(args) == 2:
                    return [(st, ('attr', args[0], v))]
                return [(st, ('getattr', args[0], v, args[2]))]
        if name == 'setattr' and len(args) == 3:
            ok, v = const_value(args[1])
            t = ('attr', args[0], v) if ok else ('dynattr', args[0], args[1])
            self.store(st, t, args[2], node)
            return [(st, NONE)]
        if name == 'delattr' and len(args) == 2:
            ok, v = const_value(args[1])
            t = ('attr', args[0], v) if ok else ('dynattr', args[0], args[1])
            self.maybe_raise(st, ('delete', t), node, force=True)
            self.emit(st, 'del', t, None, node)
            return [(st, NONE)]
        if name in ('neg',) and len(args) == 1 or f == ('attr', ('name', 'operator'), 'neg'):
            return [(st, ('neg', args[0]))]
        if f[0] == 'attr' and f[1][0] != 'name' or f[0] == 'attr':
            if f[2] == '__setitem__' and len(args) == 2:
                self.store(st, ('sub', f[1], args[0]), args[1], node)
                return [(st, NONE)]
            if f[2] == '__getitem__' and len(args) == 1 and f[1][0] not in ('name', 'call'):
                t = ('sub', f[1], args[0])
                self.emit(st, 'load', t, None, node)
                self.maybe_raise(st, t, node)
                return [(st, t)]
        if name in ('isinstance', 'issubclass') and len(args) == 2 and args[1][0] in ('tuple', 'list'):
            args = [args[0], ('tuple', tuple(sorted(args[1][1])))]
            if len(args[1][1]) == 1:
                args[1] = args[1][1][0]
        if name == 'dict' and not args and all(k != '**' for k, _ in kws):
            return [(st, ('dict', tuple((const(k), v) for k, v in kws)))]
        if name in ('list', 'tuple', 'set', 'dict') and not args and not kws:
            return [(st, (name, ()))]
        if f[0] == 'attr' and f[1] == const('') and f[2] in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'casefold') and not kws:
            return [(st, const(''))]
        term = ('call', f, tuple(args), tuple(sorted(kws, key=lambda x: (x[0] == '**', str(x)))))
        target, bound, clsx = self.resolve_call(f, args, st)
        if target is not None and self.should_inline(target) and target.node not in self.stack and len(self.stack) < MAXDEPTH \
                and not has_yield(target.node):
            a = ([bound] if bound is not None else []) + list(args)
            return self.inline_call(target, a, kws, st, node, term, cls=clsx)
        # known content of dicts
        if f[0] == 'attr' and f[2] == 'setdefault' and len(args) == 2 and args[0][0] == 'const':
            d = st.kw.setdefault(f[1], {})
            if args[0][1] not in d:
                d[args[0][1]] = ('default', args[1])
        if f[0] == 'attr' and f[2] == 'pop' and args and args[0][0] == 'const' and f[1] in st.kw:
            st.kw[f[1]].pop(args[0][1], None)
        if f[0] == 'attr' and f[2] == 'update' and not args:
            for k, v in kws:
                if k != '**':
                    st.kw.setdefault(f[1], {})[repr(k)] = v
        self.emit(st, 'call', term, None, node)
        if f[0] == 'attr' and f[2] in MUTATORS:
            self.emit(st, 'mutate', f[1], term, node)
        self.maybe_raise(st, term, node)
        return [(st, term)]

    def class_of(self, t, st):
        """Class of a term, when known."""
        t = strip(t)
        if t in self.types:
            c = self.types[t]
            return self.repo.cls(c) if isinstance(c, str) else c
        fr = self.frames[st.fid]
        f = fr
        while f is not None:
            if f.self_term is not None and t == strip(f.self_term):
                return f.cls
            f = self.frames.get(f.parent) if f.parent else None
        if t[0] == 'name':
            r = self.repo.resolve_name(fr.func.module, t[1])
            if isinstance(r, ClassInfo):
                return r
        if t[0] == 'call' and t[1] == ('name', 'type') and len(t[2]) == 1:
            return self.class_of(t[2][0], st)
        if t[0] == 'attr' and t[2] == '__class__':
            return self.class_of(t[1], st)
        if t[0] == 'call' and t[1][0] == 'name':
            r = self.repo.resolve_name(fr.func.module, t[1][1])
            if isinstance(r, ClassInfo):
                return r
        return None

    def resolve_call(self, f, args, st):
        """(FuncInfo, bound receiver or None, class of the receiver) of a callee term."""
        fr = self.frames[st.fid]
        if f[0] == 'name':
            r = self.repo.resolve_name(fr.func.module, f[1])
            if isinstance(r, FuncInfo):
                return r, None, r.cls
            return None, None, None
        if f[0] != 'attr':
            return None, None, None
        recv, m = f[1], f[2]
        rs = strip(recv)
        if rs[0] == 'call' and rs[1] == ('name', 'super'):
            c = fr.func.cls
            ctx = fr.cls or c
            if c is not None:
                t = self.repo.method(ctx, m, after=c)
                if t is not None:
                    return t, (fr.self_term or ('arg', 0)) if t.kind != 'static' else None, ctx
            return None, None, None
        if rs[0] == 'name':
            r = self.repo.resolve_name(fr.func.module, rs[1])
            if isinstance(r, Module):
                x = self.repo.resolve_name(r, m)
                if isinstance(x, FuncInfo):
                    return x, None, x.cls
                return None, None, None
            if isinstance(r, ClassInfo):
                t = self.repo.method(r, m)
                if t is None:
                    return None, None, None
                # explicit receiver: keep the class context of the object passed
                c = self.class_of(args[0], st) if args else None
                if c is None or not self.repo.is_subclass(c, r.name):
                    c = r
                return t, recv if t.kind == 'class' else None, c
        c = self.class_of(recv, st)
        if c is not None:
            t = self.repo.method(c, m)
            if t is not None:
                return t, None if t.kind == 'static' else recv, c
            return None, None, None
        # unknown receiver: a helper that did not exist before, defined once
        cands = [k.methods[m] for mod in self.repo.modules.values() for k in mod.classes.values() if m in k.methods]
        cands = [x for x in cands if self._key(x) not in self.baseline]
        if len(cands) == 1:
            t = cands[0]
            return t, None if t.kind == 'static' else recv, t.cls
        return None, None, None

    def resolve_property(self, b, name, st):
        c = self.class_of(b, st)
        if c is None or strip(b)[0] == 'name':
            return None
        t = self.repo.method(c, name)
        if t is not None and t.kind == 'property' and self.should_inline(t) and t.node not in self.stack:
            return t
        return None

    @staticmethod
    def _key(f):
        return f.key

    def should_inline(self, f):
        if f.qual in self.inline or f.name in self.inline:
            return True
        return f.key not in self.baseline and not self._moved(f)

    def _moved(self, f):
        # a baseline function moved to another module keeps its name and is still a known function
        tail = ':' + f.qual
        return any(k.endswith(tail) for k in self.baseline) and f.cls is not None

    def inline_call(self, target, args, kws, st, node, term, cls=None):
        return self.inline_body(target, target.node, args, kws, st, node, cls=cls or target.cls,
                                self_term=args[0] if args and target.cls is not None else None, term=term)

    def inline_body(self, fi, n, args, kws, st, node, parent=None, cls=None, self_term=None, term=None):
        if getattr(n, 'decorator_list', None) and term is not None:
            # decorated callee: mark the call as well (the decorator may do something around it)
            decs = [d for d in fi.decorators if d not in ('staticmethod', 'classmethod', 'property')]
            if decs:
                self.emit(st, 'decorated', term, None, node)
        a = n.args
        params = [p.arg for p in a.posonlyargs + a.args]
        fid = self._frame(fi, cls, self_term, parent)
        env = {}
        nev = len(st.events)
        kwd = dict((k, v) for k, v in kws if k != '**')
        rest = [(k, v) for k, v in kws if k == '**']
        pos = [x for x in args]
        for i, p in enumerate(params):
            if i < len(pos) and pos[i][0] != 'star':
                env[p] = (pos[i], nev)
            elif p in kwd:
                env[p] = (kwd.pop(p), nev)
        extra = pos[len(params):]
        if a.vararg:
            env[a.vararg.arg] = (('tuple', tuple(extra)), nev)
        for p in a.kwonlyargs:
            if p.arg in kwd:
                env[p.arg] = (kwd.pop(p.arg), nev)
        # defaults
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in params + [q.arg for q in a.kwonlyargs]:
            if p not in env:
                if rest or any(x[0] == 'star' for x in pos):
                    env[p] = (('maybe', p, tuple(v for _, v in rest)), nev)
                elif p in defaults:
                    d = defaults[p]
                    env[p] = (const(d.value) if isinstance(d, ast.Constant) else strip(self._simple(d)), nev)
                else:
                    env[p] = (('missing', p), nev)
        if a.kwarg:
            if rest and not kwd and len(rest) == 1:
                env[a.kwarg.arg] = (rest[0][1], nev)
            else:
                t = ('dict', tuple((const(k), v) for k, v in sorted(kwd.items(), key=lambda x: x[0])) + tuple(
                    (('star',), v) for _, v in rest))
                self.nnew += 1
                t = ('new', self.nnew, t)
                st.kw[t] = {repr(k): v for k, v in kwd.items()}
                for _, v in rest:
                    for kk, vv in st.kw.get(v, {}).items():
                        st.kw[t].setdefault(kk, vv)
                env[a.kwarg.arg] = (t, nev)
        caller = st.fid
        st = st.copy()
        st.frames[fid] = env
        st.fid = fid
        self.stack.append(n)
        try:
            if isinstance(n, ast.Lambda):
                res = [(s, ('return', t)) for s, t in self.ev(n.body, st)]
            else:
                res = self.block(n.body, st)
        finally:
            self.stack.pop()
        out = []
        for s, o in res:
            s.fid = caller
            if o is None:
                out.append((s, NONE))
            elif o[0] == 'return':
                out.append((s, self._aged(o[1], len(s.events), s)))
            elif o[0] == 'raise':
                self.sinks[-1].append((s, o[1], True))
        for s, t, e in self.sinks[-1]:
            s.fid = caller if s.fid == fid else s.fid
        return self._cap(out)

    def _simple(self, d):
        try:
            v = ast.literal_eval(d)
        except Exception:
            return ('unknown', ast.unparse(d), 0)
        if isinstance(v, list) and not v:
            return ('list', ())
        if isinstance(v, dict) and not v:
            return ('dict', ())
        if isinstance(v, tuple):
            return ('tuple', tuple(const(x) for x in v))
        return const(v)


def _lambda_def(n):
    d = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.Return(n.body)], decorator_list=[])
    return ast.copy_location(d, n)


def strip_iter(t):
    """Iterable term without list()/tuple()/iter() and .keys()."""
    while isinstance(t, tuple) and t[0] == 'call' and (
            t[1][0] == 'name' and t[1][1] in TRANSPARENT and len(t[2]) == 1
            or t[1][0] == 'attr' and t[1][2] in ('keys', 'items', 'values') and not t[2]):
        t = t[2][0] if t[1][0] == 'name' else t[1][1]
    return t


def has_yield(n):
    if isinstance(n, ast.Lambda):
        return False
    todo = list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


# --------------------------------------------------------------------- patterns
def parse_pattern(src):
    """Pattern term from an expression.

    A0, A1, .. positional arguments; KW_x keyword-only argument x; names ending with '_' are
    wildcards (bound consistently); ANY matches anything; '...' as last call argument matches any
    remaining arguments.
    """
    return _pat(ast.parse(src, mode='eval').body)


def _pat(n):
    if isinstance(n, ast.Name):
        if n.id == 'ANY':
            return ('any',)
        if n.id[0] == 'A' and n.id[1:].isdigit():
            return ('arg', int(n.id[1:]))
        if n.id.startswith('KW_'):
            return ('arg', n.id[3:])
        if n.id == 'KWARGS':
            return ('kwargs',)
        if n.id == 'ARGS':
            return ('args',)
        if n.id.endswith('_'):
            return ('wild', n.id)
        return ('name', n.id)
    if isinstance(n, ast.Constant):
        if n.value is Ellipsis:
            return ('ellipsis',)
        return const(n.value)
    if isinstance(n, ast.Attribute):
        return ('attr', _pat(n.value), n.attr if not n.attr.endswith('__W') else ('wild', n.attr))
    if isinstance(n, ast.Subscript):
        return ('sub', _pat(n.value), _pat(n.slice))
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Name) and n.func.id in ('old', 'item', 'index', 'enter', 'exception'):
            return (n.func.id, _pat(n.args[0]))
        return ('call', _pat(n.func), tuple(_pat(a) for a in n.args),
                tuple(sorted((k.arg or '**', _pat(k.value)) for k in n.keywords)))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        if isinstance(n.operand, ast.Constant):
            return const(-n.operand.value)
        return ('neg', _pat(n.operand))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return ('not', _pat(n.operand))
    if isinstance(n, ast.Compare):
        return Analyzer.compare(type(n.ops[0]).__name__, _pat(n.left), _pat(n.comparators[0]))
    if isinstance(n, ast.Tuple):
        return ('tuple', tuple(_pat(e) for e in n.elts))
    if isinstance(n, ast.List):
        return ('list', tuple(_pat(e) for e in n.elts))
    if isinstance(n, ast.Dict):
        return ('dict', tuple((_pat(k), _pat(v)) for k, v in zip(n.keys, n.values)))
    if isinstance(n, ast.BinOp):
        return ('bin', type(n.op).__name__, _pat(n.left), _pat(n.right))
    if isinstance(n, ast.Slice):
        return ('slice',) + tuple(_pat(x) if x is not None else NONE for x in (n.lower, n.upper, n.step))
    raise ValueError('pattern %s' % ast.dump(n))


def _match(p, t, b):
    if isinstance(p, tuple) and p:
        if p[0] == 'any':
            return True
        if p[0] == 'wild':
            if p[1] in b:
                return b[p[1]] == t
            b[p[1]] = t
            return True
        if not isinstance(t, tuple):
            return False
        if p[0] == 'call':
            if not t or t[0] != 'call' or not _match(p[1], t[1], b):
                return False
            args = p[2]
            rest = bool(args) and args[-1] == ('ellipsis',)
            if rest:
                args = args[:-1]
            if len(t[2]) < len(args) or not rest and len(t[2]) != len(args):
                return False
            if not all(_match(x, y, b) for x, y in zip(args, t[2])):
                return False
            for k, v in p[3]:
                c = [y for kk, y in t[3] if kk == k]
                if not c or not _match(v, c[0], b):
                    return False
            return rest or len(p[3]) == len(t[3])
        if p[0] == 'getattr' or len(p) != len(t):
            return False
        return all(_match(x, y, b) for x, y in zip(p, t))
    return p == t


_cache = {}


def match(pat, term):
    """Bindings of a pattern on a term, or None."""
    if isinstance(pat, str):
        if pat not in _cache:
            _cache[pat] = parse_pattern(pat)
        pat = _cache[pat]
    b = {}
    return b if _match(pat, strip(term), b) else None


def find(pat, term):
    """First match of a pattern on a term or one of its subterms."""
    for x in subterms(strip(term)):
        b = match(pat, x)
        if b is not None:
            return b
    return None


def holds(facts, pat, value=True):
    """Is a fact matching the pattern with that truth value among the facts?"""
    if isinstance(pat, str):
        if pat not in _cache:
            _cache[pat] = parse_pattern(pat)
        pat = _cache[pat]
    while pat[0] == 'not':
        pat, value = pat[1], not value
    return any(b == value and match(pat, f) is not None for f, b in facts)
