"""Shared definitions of the abstract interpreter."""
import ast

from . import terms as tm
from .terms import (T, raw, const, NONE, TRUE, FALSE, EMPTY, mk_ite, mk_and, mk_or, mk_not, mk_isnone, is_const, is_int,
                    cval)


class Rec(object):
    """Heap record (immutable)."""
    __slots__ = ('kind', 'content', 'cls', 'birth', 'site')

    def __init__(self, kind, content, cls=None, birth=0, site=None):
        self.kind = kind          # list set dict deque obj
        self.content = content    # seq term, or dict of attributes
        self.cls = cls
        self.birth = birth
        self.site = site

    def with_content(self, content):
        return Rec(self.kind, content, self.cls, self.birth, self.site)


class Func(object):
    def __init__(self, qual, node, module, cls, frame):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls            # ClassInfo or None
        self.frame = frame        # defining frame id (closures) or None
        self.defaults = None
        self.kw_defaults = None
        self.decorators = []
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.is_lambda = isinstance(node, ast.Lambda)
        body = [node.body] if self.is_lambda else node.body
        self.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in body for x in walk_scope(b))
        self.globals = set()
        self.nonlocals = set()
        for b in body:
            for x in walk_scope(b):
                if isinstance(x, ast.Global):
                    self.globals |= set(x.names)
                elif isinstance(x, ast.Nonlocal):
                    self.nonlocals |= set(x.names)
        self.locals = None if self.is_lambda else assigned_names(node.body) - self.globals - self.nonlocals
        if self.locals is None:
            self.locals = set()
        self.recursive = None


def walk_scope(node):
    """Walk without entering nested function scopes (but entering comprehensions)."""
    stack = [node]
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.append(c)


def assigned_names(body):
    out = set()
    for b in body:
        stack = [b]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension targets are private; walrus targets are not
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        out.add(c.target.id)
                continue
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    out.add((al.asname or al.name).split('.')[0])
            stack.extend(ast.iter_child_nodes(n))
    return out


class ClassInfo(object):
    def __init__(self, qual, name, module, node):
        self.qual = qual
        self.name = name
        self.module = module
        self.node = node
        self.bases = []          # terms
        self.ns = {}             # class namespace: name -> term
        self.props = {}          # property name -> Func
        self.setters = {}
        self.statics = set()
        self.classmethods = set()
        self.is_enum = False
        self.is_intenum = False
        self.members = []        # enum member terms in order
        self.fields = None       # namedtuple / dataclass fields


class Event(object):
    __slots__ = ('kind', 'data', 'pc', 'ctx', 'where', 'func', 'extra')

    def __init__(self, kind, data, pc, ctx, where, func, extra=None):
        self.kind = kind
        self.data = data
        self.pc = pc
        self.ctx = ctx
        self.where = where
        self.func = func
        self.extra = extra

    def map(self, f):
        return Event(self.kind, tuple(f(d) if isinstance(d, T) else d for d in self.data), f(self.pc),
                     tuple((f(s), l) for s, l in self.ctx), self.where, self.func, self.extra)

    def __repr__(self):
        return '%s %s IF %s FOR %s @%s' % (self.kind, self.data, self.pc, self.ctx, self.where)


class State(object):
    __slots__ = ('vars', 'heap', 'over', 'univ', 'vers', 'facts', 'pc', 'pending')

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.over = {}      # (object term, attr) -> value
        self.univ = []      # universal overlay: (attr, pattern, lid, src, value)
        self.vers = {}      # attr name -> version term
        self.facts = frozenset()
        self.pc = TRUE
        self.pending = []   # raise outcomes produced while evaluating an expression

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.over = dict(self.over)
        s.univ = list(self.univ)
        s.vers = dict(self.vers)
        s.facts = self.facts
        s.pc = self.pc
        s.pending = []
        return s

    def become(self, o):
        self.vars = o.vars
        self.heap = o.heap
        self.over = o.over
        self.univ = o.univ
        self.vers = o.vers
        self.facts = o.facts
        self.pc = o.pc

    def assume(self, c):
        parts = tm.conj_parts(c)
        if parts:
            self.facts = self.facts | frozenset(parts)


class Abrupt(object):
    __slots__ = ('cond', 'kind', 'value', 'state', 'where')

    def __init__(self, cond, kind, value, state, where=None):
        self.cond = cond
        self.kind = kind      # return raise break continue
        self.value = value
        self.state = state
        self.where = where


class Unsupported(Exception):
    pass


UNDEF = raw('undef')

STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'startswith', 'endswith', 'replace', 'find',
               'rfind', 'isupper', 'islower', 'isalpha', 'isdigit', 'title', 'capitalize', 'join', 'count', 'format',
               'rsplit', 'splitlines', 'partition', 'rpartition', 'removesuffix', 'removeprefix', 'casefold', 'encode',
               'decode', 'zfill', 'isspace', 'isalnum', 'isnumeric', 'translate', 'ljust', 'rjust', 'index'}
MUTATORS = {'append', 'extend', 'add', 'update', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'discard',
            'setdefault', 'appendleft', 'popleft', 'extendleft', 'popitem', 'difference_update',
            'intersection_update', 'symmetric_difference_update'}
DICT_METHODS = {'get', 'items', 'keys', 'values', 'copy'}


def known_len(src):
    if src.op == 'tuple':
        return len(src.args)
    if src.op == 'list':
        f = tm.flat_ones(src.args[0])
        return len(f) if f is not None else None
    if src.op == 'const' and isinstance(cval(src), (str, tuple)):
        return len(cval(src))
    if src.op == 'range' and all(is_int(a) for a in src.args):
        return len(range(*[cval(a) for a in src.args]))
    if src.op == 'zip':
        ns = [known_len(a) for a in src.args]
        ns = [n for n in ns if n is not None]
        return min(ns) if ns else None
    if src.op == 'enumerate':
        return known_len(src.args[0])
    return None


def mangle(name, cls):
    if cls is not None and name.startswith('__') and not name.endswith('__'):
        return '_%s%s' % (cls.name.lstrip('_'), name)
    return name


def as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def simp_under(c, facts):
    """Simplify condition c knowing the literals in facts."""
    if c is TRUE or c is FALSE:
        return c
    if c in facts:
        return TRUE
    if mk_not(c) in facts:
        return FALSE
    if c.op == 'and':
        return mk_and(*[simp_under(x, facts) for x in c.args])
    if c.op == 'or':
        return mk_or(*[simp_under(x, facts) for x in c.args])
    if c.op == 'not':
        return mk_not(simp_under(c.args[0], facts))
    if c.op == 'ite':
        d = simp_under(c.args[0], facts)
        if tm.is_bool(c):
            return mk_ite(d, simp_under(c.args[1], facts), simp_under(c.args[2], facts))
        return mk_ite(d, c.args[1], c.args[2])
    if c.op == 'memb':
        x, s = c.args
        for f in facts:
            if f.op == 'memb' and f.args[0] is x:
                if f.args[1] <= s:
                    return TRUE
                if not (f.args[1] & s):
                    return FALSE
            elif f.op == 'not' and f.args[0].op == 'memb' and f.args[0].args[0] is x:
                if s <= f.args[0].args[1]:
                    return FALSE
            elif f.op == 'isnone' and f.args[0] is x:
                return TRUE if NONE in s else FALSE
    if c.op == 'isnone':
        x = c.args[0]
        for f in facts:
            if f.op == 'memb' and f.args[0] is x and NONE not in f.args[1]:
                return FALSE
            if f.op == 'truthy' and f.args[0] is x:
                return FALSE
            if f.op == 'nonempty' and f.args[0] is x:
                return FALSE
    if c.op == 'truthy':
        x = c.args[0]
        if mk_isnone(x) in facts:
            return FALSE
    if c.op == 'nonempty':
        x = c.args[0]
        if mk_isnone(x) in facts:
            return FALSE
    return c
